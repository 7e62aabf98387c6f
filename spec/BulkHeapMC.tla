------------------------------ MODULE BulkHeapMC ------------------------------
(* Bulk says of a call for a range of keys exactly what Heap says of the      *)
(* calls for its keys, one by one; the keys in a heap are all different.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Judge, K, E, V, Ops
VARIABLES S, b, ev
vars == <<S, b, ev>>
P == INSTANCE BulkLists
H == INSTANCE Heap
B == INSTANCE Bulk
d == b[1]

Of(T, k) == {e \in H!Active(T) : T.key[e] = k}
Has(T, k) == Of(T, k) # {}
Ent(T, k) == IF Has(T, k) THEN CHOOSE e \in Of(T, k) : TRUE ELSE -1
InEv(k, e, v) == [op |-> "ins", k |-> k, v |-> v, e |-> e, x |-> "ok"]
RatEv(e) == [op |-> "rat", e |-> e, x |-> "ok"]
\* is the list of answers allowed, call by call, and the state left
RECURSIVE Calls(_, _, _, _, _, _)
Calls(T, op, l, v, vd, i) ==
  IF l = <<>> THEN [ok |-> TRUE, T |-> T]
  ELSE LET h == Head(l)
           e == IF op = "rat" THEN RatEv(h.y) ELSE InEv(h.k, h.y, IF op = "put" THEN (v + vd * i) % V ELSE -1)
           good == IF op = "rat" THEN h.y = Ent(T, h.k) /\ h.g = (h.y >= 0)
                   ELSE h.g /\ h.y >= 0 /\ h.y \notin H!Active(T) /\ H!Ok(T, e)
       IN IF ~good THEN [ok |-> FALSE, T |-> T]
          ELSE Calls(IF op = "rat" /\ h.y = -1 THEN T ELSE H!Nxt(T, e), op, Tail(l), v, vd, i + 1)
RangeEv(op, lo, n, dk, v, vd, l) ==
  [op |-> op, o |-> 0, lo |-> lo, n |-> n, dk |-> dk, v |-> v, vd |-> vd, ps |-> P!Pieces(l, dk, 0, <<>>), x |-> "ok"]

\* peek and removeAt, over and over: [k, y, v] of each
RECURSIVE Pops(_, _)
Pops(T, l) ==
  IF l = <<>> THEN [ok |-> TRUE, T |-> T]
  ELSE LET h == Head(l) IN
       IF H!Active(T) # {} /\ H!Ok(T, [op |-> "peek", e |-> h.y, x |-> "ok"]) /\ h.y \in H!Active(T) /\ T.key[h.y] = h.k /\ T.val[h.y] = h.v
       THEN Pops(H!Nxt(T, RatEv(h.y)), Tail(l)) ELSE [ok |-> FALSE, T |-> T]
\* pieces whose keys ascend or descend
RECURSIVE Free(_, _, _)
Free(l, m, out) ==
  IF l = <<>> THEN out
  ELSE LET h == Head(l)
           n == Len(out)
           p == out[n]
           w == h.y - (p.y + p.d * (p.n - 1))
           z == IF m = 0 THEN w ELSE IF m > 2 /\ w % m = m - 1 THEN -1 ELSE w % m
           s == h.k - (p.k + p.kd * (p.n - 1))
       IN IF n > 0 /\ z \in -1..1 /\ (p.n = 1 \/ z = p.d) /\ (IF p.n = 1 THEN s \in {-1, 1} ELSE s = p.kd)
          THEN Free(Tail(l), m, [out EXCEPT ![n] = [@ EXCEPT !.n = p.n + 1, !.d = z, !.kd = s]])
          ELSE Free(Tail(l), m, Append(out, [k |-> h.k, n |-> 1, y |-> h.y, d |-> 0, kd |-> 1]))
PopEv(n, l, x) == [op |-> "pop", o |-> 0, n |-> n, k |-> Len(l), x |-> x, ps |-> Free(l, 0, <<>>),
                   vs |-> Free([i \in DOMAIN l |-> [k |-> l[i].k, y |-> l[i].v]], V, <<>>)]
\* the one list that Heap allows (its keys are all different)
RECURSIVE Drain(_, _)
Drain(T, n) == IF n = 0 \/ H!Active(T) = {} THEN <<>>
               ELSE LET e == CHOOSE e \in H!Active(T) : H!IsMin(T, e)
                    IN <<[k |-> T.key[e], y |-> e, v |-> T.val[e]]>> \o Drain(H!Nxt(T, RatEv(e)), n - 1)
RECURSIVE Moved(_, _, _, _)
Moved(T, es, s, n) ==   \* resetKey, the range of keys shifted by s
  IF es = {} THEN T
  ELSE LET e == CHOOSE e \in es : TRUE
       IN Moved(H!Nxt(T, [op |-> "rst", e |-> e, k |-> T.key[e] + s, x |-> "ok"]), es \ {e}, s, n)
RECURSIVE SetAll(_, _, _, _, _, _)
SetAll(T, lo, n, dk, v, vd) ==
  IF n = 0 THEN T
  ELSE SetAll(IF Has(T, lo) THEN H!Nxt(T, [op |-> "svat", e |-> Ent(T, lo), v |-> v, x |-> "ok"]) ELSE T,
              lo + dk, n - 1, dk, (v + vd) % V, vd)

Init == /\ S = H!Nxt(H!Init0, [op |-> "new", dk |-> -50, dv |-> 0])
        /\ b = B!Nxt(B!Init0, [op |-> "new", o |-> 0, kind |-> "heap", m |-> V, w |-> 1, cnt |-> FALSE, c |-> 0, cap |-> 0, lf |-> 0, custom |-> FALSE])
        /\ ev = [op |-> "none"]
Go(e, T) == S' = T /\ ev' = e /\ b' = B!Nxt(b, e)
Disjoint(sp) == \A i \in 0..(sp[2] - 1) : ~Has(S, sp[1] + sp[3] * i)
Next ==
  \/ \E op \in {"add", "put", "rat"} \cap Ops, sp \in P!Spans, v \in 0..(V - 1), vd \in {0, 1} :
     \E l \in P!Lists(sp[1], sp[2], sp[3]) :
       LET a == Calls(S, op, l, v, vd, 0) IN
       /\ op = "put" \/ (v = 0 /\ vd = 0)
       /\ op = "rat" \/ Disjoint(sp)
       /\ a.ok /\ \A i \in DOMAIN l : l[i].y < E
       /\ Go(RangeEv(op, sp[1], sp[2], sp[3], v, vd, l), a.T)
  \/ "pva" \in Ops /\ \E sp \in P!Spans, v \in 0..(V - 1), vd \in {0, 1} :
       Go([op |-> "pva", o |-> 0, lo |-> sp[1], n |-> sp[2], dk |-> sp[3], v |-> v, vd |-> vd, x |-> "ok"],
          SetAll(S, sp[1], sp[2], sp[3], v, vd))
  \/ \E n \in 1..(K + 1) :
       LET l == Drain(S, n) IN Go(PopEv(n, l, IF Len(l) = n THEN "ok" ELSE "EMPTY"), Pops(S, l).T)
  \/ \E lo \in 0..(K - 1), n \in 1..K, to \in 0..(K - 1) :
       LET es == {e \in H!Active(S) : S.key[e] \in lo..(lo + n - 1)} IN
       /\ Cardinality(es) = n /\ to + n <= K
       /\ \A k \in to..(to + n - 1) : Of(S, k) \subseteq es
       /\ Go([op |-> "rst", o |-> 0, lo |-> lo, n |-> n, to |-> to, x |-> "ok"], Moved(S, es, to - lo, n))
  \/ \E desc \in BOOLEAN : Go([op |-> "cmp", o |-> 0, b |-> desc, x |-> "ok"],
                              H!Nxt(S, [op |-> "cmp", c |-> IF desc THEN "desc" ELSE "asc", b |-> TRUE, x |-> "ok"]))
  \/ Go([op |-> "clr", o |-> 0, x |-> "ok"], H!Nxt(S, [op |-> "clr", x |-> "ok"]))
  \/ \E lo \in 0..(K - 1), n \in 1..K :
       LET gone == {e \in H!Active(S) : S.key[e] \in lo..(lo + n - 1)}
           l == SelectSeq([i \in 1..E |-> i - 1], LAMBDA e : e \in gone)
       IN Go([op |-> "walk", o |-> 0, how |-> "fee", rlo |-> lo, rn |-> n, n |-> Cardinality(H!Active(S)),
              is |-> P!Intervals(H!Active(S)), x |-> "ok"], H!Sub(S, l))
Spec == Init /\ [][Next]_vars
View == S

At(ps, k) == LET p == CHOOSE p \in ps : p.k <= k /\ k < p.k + p.n IN p.y + p.d * (k - p.k)
Dom(ps) == UNION {p.k..(p.k + p.n - 1) : p \in ps}
Apart(ps) == \A p, q \in ps : p # q => p.k + p.n <= q.k \/ q.k + q.n <= p.k
Same ==
  /\ H!Sound(S) /\ Cardinality(H!Range(S.key)) = Cardinality(H!Active(S))
  /\ Apart(d.seg) /\ Apart(d.val)
  /\ Dom(d.seg) = H!Range(S.key) /\ \A e \in H!Active(S) : At(d.seg, S.key[e]) = e
  /\ Dom(d.val) = H!Range(S.key) /\ \A e \in H!Active(S) : At(d.val, S.key[e]) % V = S.val[e]
  /\ UNION {i.a..i.b : i \in d.free} = S.free /\ \A i, j \in d.free : i # j => i.b < j.a \/ j.b < i.a
  /\ d.nxt = S.nxt /\ d.desc = (S.cmp = "desc")
Calling == \A op \in {"put", "rat"}, sp \in P!Spans : \A l \in P!Lists(sp[1], sp[2], sp[3]) :
             op = "rat" \/ Disjoint(sp) =>
             Calls(S, op, l, 0, 1, 0).ok = B!Ok(b, RangeEv(op, sp[1], sp[2], sp[3], 0, 1, l))
\* lists of answers to pops: every one of up to two, and each way to alter one answer of longer ones
Answers == [k : 0..(K - 1), y : 0..(E - 1), v : 0..(V - 1)]
Popping ==
  \A n \in 1..(K + 1) :
    LET l == Drain(S, n) x == IF Len(l) = n THEN "ok" ELSE "EMPTY" IN
    /\ B!Ok(b, PopEv(n, l, x))
    /\ \A i \in DOMAIN l, a \in Answers : a # l[i] =>
         LET m == [l EXCEPT ![i] = a] IN Pops(S, m).ok = B!Ok(b, PopEv(n, m, x))
    /\ l # <<>> => ~B!Ok(b, PopEv(n, SubSeq(l, 1, Len(l) - 1), x)) /\ ~B!Ok(b, PopEv(n, SubSeq(l, 1, Len(l) - 1), "EMPTY"))
    /\ \A i, j \in DOMAIN l : i < j => ~B!Ok(b, PopEv(n, [l EXCEPT ![i] = l[j], ![j] = l[i]], x))
WalkEv(n, s) == [op |-> "walk", o |-> 0, how |-> "fee", rlo |-> 0, rn |-> 0, n |-> n, is |-> P!Intervals(s), x |-> "ok"]
Walking == \A n \in 0..(K + 1), s \in SUBSET (0..E) :
             B!Ok(b, WalkEv(n, s)) = (n = Cardinality(H!Active(S)) /\ s = H!Active(S))
=============================================================================
