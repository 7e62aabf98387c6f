-------------------------------- MODULE BulkMC --------------------------------
(* Bulk says of a call for a range of keys exactly what IndexedMap says of    *)
(* the calls for its keys, one by one.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Judge, K, E, V, Ops, Cap, LF
VARIABLES S, b, ev
vars == <<S, b, ev>>
P == INSTANCE BulkLists
I == INSTANCE IndexedMap
B == INSTANCE Bulk
c == S.cs[1]

\* one call: the events of IndexedMap it stands for
One(op, k, y, v) ==
  CASE op = "put" -> [op |-> "put", o |-> 0, k |-> k, v |-> v, e |-> y, x |-> "ok"]
    [] op = "add" -> [op |-> "add", o |-> 0, k |-> k, e |-> y, x |-> "ok"]
    [] op = "rem" -> [op |-> "rem", o |-> 0, k |-> k, e |-> y, x |-> "ok"]
    [] OTHER -> [op |-> op, o |-> 0, e |-> y, x |-> "ok"]     \* rat, rsv at the entry looked up
\* is the list of answers allowed, call by call, and the state left
RECURSIVE Calls(_, _, _, _, _, _)
Calls(T, op, l, v, vd, i) ==
  IF l = <<>> THEN [ok |-> TRUE, T |-> T]
  ELSE LET h == Head(l)
           e == One(op, h.k, h.y, (v + vd * i) % V)
           look == [op |-> "lk", o |-> 0, k |-> h.k, e |-> h.y, x |-> "ok"]
           has == I!Has(T.cs[1], h.k)
           grow == IF op \in {"add", "put"} THEN ~has ELSE has
           good == /\ h.g = grow
                   /\ op \in {"rat", "rsv"} => I!Ok(T, look)
                   /\ (op \in {"rat", "rsv"} /\ h.y = -1) \/ I!Ok(T, e)
       IN IF ~good THEN [ok |-> FALSE, T |-> T]
          ELSE Calls(IF op \in {"rat", "rsv"} /\ h.y = -1 THEN T ELSE I!Nxt(T, e), op, Tail(l), v, vd, i + 1)

RangeEv(op, lo, n, dk, v, vd, l) ==
  [op |-> op, o |-> 0, lo |-> lo, n |-> n, dk |-> dk, v |-> v, vd |-> vd, ps |-> P!Pieces(l, dk, 0, <<>>), x |-> "ok"]
MoreOps == {"add", "put", "rem", "rat", "rsv"} \cap Ops

Init == /\ S = I!Nxt(I!Init0, [op |-> "new", o |-> 0, map |-> TRUE, c |-> Cap, cap |-> Cap, lf |-> LF])
        /\ b = B!Nxt(B!Init0, [op |-> "new", o |-> 0, kind |-> "map", m |-> V, w |-> 1, cnt |-> FALSE, c |-> Cap, cap |-> Cap, lf |-> LF, custom |-> FALSE])
        /\ ev = [op |-> "none"]
RECURSIVE FreeAll(_, _)
FreeAll(T, es) == IF es = {} THEN T
                  ELSE LET e == CHOOSE x \in es : TRUE IN
                       FreeAll(I!Nxt(T, [op |-> "frs", o |-> 0, e |-> e, x |-> "ok"]), es \ {e})
RECURSIVE SetAll(_, _, _, _, _, _)
SetAll(T, lo, n, dk, v, vd) ==   \* putValueAt, at the entry of each present key
  IF n = 0 THEN T
  ELSE SetAll(IF I!Has(T.cs[1], lo) THEN I!Nxt(T, [op |-> "pva", o |-> 0, e |-> I!Ent(T.cs[1], lo), v |-> v, x |-> "ok"]) ELSE T,
              lo + dk, n - 1, dk, (v + vd) % V, vd)
Go(e, T) == S' = T /\ ev' = e /\ b' = B!Nxt(b, e)
Next ==
  \/ \E op \in MoreOps, sp \in P!Spans, v \in 0..(V - 1), vd \in {0, 1} :
     \E l \in P!Lists(sp[1], sp[2], sp[3]) :
       LET a == Calls(S, op, l, v, vd, 0) IN
       /\ op = "put" \/ (v = 0 /\ vd = 0)
       /\ op = "rsv" => c.rsv = {}
       /\ a.ok
       /\ \A i \in DOMAIN l : l[i].y < E
       /\ Go(RangeEv(op, sp[1], sp[2], sp[3], v, vd, l), a.T)
  \/ /\ "pva" \in Ops
     /\ \E sp \in P!Spans, v \in 0..(V - 1), vd \in {0, 1} :
          Go([op |-> "pva", o |-> 0, lo |-> sp[1], n |-> sp[2], dk |-> sp[3], v |-> v, vd |-> vd, x |-> "ok"],
             SetAll(S, sp[1], sp[2], sp[3], v, vd))
  \/ c.rsv # {} /\ Go([op |-> "frs", o |-> 0, x |-> "ok"], FreeAll(S, c.rsv))
  \/ Go([op |-> "clr", o |-> 0, x |-> "ok"], I!Nxt(S, [op |-> "clr", o |-> 0, x |-> "ok"]))
  \/ /\ "walk" \in Ops
     /\ \E lo \in 0..(K - 1), n \in 1..K, how \in {"fee", "fek", "itw"} :
          LET gone == {k \in lo..(lo + n - 1) : I!Has(c, k)}
              all == IF how = "fek" THEN DOMAIN c.ent ELSE I!Live(c)
          IN Go([op |-> "walk", o |-> 0, how |-> how, rlo |-> lo, rn |-> n, n |-> Cardinality(DOMAIN c.ent), is |-> P!Intervals(all), x |-> "ok"],
                [S EXCEPT !.cs[1] = I!WithoutAll(c, {I!Ent(c, k) : k \in gone})])
Spec == Init /\ [][Next]_vars
View == S

\* the state of Bulk, spelled out
At(ps, k) == LET p == CHOOSE p \in ps : p.k <= k /\ k < p.k + p.n IN p.y + p.d * (k - p.k)
Dom(ps) == UNION {p.k..(p.k + p.n - 1) : p \in ps}
Disjoint(ps) == \A p, q \in ps : p # q => p.k + p.n <= q.k \/ q.k + q.n <= p.k
d == b[1]
Same ==
  /\ Disjoint(d.seg) /\ Disjoint(d.val) /\ Disjoint(d.rsv) /\ Disjoint(d.rval)
  /\ Dom(d.seg) = DOMAIN c.ent /\ \A k \in DOMAIN c.ent : At(d.seg, k) = c.ent[k]
  /\ Dom(d.val) = DOMAIN c.ent /\ \A k \in DOMAIN c.ent : At(d.val, k) % V = c.val[c.ent[k]]
  /\ UNION {i.a..i.b : i \in d.free} = c.free /\ \A i, j \in d.free : i # j => i.b < j.a \/ j.b < i.a
  /\ {At(d.rsv, k) : k \in Dom(d.rsv)} = c.rsv /\ Dom(d.rsv) = {c.ky[e] : e \in c.rsv}
  /\ \A k \in Dom(d.rsv) : c.ky[At(d.rsv, k)] = k /\ At(d.rval, k) % V = c.val[At(d.rsv, k)]
  /\ d.nxt = c.nxt /\ d.cap = c.cap

\* every list of answers to a range of calls is allowed by both or by neither
Calling == \A op \in MoreOps, sp \in P!Spans : \A l \in P!Lists(sp[1], sp[2], sp[3]) :
             (op = "rsv" => c.rsv = {}) =>
             LET e == RangeEv(op, sp[1], sp[2], sp[3], 0, 1, l) IN
             Calls(S, op, l, 0, 1, 0).ok = B!Ok(b, e)

\* the same of what is observed
LookEv(lo, n, f, g, ks, vs) ==
  LET dom == P!Keys(lo, n, 1)
      in == SelectSeq(dom, LAMBDA k : f[k] >= 0)
  IN [op |-> "look", o |-> 0, lo |-> lo, n |-> n, sz |-> Cardinality(DOMAIN c.ent), b |-> c.ent = <<>>, cap |-> c.cap,
      ps |-> P!Pieces([i \in DOMAIN dom |-> [k |-> dom[i], y |-> f[dom[i]], g |-> g[dom[i]]]], 1, 0, <<>>),
      ks |-> P!Strip(P!Pieces([i \in DOMAIN in |-> [k |-> in[i], y |-> ks[in[i]], g |-> TRUE]], 1, 0, <<>>)),
      vs |-> P!Strip(P!Pieces([i \in DOMAIN in |-> [k |-> in[i], y |-> vs[in[i]], g |-> TRUE]], 1, V, <<>>)),
      ws |-> P!Strip(P!Pieces([i \in DOMAIN in |-> [k |-> in[i], y |-> vs[in[i]], g |-> TRUE]], 1, V, <<>>)), x |-> "ok"]
True(lo, n) == LET dom == lo..(lo + n - 1) IN
               [f |-> [k \in dom |-> IF I!Has(c, k) THEN I!Ent(c, k) ELSE -1], g |-> [k \in dom |-> I!Has(c, k)], ks |-> [k \in dom |-> k],
                vs |-> [k \in dom |-> IF I!Has(c, k) THEN c.val[I!Ent(c, k)] ELSE 0]]
Looking == \A lo \in 0..(K - 1) : \A n \in 1..(K - lo) :
  LET t == True(lo, n) dom == lo..(lo + n - 1) IN
  /\ B!Ok(b, LookEv(lo, n, t.f, t.g, t.ks, t.vs))
  /\ ~B!Ok(b, [LookEv(lo, n, t.f, t.g, t.ks, t.vs) EXCEPT !.sz = @ + 1])
  /\ ~B!Ok(b, [LookEv(lo, n, t.f, t.g, t.ks, t.vs) EXCEPT !.b = ~@])
  /\ ~B!Ok(b, [LookEv(lo, n, t.f, t.g, t.ks, t.vs) EXCEPT !.cap = 2 * @])
  /\ \A f \in [dom -> -1..E] : f # t.f => ~B!Ok(b, LookEv(lo, n, f, t.g, t.ks, t.vs))
  /\ \A g \in [dom -> BOOLEAN] : g # t.g => ~B!Ok(b, LookEv(lo, n, t.f, g, t.ks, t.vs))
  /\ \A k \in dom \cap DOMAIN c.ent :
       /\ \A j \in -1..K : j # k => ~B!Ok(b, LookEv(lo, n, t.f, t.g, [t.ks EXCEPT ![k] = j], t.vs))
       /\ \A v \in 0..(V - 1) : v # t.vs[k] => ~B!Ok(b, LookEv(lo, n, t.f, t.g, t.ks, [t.vs EXCEPT ![k] = v]))
\* the reserved keys with their entries and values
RobsEv(f, vs) ==
  LET in == SelectSeq(P!Keys(0, K, 1), LAMBDA k : k \in DOMAIN f)
      kd(ps) == [i \in DOMAIN ps |-> [k |-> ps[i].k, n |-> ps[i].n, y |-> ps[i].y, d |-> ps[i].d, kd |-> 1]]
  IN [op |-> "robs", o |-> 0, ps |-> kd(P!Pieces([i \in DOMAIN in |-> [k |-> in[i], y |-> f[in[i]], g |-> FALSE]], 1, 0, <<>>)),
      vs |-> kd(P!Pieces([i \in DOMAIN in |-> [k |-> in[i], y |-> vs[in[i]], g |-> FALSE]], 1, V, <<>>)), x |-> "ok"]
Reserving ==
  LET dom == {c.ky[e] : e \in c.rsv}
      f == [k \in dom |-> CHOOSE e \in c.rsv : c.ky[e] = k]
      vs == [k \in dom |-> c.val[f[k]]]
  IN /\ B!Ok(b, RobsEv(f, vs))
     /\ \A g \in [dom -> 0..E] : g # f => ~B!Ok(b, RobsEv(g, vs))
     /\ \A ws \in [dom -> 0..(V - 1)] : ws # vs => ~B!Ok(b, RobsEv(f, ws))
     /\ \A k \in 0..(K - 1) : k \notin dom => ~B!Ok(b, RobsEv((k :> 0) @@ f, (k :> 0) @@ vs))
     /\ \A k \in dom : ~B!Ok(b, RobsEv([j \in dom \ {k} |-> f[j]], vs))
WalkEv(how, n, s) == [op |-> "walk", o |-> 0, how |-> how, rlo |-> 0, rn |-> 0, n |-> n, is |-> P!Intervals(s), x |-> "ok"]
Walking ==
  /\ \A n \in 0..(K + 1), s \in SUBSET (0..E) :
       B!Ok(b, WalkEv("fee", n, s)) = (n = Cardinality(DOMAIN c.ent) /\ s = I!Live(c))
  /\ \A n \in 0..(K + 1), s \in SUBSET (0..(K - 1)) :
       B!Ok(b, WalkEv("fek", n, s)) = (n = Cardinality(DOMAIN c.ent) /\ s = DOMAIN c.ent)
  /\ \A h \in [1..V -> 0..K] :
       B!Ok(b, [op |-> "vals", o |-> 0, h |-> h, x |-> "ok"]) =
         \A r \in 0..(V - 1) : h[r + 1] = Cardinality({k \in DOMAIN c.ent : c.val[c.ent[k]] = r})
=============================================================================
