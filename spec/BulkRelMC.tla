------------------------------- MODULE BulkRelMC -------------------------------
(* Bulk says of a call for a range of partners of one key exactly what         *)
(* Relation says of the calls for its pairs, one by one.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Judge, K, E, V, Ops    \* K = V * (partners): V keys on the one side
VARIABLES S, b, ev
vars == <<S, b, ev>>
P == INSTANCE BulkLists
R == INSTANCE Relation
B == INSTANCE Bulk
d == b[1]
W == K \div V
L(k) == k \div W
Q(k) == k % W
Pair(k) == <<L(k), Q(k)>>
Has(T, k) == R!Has(T, Pair(k))

One(op, k, y) ==
  CASE op = "add" -> [op |-> "put", l |-> L(k), r |-> Q(k), e |-> y, x |-> "ok"]
    [] op = "rem" -> [op |-> "rem", l |-> L(k), r |-> Q(k), e |-> y, x |-> "ok"]
    [] OTHER -> [op |-> op, e |-> y, y |-> y, x |-> "ok"]
RECURSIVE Calls(_, _, _)
Calls(T, op, l) ==
  IF l = <<>> THEN [ok |-> TRUE, T |-> T]
  ELSE LET h == Head(l)
           e == One(op, h.k, h.y)
           at == op \in {"rat", "rsv"}
           good == /\ h.g = (IF op = "add" THEN ~Has(T, h.k) ELSE Has(T, h.k))
                   /\ at => R!Ok(T, [op |-> "lk", l |-> L(h.k), r |-> Q(h.k), e |-> h.y, x |-> "ok"])
                   /\ (at /\ h.y = -1) \/ R!Ok(T, e)
       IN IF ~good THEN [ok |-> FALSE, T |-> T]
          ELSE Calls(IF at /\ h.y = -1 THEN T ELSE R!Nxt(T, e), op, Tail(l))
RangeEv(op, lo, n, dk, l) ==
  [op |-> op, o |-> 0, lo |-> lo, n |-> n, dk |-> dk, v |-> 0, vd |-> 0, ps |-> P!Pieces(l, dk, 0, <<>>), x |-> "ok"]
RECURSIVE FreeAll(_, _)
FreeAll(T, es) == IF es = {} THEN T
                  ELSE LET e == CHOOSE x \in es : TRUE IN FreeAll(R!Nxt(T, [op |-> "frs", e |-> e, x |-> "ok"]), es \ {e})

Init == /\ S = R!Nxt(R!Init0, [op |-> "new", m2m |-> TRUE, cnt |-> TRUE])
        /\ b = B!Nxt(B!Init0, [op |-> "new", o |-> 0, kind |-> "rel", m |-> 1, w |-> W, cnt |-> TRUE, c |-> 0, cap |-> 0, lf |-> 0, custom |-> FALSE])
        /\ ev = [op |-> "none"]
Go(e, T) == S' = T /\ ev' = e /\ b' = B!Nxt(b, e)
CallOps == {"add", "rem", "rat", "rsv"} \cap Ops
Next ==
  \/ \E op \in CallOps, sp \in P!Spans : \E l \in P!Lists(sp[1], sp[2], sp[3]) :
       LET a == Calls(S, op, l) IN
       /\ op = "rsv" => S.rsv = {}
       /\ a.ok /\ \A i \in DOMAIN l : l[i].y < E
       /\ Go(RangeEv(op, sp[1], sp[2], sp[3], l), a.T)
  \/ S.rsv # {} /\ Go([op |-> "frs", o |-> 0, x |-> "ok"], FreeAll(S, S.rsv))
  \/ "walk" \in Ops /\ \E lo \in 0..(K - 1), n \in 1..K :
       LET gone == {k \in lo..(lo + n - 1) : Has(S, k)}
           l == SelectSeq([i \in 1..E |-> i - 1], LAMBDA e : \E k \in gone : S.ent[Pair(k)] = e)
       IN Go([op |-> "walk", o |-> 0, how |-> "fee", rlo |-> lo, rn |-> n, n |-> Cardinality(R!Live(S)),
              is |-> P!Intervals(R!Live(S)), x |-> "ok"], R!WithoutAll(S, l))
Spec == Init /\ [][Next]_vars
View == S

At(ps, k) == LET p == CHOOSE p \in ps : p.k <= k /\ k < p.k + p.n IN p.y + p.d * (k - p.k)
Dom(ps) == UNION {p.k..(p.k + p.n - 1) : p \in ps}
Apart(ps) == \A p, q \in ps : p # q => p.k + p.n <= q.k \/ q.k + q.n <= p.k
Same ==
  /\ R!Sound(S) /\ Apart(d.seg) /\ Apart(d.rsv)
  /\ {Pair(k) : k \in Dom(d.seg)} = DOMAIN S.ent /\ \A k \in Dom(d.seg) : At(d.seg, k) = S.ent[Pair(k)]
  /\ {At(d.rsv, k) : k \in Dom(d.rsv)} = S.rsv /\ \A k \in Dom(d.rsv) : S.pr[At(d.rsv, k)] = Pair(k)
Calling == \A op \in CallOps, sp \in P!Spans : \A l \in P!Lists(sp[1], sp[2], sp[3]) :
             (op = "rsv" => S.rsv = {}) => Calls(S, op, l).ok = B!Ok(b, RangeEv(op, sp[1], sp[2], sp[3], l))
NavEv(a, n, s, en, es, cn) == [op |-> "nav", o |-> 0, a |-> a, n |-> n, en |-> en, cn |-> cn, is |-> P!Intervals(s), es |-> P!Intervals(es), x |-> "ok"]
Walking ==
  /\ \A a \in 0..(V - 1) :
       LET v == R!Partners(S, TRUE, a) es == R!Entries(S, TRUE, a) n == Cardinality(v) IN
       /\ \A s \in SUBSET (0..(W - 1)), t \in SUBSET (0..E) : B!Ok(b, NavEv(a, n, s, n, t, n)) = (s = v /\ t = es)
       /\ \A i, j, k \in 0..(W + 1) : B!Ok(b, NavEv(a, i, v, j, es, k)) = (i = n /\ j = n /\ k = n)
  /\ \A q \in 0..(W - 1) : \A s \in SUBSET (0..(V - 1)), n \in 0..(V + 1) :
       B!Ok(b, [op |-> "nav2", o |-> 0, k |-> q, top |-> V, cn |-> n,
                l |-> SelectSeq([i \in 1..V |-> i - 1], LAMBDA x : x \in s), x |-> "ok"])
         = (s = R!Partners(S, FALSE, q) /\ n = Cardinality(s))
  /\ \A k \in 0..(K - 1) : \A y \in BOOLEAN : B!Ok(b, [op |-> "has", o |-> 0, k |-> k, b |-> y, x |-> "ok"]) = (y = Has(S, k))
  /\ \A n \in 0..(K + 1), s \in SUBSET (0..E) :
       B!Ok(b, [op |-> "walk", o |-> 0, how |-> "fee", rlo |-> 0, rn |-> 0, n |-> n, is |-> P!Intervals(s), x |-> "ok"])
         = (n = Cardinality(R!Live(S)) /\ s = R!Live(S))
=============================================================================
