-------------------------------- MODULE Runs --------------------------------
(* Deques, hydra deques and vectors through very long histories: the same    *)
(* sequences as in Deque, Hydra and Vector, written as maximal runs of       *)
(* ascending values (s, s+1, ... modulo m), so that a sequence of half a     *)
(* billion elements is a handful of runs.  One event is many calls.          *)
EXTENDS Integers, Sequences, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond
P(S) == CASE S.kind = "deque" -> {"P12"} [] S.kind = "hydra" -> {"P13"} [] OTHER -> {"P14"}

CONSTANT Most   \* a deque holds no more: its ring cannot double again
Min(a, b) == IF a < b THEN a ELSE b
\* seen: what each list showed since the last change
Init0 == [kind |-> "", m |-> 1, q |-> <<>>, seen |-> <<>>]
Shown(ev) == [n |-> ev.n, sz |-> ev.sz, b |-> ev.b, ss |-> ev.ss, ns |-> ev.ns, rs |-> ev.rs, rn |-> ev.rn, pf |-> ev.pf, pl |-> ev.pl]
At(S, id) == IF id \in DOMAIN S.q THEN S.q[id] ELSE <<>>
RECURSIVE Count(_)
Count(q) == IF q = <<>> THEN 0 ELSE q[1].n + Count(Tail(q))
RECURSIVE Total(_, _)
Total(f, ids) == IF ids = {} THEN 0 ELSE LET i == CHOOSE j \in ids : TRUE IN Count(f[i]) + Total(f, ids \ {i})
RECURSIVE Take(_, _)
Take(q, k) == IF k = 0 \/ q = <<>> THEN <<>>
              ELSE IF q[1].n <= k THEN <<q[1]>> \o Take(Tail(q), k - q[1].n)
              ELSE <<[s |-> q[1].s, n |-> k]>>
RECURSIVE Drop(_, _, _)
Drop(q, k, m) == IF k = 0 \/ q = <<>> THEN q
                 ELSE IF q[1].n <= k THEN Drop(Tail(q), k - q[1].n, m)
                 ELSE <<[s |-> (q[1].s + k) % m, n |-> q[1].n - k]>> \o Tail(q)
Join(a, b, m) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE LET l == a[Len(a)] IN
       IF (l.s + l.n) % m = b[1].s
       THEN SubSeq(a, 1, Len(a) - 1) \o <<[s |-> l.s, n |-> l.n + b[1].n]>> \o Tail(b)
       ELSE a \o b
Runs(ss, ns) == [i \in DOMAIN ss |-> [s |-> ss[i], n |-> ns[i]]]
Room(S) == IF S.kind = "deque" THEN Most - Count(At(S, 0)) ELSE 2147483647
Kept(S, ev) == Min(ev.n, Room(S))
Left(S, ev) == Count(At(S, ev.id)) - Min(ev.n, Count(At(S, ev.id)))

(* al s n: s, s+1, ..., at the tail; af s n: s+n-1, ..., s+1, s at the head;
   rf n, rl n: as many as there are; what they returned is listed from head to tail *)
Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op \in {"al", "af"} ->
         J(P(S), ev.k = Kept(S, ev) /\ ev.x = IF ev.k = ev.n THEN "ok" ELSE "RESIZE")
    [] ev.op = "rf" ->
         J(P(S), LET q == At(S, ev.id) k == Min(ev.n, Count(q)) IN
                 /\ ev.k = k /\ ev.x = IF k = ev.n THEN "ok" ELSE "NSE"
                 /\ Runs(ev.ss, ev.ns) = Take(q, k))
    [] ev.op = "rl" ->
         J(P(S), LET q == At(S, ev.id) k == Min(ev.n, Count(q)) IN
                 /\ ev.k = k /\ ev.x = IF k = ev.n THEN "ok" ELSE "NSE"
                 /\ Runs(ev.ss, ev.ns) = Drop(q, Count(q) - k, S.m))
    [] ev.op = "clr" -> J(P(S), ev.x = "ok")
    [] ev.op = "obs" ->   \* one list: its size, the size of all, forwards and (hydra) backwards
      /\ J({"P30"}, ev.id \in DOMAIN S.seen => Shown(ev) = S.seen[ev.id])
      /\ J(P(S), LET q == At(S, ev.id) IN
                 /\ ev.x = "ok" /\ ev.sz = Count(q) /\ ev.n = Total(S.q, DOMAIN S.q)
                 /\ ev.b = (ev.n = 0)
                 /\ Runs(ev.ss, ev.ns) = q
                 /\ ev.back => Runs(ev.rs, ev.rn) = q
                 /\ ev.pf = (IF ev.ends /\ q # <<>> THEN q[1].s ELSE -1)
                 /\ ev.pl = (IF ev.ends /\ q # <<>> THEN (q[Len(q)].s + q[Len(q)].n - 1) % S.m ELSE -1))
    [] OTHER -> FALSE

Moved(S, ev) ==
  CASE ev.op = "new" -> [kind |-> ev.kind, m |-> ev.m, q |-> (0 :> <<>>), seen |-> <<>>]
    [] ev.op = "al" -> [S EXCEPT !.q = (ev.id :> (IF Kept(S, ev) = 0 THEN At(S, ev.id)
                                          ELSE Join(At(S, ev.id), <<[s |-> ev.s, n |-> Kept(S, ev)]>>, S.m))) @@ @]
    [] ev.op = "af" -> [S EXCEPT !.q = (ev.id :> (IF Kept(S, ev) = 0 THEN At(S, ev.id)
                                          ELSE Join(<<[s |-> (ev.s + ev.n - Kept(S, ev)) % S.m, n |-> Kept(S, ev)]>>,
                                                    At(S, ev.id), S.m))) @@ @]
    [] ev.op = "rf" -> [S EXCEPT !.q = (ev.id :> Drop(At(S, ev.id), Min(ev.n, Count(At(S, ev.id))), S.m)) @@ @]
    [] ev.op = "rl" -> [S EXCEPT !.q = (ev.id :> Take(At(S, ev.id), Left(S, ev))) @@ @]
    [] ev.op = "clr" -> [S EXCEPT !.q = (0 :> <<>>)]
    [] OTHER -> S
\* a call that did nothing at all leaves everything in sight
Nxt(S, ev) ==
  IF ev.op = "obs" THEN [S EXCEPT !.seen = (ev.id :> Shown(ev)) @@ @]
  ELSE IF ev.op \in {"al", "af", "rf", "rl"} /\ ev.k = 0 THEN Moved(S, ev)
  ELSE [Moved(S, ev) EXCEPT !.seen = <<>>]
=============================================================================
