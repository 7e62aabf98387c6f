------------------------------ MODULE BulkLists ------------------------------
(* The answers to the calls for a range of keys, one by one, and as pieces.   *)
EXTENDS Integers, Sequences
CONSTANTS K, E

\* the pieces of a list of answers [k, y, g], as the harness makes them
After(p, kd) == p.k + kd * p.n
RECURSIVE Pieces(_, _, _, _)
Pieces(l, kd, m, out) ==
  IF l = <<>> THEN out
  ELSE LET h == Head(l)
           n == Len(out)
           p == out[n]
           z == IF m = 0 THEN h.y - (p.y + p.d * (p.n - 1))
                ELSE LET x == (h.y - (p.y + p.d * (p.n - 1))) % m IN IF m > 2 /\ x = m - 1 THEN -1 ELSE x
       IN IF n > 0 /\ h.g = p.g /\ h.k = After(p, kd) /\ z \in -1..1 /\ (p.n = 1 \/ z = p.d)
          THEN Pieces(Tail(l), kd, m, [out EXCEPT ![n] = [@ EXCEPT !.n = p.n + 1, !.d = z]])
          ELSE Pieces(Tail(l), kd, m, Append(out, [k |-> h.k, n |-> 1, y |-> h.y, d |-> 0, g |-> h.g]))
Strip(ps) == [i \in DOMAIN ps |-> [k |-> ps[i].k, n |-> ps[i].n, y |-> ps[i].y, d |-> ps[i].d]]
RECURSIVE Intervals(_)
Intervals(s) == IF s = {} THEN <<>>
                ELSE LET a == CHOOSE x \in s : \A y \in s : x <= y
                         e == CHOOSE x \in s : (\A y \in a..x : y \in s) /\ x + 1 \notin s
                     IN <<[a |-> a, b |-> e]>> \o Intervals(s \ (a..e))
Keys(lo, n, dk) == [i \in 1..n |-> lo + dk * (i - 1)]

Lists(lo, n, dk) == {[i \in 1..n |-> [k |-> lo + dk * (i - 1), y |-> f[i], g |-> h[i]]] :
                        f \in [1..n -> -1..E], h \in [1..n -> BOOLEAN]}
Spans == {<<lo, n, dk>> \in (0..(K - 1)) \X (1..K) \X {1, -1} : lo + dk * (n - 1) \in 0..(K - 1)}
=============================================================================
