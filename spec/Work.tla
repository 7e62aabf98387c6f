-------------------------------- MODULE Work --------------------------------
(* How much the calls of a heap and of a hash collection do, step by step:     *)
(* what Bulk allows (Steps, and the share of a place) is never less than what  *)
(* a heap kept as a complete binary tree, or a table of power-of-two size with *)
(* no more keys than places, ever needs.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Judge, N, Caps
B == INSTANCE Bulk

\* a heap of n nodes: the key at node climbs, and then descends; w comparisons so far
\* a table: cap places, the keys are the runs a..a+l-1 and b..b+m-1, with n keys in all
VARIABLES kind, n, node, dir, w, cap
vars == <<kind, n, node, dir, w, cap>>

HInit == kind = "heap" /\ n \in 1..N /\ node \in 0..(n - 1) /\ dir = "up" /\ w = 1 /\ cap = 0
Up == /\ kind = "heap" /\ dir = "up"
      /\ \/ node > 0 /\ node' = (node - 1) \div 2 /\ dir' = "up" /\ w' = w + 1
         \/ node > 0 /\ node' = node /\ dir' = "down" /\ w' = w + 1
         \/ node = 0 /\ node' = node /\ dir' = "down" /\ w' = w
      /\ UNCHANGED <<kind, n, cap>>
Down == /\ kind = "heap" /\ dir = "down"
        /\ \E c \in {2 * node + 1, 2 * node + 2} : c < n /\ node' = c
        /\ w' = w + 2
        /\ UNCHANGED <<kind, n, dir, cap>>

\* a place p of the table holds the keys that are p modulo cap: runs of keys, node of them, are added
TInit == kind = "table" /\ n = 0 /\ node = 0 /\ dir = "run" /\ w = 0 /\ cap \in Caps
Run == /\ kind = "table" /\ node < 3
       /\ \E l \in 1..(cap - n) : /\ n' = n + l
                                  /\ \E share \in {l \div cap, (l + cap - 1) \div cap} : w' = w + share
       /\ node' = node + 1
       /\ UNCHANGED <<kind, dir, cap>>

Init == HInit \/ TInit
Next == Up \/ Down \/ Run
Spec == Init /\ [][Next]_vars
View == vars

Enough == IF kind = "heap" THEN w <= B!Steps(n) ELSE w <= node   \* of the runs and one more, searched twice: within 2 * (runs + 2)
\* the share of a place is that of the keys themselves
ASSUME \A c \in Caps : \A l \in 1..(2 * c), a \in 0..c : \A p \in 0..(c - 1) :
         Cardinality({k \in a..(a + l - 1) : k % c = p}) \in {l \div c, (l + c - 1) \div c}
\* less than linear, from a few dozen keys on
ASSUME \A k \in 64..(10 * N + 64) : B!Steps(k) < k
=============================================================================
