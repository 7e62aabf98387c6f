------------------------------ MODULE SpaceImpl -----------------------------
(* Storage as the collections keep it: arrays that double when the next entry  *)
(* does not fit, entries that are released to a free list and taken from there *)
(* first, clear starting again.  What it takes is within what Space allows,    *)
(* and never above twice the room: a leak is a matter of time.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Judge, Most, Caps, Loads, Leak
VARIABLES S, used, free, nxt, cap, ev
vars == <<S, used, free, nxt, cap, ev>>
A == INSTANCE Space
View == <<S, used, free, nxt, cap>>

RECURSIVE Pow2(_)
Pow2(n) == IF n <= 1 THEN 1 ELSE 2 * Pow2((n + 1) \div 2)
Ev(op, n, k, c) == [op |-> op, n |-> n, k |-> k, sp |-> 5 * c]
Step(e) == ev' = e /\ S' = A!Nxt(S, e)

Init == \E c \in Caps, l \in Loads :
          /\ cap = Pow2(c) /\ used = {} /\ free = {} /\ nxt = 0
          /\ ev = [op |-> "new", kind |-> "set", cap |-> c, lf |-> l, w |-> 0, sp |-> 5 * Pow2(c)]
          /\ S = A!Nxt(A!Init0, ev)
Add == /\ Cardinality(used) < Most
       /\ LET e == IF free # {} THEN CHOOSE x \in free : TRUE ELSE nxt
              grown == IF (e + 1) * 1000 > cap * S.lf THEN 2 * cap ELSE cap
          IN /\ used' = used \cup {e} /\ free' = free \ {e}
             /\ nxt' = IF e = nxt THEN nxt + 1 ELSE nxt
             /\ cap' = grown /\ Step(Ev("add", 1, 0, grown))
Rem == \E e \in used :
         /\ used' = used \ {e} /\ free' = IF Leak THEN free ELSE free \cup {e}
         /\ UNCHANGED <<nxt, cap>> /\ Step(Ev("rem", 1, 0, cap))
Clr == used' = {} /\ free' = {} /\ nxt' = 0 /\ UNCHANGED cap /\ Step(Ev("clr", 0, 0, cap))
Next == Add \/ Rem \/ Clr
Spec == Init /\ [][Next]_vars

Dense == used \cap free = {} /\ used \cup free = 0..(nxt - 1) /\ nxt <= S.peak /\ S.held = Cardinality(used)
\* within twice the rounded first capacity, and twice the room of the elements
Twice == cap <= A!Max2(2 * S.cap, 2 * ((S.peak * 1000) \div S.lf + 1))
Fits == ev.sp <= A!Allowed(S)
=============================================================================
