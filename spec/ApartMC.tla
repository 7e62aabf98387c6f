---- MODULE ApartMC ----
(* Why company makes no difference: several objects, each used by one       *)
(* thread, with operations in many steps (a traversal, a sort) that call    *)
(* back, so that operations on the same or on other objects begin and end   *)
(* in the middle of them.  Scratch says where an operation in progress      *)
(* keeps what it needs to go on: a place of its own, or one of the object,  *)
(* of the thread, or of the class.  Only the first is right.                *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Objs, Threads, MaxLen, Depth, Scratch
VARIABLES cont,   \* object -> what it holds
          stk,    \* thread -> the operations in progress, the innermost last
          cur,    \* place -> how far the operation has come that used it last
          done    \* the last operation that ended: what it held, what was delivered
vars == <<cont, stk, cur, done>>

Owner(o) == IF o \in Threads THEN o ELSE 1
Place(o, t, d) == CASE Scratch = "own" -> <<t, d>>
                    [] Scratch = "object" -> <<"o", o>>
                    [] Scratch = "thread" -> <<"t", t>>
                    [] OTHER -> <<"class">>
Places == {Place(o, t, d) : o \in Objs, t \in Threads, d \in 1..Depth}
Open(o) == \E t \in Threads : \E d \in DOMAIN stk[t] : stk[t][d].o = o

Init == /\ cont = [o \in Objs |-> <<>>]
        /\ stk = [t \in Threads |-> <<>>]
        /\ cur = [p \in Places |-> 0]
        /\ done = [held |-> <<>>, got |-> <<>>]

Add(o) == /\ ~Open(o) /\ Len(cont[o]) < MaxLen
          /\ cont' = [cont EXCEPT ![o] = Append(@, 10 * o + Len(@))]
          /\ UNCHANGED <<stk, cur, done>>
Begin(t, o) == /\ Owner(o) = t /\ Len(stk[t]) < Depth
               /\ stk' = [stk EXCEPT ![t] = Append(@, [o |-> o, got |-> <<>>])]
               /\ cur' = [cur EXCEPT ![Place(o, t, Len(stk[t]) + 1)] = 0]
               /\ UNCHANGED <<cont, done>>
Step(t) == /\ stk[t] # <<>>
           /\ LET d == Len(stk[t])
                  f == stk[t][d]
                  p == Place(f.o, t, d) IN
              IF cur[p] < Len(cont[f.o])
              THEN /\ Len(f.got) <= MaxLen  \* one too many is enough to see
                   /\ stk' = [stk EXCEPT ![t][d].got = Append(@, cont[f.o][cur[p] + 1])]
                   /\ cur' = [cur EXCEPT ![p] = @ + 1]
                   /\ UNCHANGED <<cont, done>>
              ELSE /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, d - 1)]
                   /\ done' = [held |-> cont[f.o], got |-> f.got]
                   /\ UNCHANGED <<cont, cur>>
Next == (\E o \in Objs : Add(o)) \/ (\E t \in Threads : Step(t) \/ \E o \in Objs : Begin(t, o))
Spec == Init /\ [][Next]_vars

Right == done.got = done.held
Prefix == \A t \in Threads : \A d \in DOMAIN stk[t] :
             stk[t][d].got = SubSeq(cont[stk[t][d].o], 1, Len(stk[t][d].got))
====
