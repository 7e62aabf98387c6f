---- MODULE HeapTrace ----
(* Is a trace recorded from the real classes a behaviour of Heap? *)
EXTENDS Heap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S
vars == <<i, S>>

TInit == i = 1 /\ S = Init0
TNext == /\ i <= Len(Trace)
         /\ Ok(S, Trace[i]) = TRUE
         /\ S' = Nxt(S, Trace[i])
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_vars

Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", d - 1>>)
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
====
