---- MODULE HeapTwin ----
(* Pairs of runs of the real classes that differ only in calls that were    *)
(* refused or had nothing to do.  The specification decides whether a call  *)
(* that was left out of the second run was such a call (Idle); everything   *)
(* else must have been the same in both runs, as recorded in tw.            *)
EXTENDS Heap, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, S, off   \* off: the runs differ in more than idle calls, no verdict
vars == <<i, S, off>>
Bare(e) == [f \in DOMAIN e \ {"tw"} |-> e[f]]
LeftOut(e) == "tw" \notin DOMAIN e

TInit == i = 1 /\ S = Init0 /\ off = FALSE
TNext == /\ i <= Len(Trace)
         /\ LET e == Trace[i] IN
            /\ off' = (IF e.op = "new" THEN FALSE
                       ELSE (off \/ (IF LeftOut(e) THEN ~Idle(S, e) ELSE ~Ok(S, e))))
            /\ (IF off \/ LeftOut(e) \/ e.op = "hang" THEN TRUE ELSE Bare(e) = e.tw)
            /\ S' = IF off' THEN S ELSE Nxt(S, e)
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_vars

Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", d - 1>>)
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
====
