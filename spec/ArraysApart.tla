---- MODULE ArraysApart ----
(* Pairs of runs of the real classes with the same calls, one with nothing  *)
(* else going on, the other (tw) in company: all of the history happens     *)
(* again on other objects between two calls and within a callback, and      *)
(* other histories go on in other threads.  Company must not make a         *)
(* difference to what Arrays allows. *)
EXTENDS Arrays, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, A, C, off   \* alone, in company; off: both runs went wrong at the same call
vars == <<i, A, C, off>>
Bare(e) == [f \in DOMAIN e \ {"tw"} |-> e[f]]
Fine(S, e) == e.op \notin {"missing", "hang", "crash"} /\ Ok(S, e) = TRUE

TInit == i = 1 /\ A = Init0 /\ C = Init0 /\ off = FALSE
TNext == /\ i <= Len(Trace)
         /\ LET a == Bare(Trace[i])
                c == Trace[i].tw
                on == ~off \/ (a.op = "new")
                fa == on /\ Fine(A, a)
                fc == on /\ Fine(C, c) IN
            /\ fa = fc
            /\ off' = ~fa
            /\ A' = IF fa THEN Nxt(A, a) ELSE A
            /\ C' = IF fc THEN Nxt(C, c) ELSE C
         /\ i' = i + 1
TSpec == TInit /\ [][TNext]_vars

Accepted == LET d == TLCGet("stats").diameter IN
            IF d = Len(Trace) + 1 THEN PrintT(<<"ACCEPTED", d - 1>>)
            ELSE PrintT(<<"REJECTED", d>>) /\ FALSE
====
