--------------------------- MODULE SnowflakeImpl ----------------------------
(* The generator as implemented: a last millisecond and a sequence, behind a *)
(* lock that a call holds also while it waits for the clock. Each access to  *)
(* the shared fields is a step, the clock shows anything at every reading,   *)
(* or fails. Without Locked, calls interleave and the properties fail.       *)
EXTENDS Snowflake, TLCExt
CONSTANTS T, MaxT, Calls, Locked, Emit
VARIABLES lock, last, seq, pc, loc, n, abs, ev, tok
vars == <<lock, last, seq, pc, loc, n, abs, ev, tok>>
View == <<lock, last, seq, pc, loc, n, abs>>

Threads == 1..T
Free == 0
L0 == [t |-> -2, s |-> 0, floor |-> -1, rs |-> <<>>]
W(x) == ToBytes(x % (Base ^ 3), 3)     \* a millisecond, or an id, as a word
IdOf(t, s) == t * (MaxSeq + 1) + s
ValOf(w) == (w[1] * Base + w[2]) * Base + w[3]
Silent == [op |-> "none"]

Init == /\ lock = Free /\ last = -1 /\ seq = 0 /\ n = 0
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> L0]
        /\ abs = [Init0 EXCEPT !.node = 0] /\ ev = Silent /\ tok = <<>>
Goto(t, p, l) == pc' = [pc EXCEPT ![t] = p] /\ loc' = [loc EXCEPT ![t] = l]
Quiet == ev' = Silent /\ abs' = abs /\ tok' = <<"-">>
Keep == UNCHANGED <<last, seq>>

Call(t) == /\ pc[t] = "idle" /\ n < Calls
           /\ Goto(t, "enter", [L0 EXCEPT !.floor = IF abs.has THEN ValOf(abs.id) ELSE -1])
           /\ n' = n + 1 /\ Keep /\ UNCHANGED lock /\ Quiet
Enter(t) == /\ pc[t] = "enter" /\ (~Locked \/ lock = Free)
            /\ lock' = IF Locked THEN t ELSE lock
            /\ Goto(t, "read", loc[t]) /\ Keep /\ n' = n /\ Quiet
\* the clock can run backwards, stand still, and jump
Read(t) == /\ pc[t] \in {"read", "spin"} /\ UNCHANGED lock /\ n' = n /\ Keep /\ Quiet
           /\ \E r \in -1..MaxT :
                LET l == [loc[t] EXCEPT !.rs = IF Len(@) > 1 /\ @[Len(@)] = W(r) THEN @ ELSE Append(@, W(r)), !.t = r]
                IN IF pc[t] = "read" THEN Goto(t, "compare", l)
                   ELSE IF r <= last THEN r # last /\ Len(l.rs) < 4 /\ Goto(t, "spin", l)
                   ELSE Goto(t, "store", [l EXCEPT !.s = 0])
Done(t, e, w) == /\ Goto(t, "idle", L0) /\ lock' = (IF Locked THEN Free ELSE lock) /\ n' = n
                 /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = w
Readings(t) == [i \in DOMAIN loc[t].rs |-> LET v == ValOf(loc[t].rs[i]) IN IF v > MaxT THEN -1 ELSE v]
Fails(t) == /\ pc[t] \in {"read", "spin"} /\ Keep
            /\ Done(t, [op |-> "next", x |-> "stuck", rs |-> loc[t].rs], <<"next">> \o Readings(t))
Compare(t) == /\ pc[t] = "compare" /\ UNCHANGED last
              /\ IF loc[t].t < last \/ loc[t].t < 0
                 THEN Done(t, [op |-> "next", x |-> "ISE", rs |-> loc[t].rs], <<"next">> \o Readings(t)) /\ UNCHANGED seq
                 ELSE /\ UNCHANGED <<lock, seq>> /\ n' = n /\ Quiet
                      /\ Goto(t, IF loc[t].t = last THEN "bump" ELSE "store", [loc[t] EXCEPT !.s = 0])
Bump(t) == /\ pc[t] = "bump" /\ UNCHANGED <<lock, last, seq>> /\ n' = n /\ Quiet
           /\ IF seq = MaxSeq THEN Goto(t, "spin", loc[t]) ELSE Goto(t, "store", [loc[t] EXCEPT !.s = seq + 1])
Store(t) == /\ pc[t] = "store" /\ last' = loc[t].t /\ seq' = loc[t].s
            /\ LET id == W(IdOf(loc[t].t, loc[t].s))
               IN Done(t, [op |-> "next", x |-> "ok", rs |-> loc[t].rs, ts |-> W(loc[t].t), seq |-> loc[t].s, n |-> 1,
                           node |-> 0, id |-> id, last |-> id],
                       <<"next">> \o Readings(t))
Next == \E t \in Threads : Call(t) \/ Enter(t) \/ Read(t) \/ Fails(t) \/ Compare(t) \/ Bump(t) \/ Store(t)
Spec == Init /\ [][Next]_vars

\* the calls take effect one by one, in some order within each call
Refines == [][ev'.op = "next" => Ok(abs, ev')]_vars
\* an id returned before a call started is smaller than the one it gets
RealTime == \A t \in Threads : (pc[t] = "store" /\ Locked) => IdOf(loc[t].t, loc[t].s) > loc[t].floor
Structure == /\ seq \in 0..MaxSeq
             /\ (lock = Free /\ Locked) => \A t \in Threads : pc[t] \in {"idle", "enter"}
             /\ abs.has => (lock # Free \/ (abs.ts = W(last) /\ abs.seq = seq))
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
