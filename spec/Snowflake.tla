----------------------------- MODULE Snowflake ------------------------------
(* An id generator: what the ids tell apart and carry, whatever the clock    *)
(* shows and however calls overlap. Milliseconds, ids and clock readings are *)
(* words of bytes, as in Numeric.                                           *)
EXTENDS Numeric, TLC
CONSTANTS Judge, MaxSeq, MaxNode
J(ps, cond) == (ps \cap Judge # {}) => cond

\* 18 Feb 2023 14:40 UTC, before which there are no ids; 0 in models
Epoch == IF BITS = 8 THEN <<0, 0, 1, 134, 100, 247, 178, 0>> ELSE Zeros(3)

Init0 == [has |-> FALSE, ts |-> <<>>, seq |-> 0, id |-> <<>>, node |-> -1, nodes |-> <<>>, late |-> 0]
Name(S, s) == IF \E i \in DOMAIN S.nodes : S.nodes[i].s = s
              THEN S.nodes[CHOOSE i \in DOMAIN S.nodes : S.nodes[i].s = s].n ELSE -1
Put(S, s, n) == IF Name(S, s) = -1 THEN Append(S.nodes, [s |-> s, n |-> n]) ELSE S.nodes

\* can a reading of the clock give an id?
Usable(S, r) == CmpS(r, Epoch) >= 0 /\ (~S.has \/ CmpS(r, S.ts) > 0 \/ (r = S.ts /\ S.seq < MaxSeq))
Behind(S, r) == CmpS(r, Epoch) < 0 \/ (S.has /\ CmpS(r, S.ts) < 0)
Has(rs, v) == \E i \in DOMAIN rs : rs[i] = v
Later(S, ev) == /\ ~Neg(ev.id)
                /\ S.has => CmpS(ev.id, S.id) > 0
InTime(S, ev) == S.has => CmpS(ev.ts, S.ts) > 0 \/ (ev.ts = S.ts /\ S.seq < MaxSeq)
\* n calls in a row got ids of one millisecond with sequence numbers counting up
Carries(S, ev) == /\ Has(ev.rs, ev.ts)
                  /\ ev.node = S.node
                  /\ ev.seq = IF S.has /\ ev.ts = S.ts THEN S.seq + 1 ELSE 0
                  /\ ev.seq + ev.n - 1 <= MaxSeq

Ok(S, ev) ==
  CASE ev.op = "new" ->
         J({"P26"}, ev.x = "ok" /\ ev.node \in 0..MaxNode /\ Name(S, ev.s) \in {-1, ev.node})
    [] ev.op = "next" ->
         IF ev.x = "ok" THEN J({"P25"}, Later(S, ev) /\ InTime(S, ev)) /\ J({"P26"}, Carries(S, ev))
         ELSE IF ev.x = "ISE" THEN J({"P25"}, \E i \in DOMAIN ev.rs : Behind(S, ev.rs[i]))
         \* the clock gave no further reading, so the call had no chance if it waited
         ELSE J({"P25"}, ev.x = "stuck" /\ \A i \in DOMAIN ev.rs : ~Usable(S, ev.rs[i]))
    \* concurrent calls, by increasing id; they started at s at the latest, and ended at e at the earliest
    [] ev.op = "got" -> J({"P25"}, Later(S, ev) /\ InTime(S, ev) /\ ev.e > S.late) /\ J({"P26"}, Carries(S, ev))
    [] ev.op = "refused" -> J({"P25"}, ev.x = "ISE" /\ \E i \in DOMAIN ev.rs : Behind(S, ev.rs[i]))
    \* the name supplier and the clock are asked for, and null is no clock
    [] ev.op = "null" -> J({"P26"}, ev.x # "ok")
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op = "new" -> [Init0 EXCEPT !.node = ev.node, !.nodes = Put(S, ev.s, ev.node)]
    [] ev.op \in {"next", "got"} /\ ev.x = "ok" ->
         [S EXCEPT !.has = TRUE, !.ts = ev.ts, !.seq = ev.seq + ev.n - 1, !.id = ev.last,
                   !.late = IF ev.op = "got" /\ ev.s > @ THEN ev.s ELSE @]
    [] OTHER -> S
=============================================================================
