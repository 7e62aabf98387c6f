------------------------------- MODULE Vector -------------------------------
(* The vectors, at the level of their public API: an append-only sequence. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == <<>>
Range(f) == {f[x] : x \in DOMAIN f}

\* a traversal whose consumer throws when it is given one more than th
CutShort(ev, q) == IF ev.th < Len(q) THEN ev.x = "BOOM" /\ ev.l = SubSeq(q, 1, ev.th + 1) ELSE ev.x = "ok" /\ ev.l = q
Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op \in {"app", "ens", "clr"} -> J({"P14"}, ev.x = "ok")
    [] ev.op = "obs" ->
         J({"P14"}, /\ ev.x = "ok" /\ ev.n = Len(S) /\ ev.b = (S = <<>>) /\ ev.l = S
                    /\ \A i \in DOMAIN ev.va : ev.va[i] = S[i])
    [] ev.op = "fex" -> J({"P14"}, CutShort(ev, S))
    [] ev.op = "reach" -> J({"P28"}, Range(ev.vs) \subseteq Range(S))
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op \in {"new", "clr"} -> <<>>
    [] ev.op = "app" /\ ev.x = "ok" -> Append(S, ev.v)
    [] OTHER -> S

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) == ev.op = "fex" \/ (ev.op = "ens" /\ ev.n <= Len(S))
=============================================================================
