------------------------------- MODULE Deque -------------------------------
(* The deques, at the level of their public API: a sequence of at most Most  *)
(* elements (the ring cannot double any further).                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Judge, Most
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == <<>>
Range(f) == {f[x] : x \in DOMAIN f}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

\* a traversal whose consumer throws when it is given one more than th
CutShort(ev, q) == IF ev.th < Len(q) THEN ev.x = "BOOM" /\ ev.l = SubSeq(q, 1, ev.th + 1) ELSE ev.x = "ok" /\ ev.l = q
Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op \in {"af", "al"} -> J({"P12"}, ev.x = IF Len(S) >= Most THEN "RESIZE" ELSE "ok")
    [] ev.op = "clr" -> J({"P12"}, ev.x = "ok")
    [] ev.op \in {"rf", "pf"} ->
         J({"P12"}, IF S = <<>> THEN ev.x = "NSE" ELSE ev.x = "ok" /\ ev.v = Head(S))
    [] ev.op \in {"rl", "pl"} ->
         J({"P12"}, IF S = <<>> THEN ev.x = "NSE" ELSE ev.x = "ok" /\ ev.v = Last(S))
    [] ev.op = "obs" ->
         J({"P12"}, ev.x = "ok" /\ ev.n = Len(S) /\ ev.b = (S = <<>>) /\ ev.l = S)
    [] ev.op = "fex" -> J({"P12"}, CutShort(ev, S))
    [] ev.op = "reach" -> J({"P28"}, Range(ev.vs) \subseteq Range(S))
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op \in {"new", "clr"} -> <<>>
    [] ev.op = "af" /\ ev.x = "ok" -> <<ev.v>> \o S
    [] ev.op = "al" /\ ev.x = "ok" -> Append(S, ev.v)
    [] ev.op = "rf" /\ S # <<>> -> Tail(S)
    [] ev.op = "rl" /\ S # <<>> -> Front(S)
    [] OTHER -> S

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) == \/ ev.op = "fex"
               \/ ev.op \in {"af", "al"} /\ Len(S) >= Most
               \/ ev.op \in {"rf", "rl", "pf", "pl"} /\ S = <<>>
=============================================================================
