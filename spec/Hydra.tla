------------------------------- MODULE Hydra -------------------------------
(* The hydra deques, at the level of their public API: one sequence of      *)
(* <<entry, value>> for each list id, over entries that are recycled.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == [l |-> <<>>, free |-> {}, nxt |-> 0]
Range(f) == {f[x] : x \in DOMAIN f}
Max2(a, b) == IF a > b THEN a ELSE b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)

List(S, id) == IF id \in DOMAIN S.l THEN S.l[id] ELSE <<>>
Vals(S, id) == LET q == List(S, id) IN [i \in DOMAIN q |-> q[i][2]]
Rev(q) == [i \in DOMAIN q |-> q[Len(q) + 1 - i]]
RECURSIVE Total(_, _)
Total(S, ids) == IF ids = {} THEN 0
                 ELSE LET i == CHOOSE i \in ids : TRUE IN Len(S.l[i]) + Total(S, ids \ {i})
Count(S) == Total(S, DOMAIN S.l)
Held(S) == UNION {{S.l[i][k][1] : k \in DOMAIN S.l[i]} : i \in DOMAIN S.l}
AllVals(S) == UNION {{S.l[i][k][2] : k \in DOMAIN S.l[i]} : i \in DOMAIN S.l}

\* a traversal whose consumer throws when it is given one more than th
CutShort(ev, q) == IF ev.th < Len(q) THEN ev.x = "BOOM" /\ ev.l = SubSeq(q, 1, ev.th + 1) ELSE ev.x = "ok" /\ ev.l = q
Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op \in {"af", "al"} ->
         J({"P13"}, /\ ev.x = "ok"
                    /\ ev.e \notin Held(S)
                    /\ IF S.free # {} THEN ev.e \in S.free ELSE ev.e = S.nxt)
    [] ev.op = "clr" -> J({"P13"}, ev.x = "ok")
    [] ev.op = "rf" ->
         J({"P13"}, IF List(S, ev.id) = <<>> THEN ev.x = "NSE" ELSE ev.x = "ok" /\ ev.v = Head(Vals(S, ev.id)))
    [] ev.op = "rl" ->
         J({"P13"}, IF List(S, ev.id) = <<>> THEN ev.x = "NSE" ELSE ev.x = "ok" /\ ev.v = Last(Vals(S, ev.id)))
    [] ev.op = "itf" -> J({"P13"}, ev.x = "IEE" /\ ev.l = Vals(S, ev.id))
    [] ev.op = "itr" -> J({"P13"}, ev.x = "IEE" /\ ev.l = Rev(Vals(S, ev.id)))
    [] ev.op = "obs" ->
         J({"P13"}, /\ ev.x = "ok"
                    /\ ev.n = Count(S) /\ ev.b = (ev.n = 0)
                    /\ \A i \in DOMAIN ev.sz : ev.sz[i] = Len(List(S, i - 2))
                    /\ \A i \in DOMAIN ev.f : ev.f[i] = Vals(S, i - 1) /\ ev.r[i] = Rev(Vals(S, i - 1)))
    [] ev.op = "fex" -> J({"P13"}, CutShort(ev, IF ev.fwd THEN Vals(S, ev.id) ELSE Rev(Vals(S, ev.id))))
    [] ev.op = "reach" -> J({"P28"}, Range(ev.vs) \subseteq AllVals(S))
    [] OTHER -> FALSE

With(S, id, q) == [S EXCEPT !.l = (id :> q) @@ S.l]
Nxt(S, ev) ==
  CASE ev.op \in {"new", "clr"} -> Init0
    [] ev.op \in {"af", "al"} /\ ev.x = "ok" ->
         LET q == List(S, ev.id)
             T == With(S, ev.id, IF ev.op = "af" THEN <<<<ev.e, ev.v>>>> \o q ELSE Append(q, <<ev.e, ev.v>>))
         IN [T EXCEPT !.free = S.free \ {ev.e}, !.nxt = Max2(S.nxt, ev.e + 1)]
    [] ev.op = "rf" /\ List(S, ev.id) # <<>> ->
         [With(S, ev.id, Tail(List(S, ev.id))) EXCEPT !.free = @ \cup {Head(List(S, ev.id))[1]}]
    [] ev.op = "rl" /\ List(S, ev.id) # <<>> ->
         [With(S, ev.id, Front(List(S, ev.id))) EXCEPT !.free = @ \cup {Last(List(S, ev.id))[1]}]
    [] OTHER -> S
Sound(S) == /\ Held(S) \cap S.free = {} /\ Held(S) \cup S.free = 0..(S.nxt - 1)
            /\ Cardinality(Held(S)) = Count(S)

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) == ev.op = "fex" \/ (ev.op \in {"rf", "rl"} /\ List(S, ev.id) = <<>>)
=============================================================================
