-------------------------------- MODULE Joined --------------------------------
(* Collections joined through their entries, the way the examples do it: the  *)
(* keys of a map (lefts) and of a set (rights) become entries; a relation     *)
(* associates the entries, waiting lists and a column of values are indexed   *)
(* by them, and a heap holds what is due for them.  Whoever asks in terms of  *)
(* keys gets the answers of plain sets and functions, although entries are    *)
(* reserved, released and given to other keys all the time.                   *)
(* JoinedImpl shows that this follows from the contracts of the parts.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Judge
J(cond) == ("P33" \in Judge) => cond

\* lv: left key -> value; rs: right keys; prs: pairs; at: right key -> value of the column;
\* q: left key -> right keys waiting; due: right key -> time
Init0 == [m2m |-> TRUE, lv |-> <<>>, rs |-> {}, prs |-> {}, at |-> <<>>, q |-> <<>>, due |-> <<>>]
Range(f) == {f[x] : x \in DOMAIN f}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Lists(l, set) == Len(l) = Cardinality(set) /\ Range(l) = set
OfL(S, l) == {p[2] : p \in {x \in S.prs : x[1] = l}}
OfR(S, r) == {p[1] : p \in {x \in S.prs : x[2] = r}}
Has(S, ev) == ev.l \in DOMAIN S.lv
\* a right key that may be new
Known(S, r) == IF r \in S.rs THEN S ELSE [S EXCEPT !.rs = @ \cup {r}, !.at = (r :> 0) @@ @]
Due(S, t) == {r \in DOMAIN S.due : S.due[r] <= t}

Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op = "reg" -> J(ev.x = "ok")
    [] ev.op = "enr" -> J(ev.x = "ok" /\ ev.b = Has(S, ev) /\ (ev.b => ev.g = (<<ev.l, ev.r>> \notin S.prs)))
    [] ev.op = "drp" -> J(ev.x = "ok" /\ ev.b = (<<ev.l, ev.r>> \in S.prs))
    [] ev.op = "cls" ->   \* the name and value of what is closed, read after it is gone, and who was in it
         J(/\ ev.x = "ok" /\ ev.b = Has(S, ev)
           /\ ev.b => ev.k = ev.l /\ ev.v = S.lv[ev.l] /\ Lists(ev.p, OfL(S, ev.l)))
    [] ev.op = "lve" -> J(ev.x = "ok" /\ ev.b = (ev.r \in S.rs) /\ (ev.b => Lists(ev.p, OfR(S, ev.r))))
    [] ev.op = "wt" -> J(ev.x = "ok" /\ ev.b = Has(S, ev))
    [] ev.op = "adm" ->
         J(/\ ev.x = "ok" /\ ev.b = (Has(S, ev) /\ S.q[ev.l] # <<>>)
           /\ ev.b => ev.r = Head(S.q[ev.l]))
    [] ev.op = "set" -> J(ev.x = "ok" /\ ev.b = (ev.r \in S.rs))
    [] ev.op = "sch" -> J(ev.x = "ok" /\ ev.b = (ev.r \in S.rs))
    [] ev.op = "can" -> J(ev.x = "ok" /\ ev.b = (ev.r \in DOMAIN S.due))
    [] ev.op = "exp" ->   \* what is due, in the order of time
         J(/\ ev.x = "ok" /\ Lists(ev.p, Due(S, ev.t)) /\ Len(ev.ts) = Len(ev.p)
           /\ \A i \in DOMAIN ev.p : ev.ts[i] = S.due[ev.p[i]] /\ (i > 1 => ev.ts[i - 1] <= ev.ts[i]))
    [] ev.op = "obs" ->
         J(/\ ev.x = "ok"
           /\ ev.nl = Cardinality(DOMAIN S.lv) /\ ev.nr = Cardinality(S.rs)
           /\ ev.np = Cardinality(S.prs) /\ ev.nd = Cardinality(DOMAIN S.due)
           /\ Len(ev.all) = Cardinality(S.prs) /\ Range(ev.all) = S.prs
           /\ \A i \in DOMAIN ev.lv : LET l == i - 1 IN
                IF l \in DOMAIN S.lv
                THEN ev.lv[i] = S.lv[l] /\ Lists(ev.pl[i], OfL(S, l)) /\ ev.cl[i] = Len(ev.pl[i]) /\ ev.ql[i] = S.q[l]
                ELSE ev.lv[i] = -1
           /\ \A i \in DOMAIN ev.at : LET r == i - 1 IN
                IF r \in S.rs
                THEN /\ ev.at[i] = S.at[r]
                     /\ ev.du[i] = IF r \in DOMAIN S.due THEN S.due[r] ELSE -1
                     /\ S.m2m => Lists(ev.pr[i], OfR(S, r)) /\ ev.cr[i] = Len(ev.pr[i])
                ELSE ev.at[i] = -1)
    [] OTHER -> FALSE

Without(S, ps) == [S EXCEPT !.prs = @ \ ps]
Nxt(S, ev) ==
  CASE ev.op = "new" -> [Init0 EXCEPT !.m2m = ev.m2m]
    [] ev.op = "reg" -> [S EXCEPT !.lv = (ev.l :> ev.v) @@ @, !.q = IF Has(S, ev) THEN @ ELSE (ev.l :> <<>>) @@ @]
    [] ev.op = "enr" -> IF Has(S, ev) THEN [Known(S, ev.r) EXCEPT !.prs = @ \cup {<<ev.l, ev.r>>}] ELSE S
    [] ev.op = "drp" -> Without(S, {<<ev.l, ev.r>>})
    [] ev.op = "cls" -> [Without(S, {p \in S.prs : p[1] = ev.l}) EXCEPT !.lv = Drop(@, ev.l), !.q = Drop(@, ev.l)]
    [] ev.op = "lve" -> [Without(S, {p \in S.prs : p[2] = ev.r})
                           EXCEPT !.rs = @ \ {ev.r}, !.at = Drop(@, ev.r), !.due = Drop(@, ev.r),
                                  !.q = [l \in DOMAIN @ |-> SelectSeq(@[l], LAMBDA r : r # ev.r)]]
    [] ev.op = "wt" -> IF Has(S, ev) THEN [Known(S, ev.r) EXCEPT !.q[ev.l] = Append(@, ev.r)] ELSE S
    [] ev.op = "adm" -> IF Has(S, ev) /\ S.q[ev.l] # <<>>
                        THEN [S EXCEPT !.prs = @ \cup {<<ev.l, Head(S.q[ev.l])>>}, !.q[ev.l] = Tail(@)] ELSE S
    [] ev.op = "set" -> IF ev.r \in S.rs THEN [S EXCEPT !.at[ev.r] = ev.v] ELSE S
    [] ev.op = "sch" -> IF ev.r \in S.rs THEN [S EXCEPT !.due = (ev.r :> ev.t) @@ @] ELSE S
    [] ev.op = "can" -> [S EXCEPT !.due = Drop(@, ev.r)]
    [] ev.op = "exp" -> [S EXCEPT !.due = [r \in DOMAIN @ \ Due(S, ev.t) |-> @[r]]]
    [] OTHER -> S
=============================================================================
