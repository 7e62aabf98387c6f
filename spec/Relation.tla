------------------------------ MODULE Relation ------------------------------
(* The compact one-to-many and many-to-many relations, at the level of      *)
(* their public API: a set of pairs, each with an entry, seen from two      *)
(* sides.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

\* ent: pair -> entry, of the present pairs; pr: entry -> pair, of present and
\* reserved entries; rsv: reserved entries; nxt: every entry below was issued
Init0 == [m2m |-> FALSE, cnt |-> TRUE, ent |-> <<>>, pr |-> <<>>, rsv |-> {}]
Range(f) == {f[x] : x \in DOMAIN f}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Lists(l, set) == Len(l) = Cardinality(set) /\ Range(l) = set

Live(S) == Range(S.ent)
Held(S) == DOMAIN S.pr
Has(S, p) == p \in DOMAIN S.ent
OfLeft(S, k) == {p \in DOMAIN S.ent : p[1] = k}
OfRight(S, k) == {p \in DOMAIN S.ent : p[2] = k}
Partners(S, left, k) == IF left THEN {p[2] : p \in OfLeft(S, k)} ELSE {p[1] : p \in OfRight(S, k)}
Entries(S, left, k) == {S.ent[p] : p \in IF left THEN OfLeft(S, k) ELSE OfRight(S, k)}
Number(S, left, k) == Cardinality(Partners(S, left, k))

\* lists of values, lists of entries and counts, of the keys 0, 1, 2, ...
SideOk(S, left, v, e, c) ==
  \A i \in DOMAIN v :
    /\ Lists(v[i], Partners(S, left, i - 1))
    /\ Lists(e[i], Entries(S, left, i - 1))
    /\ c[i] = IF S.cnt THEN Number(S, left, i - 1) ELSE -1

\* th: the consumer threw when it was given one more than th
Throws(ev, n) == "th" \in DOMAIN ev /\ ev.th < n
Some(l, n, set) == Len(l) = n /\ Cardinality(Range(l)) = n /\ Range(l) \subseteq set
Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op = "put" ->
         J({"P17"}, /\ ev.x = "ok"
                    /\ IF Has(S, <<ev.l, ev.r>>) THEN ev.e = S.ent[<<ev.l, ev.r>>]
                       ELSE ev.e >= 0 /\ ev.e \notin Held(S))
    [] ev.op = "neg" -> J({"P17"}, ev.x # "ok" /\ ~ev.b)
    [] ev.op = "rem" ->
         J({"P17"}, ev.x = "ok" /\ ev.e = IF Has(S, <<ev.l, ev.r>>) THEN S.ent[<<ev.l, ev.r>>] ELSE -1)
    [] ev.op = "lk" ->
         J({"P17"}, ev.x = "ok" /\ ev.e = IF Has(S, <<ev.l, ev.r>>) THEN S.ent[<<ev.l, ev.r>>] ELSE -1)
    [] ev.op = "ck" -> J({"P17"}, ev.x = "ok" /\ ev.b = Has(S, <<ev.l, ev.r>>))
    [] ev.op \in {"rat", "rsv"} ->
         J({"P17"}, IF ev.e \in Live(S) THEN ev.x = "ok" /\ (ev.op = "rat" => ev.y = ev.e)
                    ELSE ev.x \in {"ok", "IOOBE"} /\ (ev.op = "rat" /\ ev.x = "ok" => ev.y = -1))
    [] ev.op = "frs" -> J({"P17"}, ev.x = "ok")
    [] ev.op = "at" ->
         ev.e \in Held(S) => J({"P17"}, ev.x = "ok" /\ <<ev.l, ev.r>> = S.pr[ev.e])
    [] ev.op = "nav" ->
         J({"P18"}, /\ ev.x = "ok"
                    /\ Lists(ev.fv, Partners(S, ev.left, ev.k)) /\ Lists(ev.iv, Partners(S, ev.left, ev.k))
                    /\ Lists(ev.fe, Entries(S, ev.left, ev.k)) /\ Lists(ev.ie, Entries(S, ev.left, ev.k))
                    /\ IF S.cnt THEN ev.y = "ok" /\ ev.n = Number(S, ev.left, ev.k)
                       ELSE ev.y \in {"ISE", "IAE"})
    \* a walk from a key over its entries (ent) or partners, or over all entries,
    \* that removes some of the associations as it is given them (entries rm)
    [] ev.op = "nsw" /\ Throws(ev, Cardinality(Entries(S, ev.left, ev.k))) ->
         J({"P18"}, /\ ev.x = "BOOM" /\ Range(ev.rm) \subseteq Entries(S, ev.left, ev.k)
                    /\ Some(ev.v, ev.th + 1, IF ev.ent THEN Entries(S, ev.left, ev.k) ELSE Partners(S, ev.left, ev.k)))
    [] ev.op = "fsw" /\ Throws(ev, Cardinality(Live(S))) ->
         J({"P17"}, ev.x = "BOOM" /\ Range(ev.rm) \subseteq Live(S) /\ Some(ev.v, ev.th + 1, Live(S)))
    [] ev.op = "nsw" ->
         J({"P18"}, /\ ev.x = "ok" /\ Range(ev.rm) \subseteq Entries(S, ev.left, ev.k)
                    /\ Lists(ev.v, IF ev.ent THEN Entries(S, ev.left, ev.k) ELSE Partners(S, ev.left, ev.k)))
    [] ev.op = "fsw" -> J({"P17"}, ev.x = "ok" /\ Range(ev.rm) \subseteq Live(S) /\ Lists(ev.v, Live(S)))
    [] ev.op = "obs" ->
         /\ J({"P17"},
              /\ ev.x = "ok" /\ ev.n = Cardinality(DOMAIN S.ent)
              /\ Lists(ev.fe, Live(S))
              /\ \A i \in DOMAIN ev.fe : ev.fe[i] \in Live(S) => <<ev.la[i], ev.ra[i]>> = S.pr[ev.fe[i]]
              /\ \A i \in DOMAIN ev.lk :
                   LET p == <<(i - 1) \div ev.R, (i - 1) % ev.R>> IN
                   IF Has(S, p) THEN ev.lk[i] = S.ent[p] /\ ev.ck[i] = 1 ELSE ev.lk[i] = -1 /\ ev.ck[i] = 0)
         /\ J({"P18"},
              /\ ev.y = "ok"
              /\ SideOk(S, TRUE, ev.vL, ev.eL, ev.cL)
              /\ S.m2m => SideOk(S, FALSE, ev.vR, ev.eR, ev.cR))
    [] OTHER -> FALSE

Without(S, e) == [S EXCEPT !.ent = [p \in {q \in DOMAIN @ : @[q] # e} |-> @[p]]]
Without2(S, e) == IF e \in Live(S) THEN [Without(S, e) EXCEPT !.pr = Drop(@, e)] ELSE S
RECURSIVE WithoutAll(_, _)
WithoutAll(S, l) == IF l = <<>> THEN S ELSE WithoutAll(Without2(S, Head(l)), Tail(l))
Nxt(S, ev) ==
  CASE ev.op = "new" -> [Init0 EXCEPT !.m2m = ev.m2m, !.cnt = ev.cnt]
    [] ev.op = "put" ->
         IF ev.x = "ok" /\ ~Has(S, <<ev.l, ev.r>>)
         THEN [S EXCEPT !.ent = (<<ev.l, ev.r>> :> ev.e) @@ @, !.pr = (ev.e :> <<ev.l, ev.r>>) @@ @]
         ELSE S
    [] ev.op = "rem" -> IF ev.x = "ok" /\ Has(S, <<ev.l, ev.r>>)
                        THEN LET e == S.ent[<<ev.l, ev.r>>]
                             IN [Without(S, e) EXCEPT !.pr = Drop(@, e)] ELSE S
    [] ev.op = "rat" -> IF ev.x = "ok" /\ ev.e \in Live(S) THEN [Without(S, ev.e) EXCEPT !.pr = Drop(@, ev.e)] ELSE S
    [] ev.op = "rsv" -> IF ev.x = "ok" /\ ev.e \in Live(S) THEN [Without(S, ev.e) EXCEPT !.rsv = @ \cup {ev.e}] ELSE S
    [] ev.op = "frs" -> IF ev.x = "ok" /\ ev.e \in S.rsv
                        THEN [S EXCEPT !.rsv = @ \ {ev.e}, !.pr = Drop(@, ev.e)] ELSE S
    [] ev.op \in {"nsw", "fsw"} -> WithoutAll(S, ev.rm)
    [] OTHER -> S

Sound(S) == /\ \A p, q \in DOMAIN S.ent : p # q => S.ent[p] # S.ent[q]
            /\ Live(S) \cap S.rsv = {} /\ Live(S) \cup S.rsv = Held(S)
            /\ \A p \in DOMAIN S.ent : S.pr[S.ent[p]] = p

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) ==
  CASE ev.op = "put" -> Has(S, <<ev.l, ev.r>>)
    [] ev.op = "rem" -> ~Has(S, <<ev.l, ev.r>>)
    [] ev.op \in {"rat", "rsv"} -> ev.e \notin Live(S)
    [] ev.op = "neg" -> TRUE
    [] ev.op \in {"nsw", "fsw"} -> "th" \in DOMAIN ev /\ ev.rm = <<>>
    [] OTHER -> FALSE
=============================================================================
