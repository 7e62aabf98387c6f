------------------------------- MODULE Store -------------------------------
(* The chunk stores (one column) and chunk matrix stores, at the level of   *)
(* their public API: a table of cells that are the default until set.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

MaxInt == 2147483647
Init0 == [m |-> FALSE, F |-> 1, cap |-> 0, cell |-> <<>>, ok |-> FALSE]
P(m) == IF m THEN {"P16"} ELSE {"P15"}
Range(f) == {f[x] : x \in DOMAIN f}
Default == 0
ValidConf(ev) == IF ev.m THEN ev.init >= 1 /\ ev.chunk >= 2 /\ ev.F >= 1
                 ELSE ev.init >= 0 /\ ev.chunk >= 1
Addressable(S, r) == r < MaxInt \div S.F
Field(S, f) == f >= 0 /\ f < S.F
At(S, r, f) == IF <<r, f>> \in DOMAIN S.cell THEN S.cell[<<r, f>>] ELSE Default

Ok(S, ev) ==
  CASE ev.op = "new" ->
         IF ValidConf(ev) THEN J(P(ev.m), ev.x = "ok" /\ ev.cap >= ev.init)
         ELSE J(P(ev.m), ev.m => ev.x = "INIT")
    [] ev.op = "set" ->
         IF ~Field(S, ev.f) THEN J(P(S.m), ev.x = "RCE" /\ ev.cap = S.cap)
         ELSE IF ev.r < 0 THEN J(P(S.m), ev.x # "ok" /\ ev.cap = S.cap)
         ELSE IF ~Addressable(S, ev.r) THEN J(P(S.m), ev.x # "ok" /\ ev.cap = S.cap)
         ELSE J(P(S.m), ev.x = "ok" /\ ev.cap > ev.r /\ ev.cap >= S.cap)
    [] ev.op = "get" ->
         IF ~Field(S, ev.f) THEN J(P(S.m), ev.x = "RCE" /\ ev.cap = S.cap)
         ELSE IF ev.r < 0 THEN J(P(S.m), ev.x # "ok" /\ ev.cap = S.cap)
         ELSE J(P(S.m), ev.x = "ok" /\ ev.v = At(S, ev.r, ev.f) /\ ev.cap = S.cap)
    [] ev.op = "obs" ->   \* the cells of these rows that are not the default
         J(P(S.m), /\ ev.x = "ok" /\ ev.cap = S.cap
                   /\ LET seen == {<<ev.r[i], ev.f[i], ev.v[i]>> : i \in DOMAIN ev.r}
                          want == {<<c[1], c[2], S.cell[c]>> : c \in {d \in DOMAIN S.cell : S.cell[d] # Default}}
                      IN /\ seen \subseteq want
                         /\ ev.all => {t \in want : t[1] \in Range(ev.rows)} \subseteq seen)
    [] ev.op = "reach" -> J({"P28"}, Range(ev.vs) \subseteq Range(S.cell))
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op = "new" -> [Init0 EXCEPT !.m = ev.m, !.F = ev.F, !.cap = ev.cap]
    [] ev.op = "set" ->
         IF Field(S, ev.f) /\ ev.r >= 0 /\ ev.x = "ok" /\ Addressable(S, ev.r)
         THEN [S EXCEPT !.cell = (<<ev.r, ev.f>> :> ev.v) @@ @, !.cap = ev.cap]
         ELSE S
    [] OTHER -> S

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) == ev.op \in {"set", "get"} /\ (~Field(S, ev.f) \/ ev.r < 0 \/ (ev.op = "set" /\ ~Addressable(S, ev.r)))
=============================================================================
