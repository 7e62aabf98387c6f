------------------------------- MODULE Space -------------------------------
(* The space a collection takes: the elements of all its arrays together,      *)
(* against what it was asked to provide room for.                              *)
EXTENDS Integers, Sequences, TLC
CONSTANT Judge

J(ps, cond) == (ps \cap Judge # {}) => cond

\* held: elements; peak: the most ever held; top: the greatest index, key, id or size asked for;
\* cap: the room asked for at first; lf: elements per place, in thousandths
Init0 == [kind |-> "set", held |-> 0, peak |-> 0, top |-> 0, cap |-> 0, lf |-> 1000]
Max2(a, b) == IF a > b THEN a ELSE b

Nxt(S, ev) ==
  LET at(h, p) == [S EXCEPT !.held = h, !.peak = Max2(S.peak, p)] IN
  CASE ev.op = "new" -> [Init0 EXCEPT !.kind = ev.kind, !.cap = ev.cap, !.lf = ev.lf, !.top = ev.w]
    [] ev.op = "add" -> at(S.held + ev.n, S.held + ev.n)
    [] ev.op = "rem" -> at(S.held - ev.n, S.held)
    [] ev.op \in {"slide", "copy"} -> at(S.held, S.held + ev.k)
    [] ev.op = "drain" -> at(0, S.held + ev.k)
    [] ev.op = "refill" -> at(ev.k, ev.k)
    [] ev.op = "clr" -> at(0, 0)
    [] ev.op = "top" -> [S EXCEPT !.top = Max2(@, ev.k)]
    [] OTHER -> S

\* arrays that double, a handful of them side by side
Room(S) == S.cap + (S.peak * 1000) \div S.lf + S.top
Allowed(S) == 12 * Room(S) + 250
Ok(S, ev) == J({"P35"}, ev.sp <= Allowed(Nxt(S, ev)))
=============================================================================
