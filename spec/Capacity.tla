------------------------------ MODULE Capacity ------------------------------
(* Capacities: rounding up to powers of two, growing by doubling up to a     *)
(* maximum, and which capacities and load factors constructors accept.       *)
EXTENDS Numeric, TLC
CONSTANTS Judge, Limit  \* the largest capacity is 2^Limit
J(ps, cond) == (ps \cap Judge # {}) => cond
MaxCap == 2 ^ Limit

\* up: the next argument of the sweep; cap: the capacity of the collection being filled
\* and of a collection filled to the brim: n: how many it holds; first: how many it was filled with; seen: what it showed
\* last; same: it has to show the same again; out: what was taken out; in: entries put in since
Init0 == [up |-> 0, cap |-> -1, kind |-> "", n |-> 0, first |-> 0, seen |-> <<>>, same |-> FALSE, out |-> {}, in |-> {}]
IsPow2(x) == \E k \in 0..30 : x = 2 ^ k
\* the smallest power of two that is at least each of from..to
Rounds(from, to, r) == IsPow2(r) /\ to <= r /\ (r = 1 \/ r \div 2 < from)
Zero == Zeros(8)
OneF == <<63, 240, 0, 0, 0, 0, 0, 0>>
ValidLoad(lf) == lf = <<>> \/ (~IsNaN(F64, lf) /\ CmpF(F64, lf, Zero) > 0 /\ CmpF(F64, lf, OneF) <= 0)
ValidCap(kind, c) == c >= 1 /\ (kind = "hash" => c <= MaxCap)

GrowOk(c, th, r, x) ==
  IF c = MaxCap THEN IF th = MaxCap THEN x = "RESIZE" ELSE x = "ok" /\ r = c
  ELSE IF c > MaxCap \/ c = 0 THEN x = "RESIZE"  \* cannot be doubled
  ELSE x = "ok" /\ r = IF 2 * c > MaxCap THEN MaxCap ELSE 2 * c

\* The brim. A heap is filled with the keys entry \div 2^24, a set with the keys 0, 1, 2, ...: entries, then, are their keys
Shown(ev) == [es |-> ev.es, us |-> ev.us, ks |-> ev.ks, n |-> ev.n, cap |-> ev.cap, more |-> ev.more]
Heaped(S, ev) ==
  /\ \A i \in 1..Len(ev.es) : LET e == ev.es[i] IN
       /\ ev.us[i] = IF e < S.first \/ e \in S.in THEN 1 ELSE 0
       /\ (e < S.first /\ e \notin S.out) => ev.ks[i] = e \div (2 ^ 24)
  /\ ev.more = 0
Listed(S, ev) ==
  \A i \in 1..Len(ev.es) : LET e == ev.es[i] IN
       /\ ev.us[i] = IF e < S.first /\ e \notin S.out THEN 1 ELSE 0
       /\ ev.us[i] = 1 => ev.ks[i] = e
\* is there a place for one more?
Roomy(S) == IF S.kind = "heap" THEN S.n < S.cap \/ S.cap < MaxCap ELSE S.n < MaxCap

Ok(S, ev) ==
  CASE ev.op = "np" -> J({"P29"}, ev.from = S.up + 1 /\ ev.to >= ev.from /\ Rounds(ev.from, ev.to, ev.r))
    [] ev.op = "npend" -> J({"P29"}, S.up = ev.to)
    [] ev.op = "npx" -> J({"P29"}, Rounds(ev.v, ev.v, ev.r))
    [] ev.op = "grow" -> J({"P29"}, GrowOk(ev.c, ev.th, ev.r, ev.x))
    [] ev.op = "ctor" ->
         J({"P29"}, IF ValidCap(ev.kind, ev.c) /\ ValidLoad(ev.lf)
                    THEN ev.x = "ok" /\ (ev.kind = "hash" => ev.cap >= ev.c) /\ (ev.cap # -1 => ev.cap >= ev.n)
                    ELSE ev.x = (IF ev.kind = "matrix" THEN "INIT" ELSE "IAE"))
    \* n things are held
    [] ev.op = "held" ->
         J({"P29"}, /\ ev.x = "ok" /\ ev.cap >= ev.n
                    /\ (S.cap # -1 /\ ev.kind = "hash") => (ev.cap = S.cap \/ ev.cap = 2 * S.cap)
                    /\ S.cap # -1 => ev.cap >= S.cap)
    [] ev.op = "full" -> J({"P29"}, ev.x = "ok" /\ ev.n = ev.want /\ ev.cap >= ev.n)
    [] ev.op = "look" ->
         /\ J({"P29"}, ev.cap >= ev.n)
         /\ J(IF S.kind = "heap" THEN {"P10", "P29"} ELSE {"P01", "P02", "P29"},
              ev.n = S.n /\ IF S.kind = "heap" THEN Heaped(S, ev) ELSE Listed(S, ev))
         /\ J({"P30", "P29"}, S.same => Shown(ev) = S.seen)
    [] ev.op = "over" ->
         /\ J({"P29"}, ev.x = IF Roomy(S) THEN "ok" ELSE "RESIZE")
         /\ J({"P29", "P30"}, ev.n = IF ev.x = "ok" THEN S.n + 1 ELSE S.n)
         /\ J({"P10", "P03"}, ev.x = "ok" => ev.e = S.n)
    [] ev.op = "swap" ->
         /\ J({"P29", "P30"}, ev.x = "ok" /\ ev.n = S.n /\ ev.cap = S.cap)
         /\ J({"P10", "P03"}, ev.e = ev.f)
    [] OTHER -> FALSE
Nxt(S, ev) ==
  CASE ev.op = "np" -> [S EXCEPT !.up = ev.to]
    [] ev.op = "npend" -> Init0
    [] ev.op = "ctor" -> [Init0 EXCEPT !.cap = ev.cap, !.kind = ev.kind]
    [] ev.op = "held" -> [S EXCEPT !.cap = ev.cap]
    [] ev.op = "full" -> [S EXCEPT !.cap = ev.cap, !.n = ev.n, !.first = ev.n]
    [] ev.op = "look" -> [S EXCEPT !.seen = Shown(ev), !.same = FALSE]
    [] ev.op = "over" -> [S EXCEPT !.n = ev.n, !.cap = ev.cap, !.same = ev.x # "ok",
                                   !.in = IF ev.x = "ok" THEN @ \cup {ev.e} ELSE @]
    [] ev.op = "swap" -> [S EXCEPT !.out = @ \cup {ev.f}]
    [] OTHER -> S
=============================================================================
