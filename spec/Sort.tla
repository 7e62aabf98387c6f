-------------------------------- MODULE Sort --------------------------------
(* Companion sort: one call orders a range of an array of keys and carries   *)
(* the elements of a companion array along.  Keys and companions are numbers *)
(* that stand for the real values.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == 0
\* comparators that are total preorders
Cmp(c, x, y) ==
  CASE c = "asc" -> x - y
    [] c = "desc" -> y - x
    [] c = "same" -> 0
    [] c = "mod3" -> (x % 3) - (y % 3)
    [] c = "half" -> (x \div 4) - (y \div 4)
    [] c = "far" -> IF x = y THEN 0 ELSE IF x < y THEN -2147483647 ELSE 2147483647
    [] c = "even" -> LET w(v) == IF v % 2 = 0 THEN v ELSE -v IN w(x) - w(y)

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* positions off+1..off+len of both sequences, as a bag of pairs: a set if all are different, otherwise in order
Pairs(k, s, off, len) ==
  LET all == {<<k[off + i], s[off + i]>> : i \in 1..len}
  IN IF Cardinality(all) = len THEN all
     ELSE {<<"bag", SortSeq([j \in 1..len |-> <<k[off + j], s[off + j]>>], Less)>>}

\* a range lies within both arrays
Fits(ev) == ev.off >= 0 /\ ev.len >= 0 /\ ev.off <= Len(ev.k) - ev.len /\ ev.off <= Len(ev.s) - ev.len
Ordered(ev) == \A i \in (ev.off + 1)..(ev.off + ev.len - 1) : Cmp(ev.c, ev.k2[i], ev.k2[i + 1]) <= 0
Outside(a, b, ev) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : (i <= ev.off \/ i > ev.off + ev.len) => a[i] = b[i]

\* Long arrays are given by a formula for the key at each position; the companions are the positions
Key(ev, i) ==
  CASE ev.f = "saw" -> i % ev.m
    [] ev.f = "rev" -> (ev.n - i) \div ev.m
    [] ev.f = "plat" -> IF i < ev.m THEN i ELSE ev.m
    [] ev.f = "organ" -> (IF i < ev.n - i THEN i ELSE ev.n - i) \div ev.a
    [] ev.f = "mul" -> (i * ev.a) % ev.m
LongOk(ev) ==
  LET last == ev.off + ev.len IN
  /\ ev.x = "ok" /\ Len(ev.k2) = ev.n /\ Len(ev.s2) = ev.n
  /\ \A i \in 1..ev.n : (i <= ev.off \/ i > last) => ev.s2[i] = i - 1
  \* every companion of the range is in it: ev.at says where
  /\ \A j \in (ev.off + 1)..last : ev.at[j] \in (ev.off + 1)..last /\ ev.s2[ev.at[j]] = j - 1
  /\ \A i \in 1..ev.n : ev.k2[i] = Key(ev, ev.s2[i])
  /\ \A i \in (ev.off + 1)..(last - 1) : Cmp(ev.c, ev.k2[i], ev.k2[i + 1]) <= 0

Ok(S, ev) ==
  CASE ev.op = "sort" ->
         J({"P19"}, IF Fits(ev)
                    THEN /\ ev.x = "ok" /\ Ordered(ev)
                         /\ Outside(ev.k, ev.k2, ev) /\ Outside(ev.s, ev.s2, ev)
                         /\ Pairs(ev.k, ev.s, ev.off, ev.len) = Pairs(ev.k2, ev.s2, ev.off, ev.len)
                    ELSE ev.x = "IAE" /\ ev.k2 = ev.k /\ ev.s2 = ev.s)
    [] ev.op = "long" -> J({"P19"}, LongOk(ev))
    [] OTHER -> FALSE
Nxt(S, ev) == S
=============================================================================
