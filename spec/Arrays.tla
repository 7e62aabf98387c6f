------------------------------- MODULE Arrays -------------------------------
(* The array helpers: one array at a time, held by its runs: a sequence of   *)
(* <<length, value>> with lengths above 0 and no two neighbours of the same  *)
(* value.  Value 0 is the default of the type.                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Judge, MaxInt
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == <<>>
RECURSIVE Norm(_), Total(_), Take(_, _), Drop(_, _)
Norm(s) == IF s = <<>> THEN s
           ELSE IF s[1][1] = 0 THEN Norm(Tail(s))
           ELSE LET t == Norm(Tail(s))
                IN IF t # <<>> /\ t[1][2] = s[1][2] THEN << <<s[1][1] + t[1][1], s[1][2]>> >> \o Tail(t)
                   ELSE <<s[1]>> \o t
Total(s) == IF s = <<>> THEN 0 ELSE s[1][1] + Total(Tail(s))
Take(s, n) == IF n = 0 \/ s = <<>> THEN <<>>
              ELSE IF s[1][1] >= n THEN << <<n, s[1][2]>> >> ELSE <<s[1]>> \o Take(Tail(s), n - s[1][1])
Drop(s, n) == IF n = 0 \/ s = <<>> THEN s
              ELSE IF s[1][1] > n THEN << <<s[1][1] - n, s[1][2]>> >> \o Tail(s) ELSE Drop(Tail(s), n - s[1][1])
All(n, v) == IF n = 0 THEN <<>> ELSE << <<n, v>> >>
\* of length n, with s as prefix, or cut
Resized(s, n, v) == IF n <= Total(s) THEN Take(s, n) ELSE Norm(s \o All(n - Total(s), v))
Filled(s, v, off, len) == Norm(Take(s, off) \o All(len, v) \o Drop(s, off + len))
\* the doubling of n that holds need; 0 if no int does
RECURSIVE Grown(_, _)
Grown(n, need) == IF n >= need THEN n ELSE IF n > MaxInt \div 2 THEN 0 ELSE Grown(2 * n, need)

Large(S, n, ev) ==
  LET t == Total(S)
      g == Grown(IF t = 0 THEN 1 ELSE t, n)
  IN IF n <= t THEN ev.x = "ok" /\ ev.same /\ ev.r = S
     ELSE /\ ~ev.same
          /\ IF g # 0 THEN ev.x = "ok" /\ ev.r = Resized(S, g, ev.v)
             ELSE /\ ev.x = "ok" \/ (ev.x = "OOM" /\ n > MaxInt - 8) \* virtual machines may not have arrays that large
                  /\ ev.x = "ok" => Total(ev.r) >= n /\ ev.r = Resized(S, Total(ev.r), ev.v)

Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    \* the array the operation was given is as it was, and objects stay what they were
    [] ev.op # "fill" /\ (ev.a # S \/ ~ev.ty) -> J({"P27"}, FALSE)
    [] ev.op = "create" -> J({"P27"}, ev.x = "ok" /\ ev.r = All(ev.n, ev.v))
    [] ev.op \in {"resize", "copy"} -> J({"P27"}, ev.x = "ok" /\ ~ev.same /\ ev.r = Resized(S, ev.n, ev.v))
    [] ev.op = "fill" -> J({"P27"}, ev.x = "ok" /\ ev.r = Filled(S, ev.v, ev.off, ev.len))
    [] ev.op = "ens" -> J({"P27"}, Large(S, ev.n, ev))
    [] ev.op = "ent" -> J({"P27"}, Large(S, ev.n + 1, ev))
    [] OTHER -> FALSE
\* operations that say so are continued on their result
Nxt(S, ev) == CASE ev.op = "new" -> <<>>
                [] ev.op = "fill" -> ev.r
                [] ev.op # "new" /\ ev.x = "ok" /\ ev.on -> ev.r
                [] OTHER -> S
=============================================================================
