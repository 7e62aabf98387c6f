---------------------------- MODULE CapacityImpl ----------------------------
(* Capacities as computed: shifts of words of WB bits, a threshold that is a *)
(* fraction of the capacity, and growth whenever the threshold is reached.   *)
EXTENDS Capacity
CONSTANTS WB, MaxAdds
VARIABLES h, abs, ev
vars == <<h, abs, ev>>
View == <<h, abs>>

Wrap(x) == LET m == x % (2 ^ WB) IN IF m >= 2 ^ (WB - 1) THEN m - 2 ^ WB ELSE m
\* leading zeros of a word
Nlz(x) == IF x < 0 THEN 0 ELSE WB - Least({k \in 0..WB : x < 2 ^ k})
\* shifts take the count modulo the width
ShlW(x, k) == Wrap(x * 2 ^ (k % WB))
NextPow2(v) == ShlW(1, WB - Nlz(Wrap(v - 1)))
Grow(c, th) == IF c = MaxCap THEN IF th = MaxCap THEN [r |-> -1, x |-> "RESIZE"] ELSE [r |-> c, x |-> "ok"]
               ELSE LET d == ShlW(c, 1)
                    IN IF d <= c THEN [r |-> -1, x |-> "RESIZE"]
                       ELSE [r |-> IF d > MaxCap THEN MaxCap ELSE d, x |-> "ok"]
\* load factors, as fractions
Loads == {<<1, 1>>, <<3, 4>>, <<1, 2>>, <<1, 8>>}
Thr(c, l) == (c * l[1]) \div l[2]

Init == \E c \in 1..MaxCap : \E l \in Loads :
          /\ h = [cap |-> NextPow2(c), thr |-> Thr(NextPow2(c), l), size |-> 0, lf |-> l, full |-> FALSE]
          /\ abs = Nxt(Init0, [op |-> "ctor", kind |-> "hash", cap |-> NextPow2(c)])
          /\ ev = [op |-> "ctor", kind |-> "hash", c |-> c, lf |-> <<>>, x |-> "ok", cap |-> NextPow2(c), n |-> 0]
\* entries are used up to the threshold, then the table grows, then adding is refused
Grows ==
       /\ h.size < MaxAdds /\ ~h.full
       /\ LET g == Grow(h.cap, h.thr)
              must == h.size >= h.thr
          IN IF ~must THEN /\ h' = [h EXCEPT !.size = @ + 1]
                           /\ ev' = [op |-> "held", kind |-> "hash", n |-> h.size + 1, cap |-> h.cap, x |-> "ok"]
             ELSE IF g.x # "ok" THEN h' = [h EXCEPT !.full = TRUE]
                                     /\ ev' = [op |-> "grow", c |-> h.cap, th |-> h.thr, r |-> g.r, x |-> g.x]
             ELSE LET thr == IF g.r = h.cap THEN MaxCap ELSE Thr(g.r, h.lf)
                  IN /\ h' = [h EXCEPT !.cap = g.r, !.thr = thr]
                     /\ ev' = [op |-> "grow", c |-> h.cap, th |-> h.thr, r |-> g.r, x |-> g.x]
       /\ abs' = IF ev'.op = "held" THEN Nxt(abs, ev') ELSE abs
Next == Grows
Spec == Init /\ [][Next]_vars
Refines == [][Ok(IF ev'.op = "held" THEN [abs EXCEPT !.cap = -1] ELSE abs, ev')]_vars
\* the formula on every argument
Rounding == \A v \in 1..(2 ^ (WB - 2)) : Rounds(v, v, NextPow2(v))
Growth == \A c \in 1..(2 ^ (WB - 3)) : \A th \in {0, c \div 2, c, MaxCap} : GrowOk(c, th, Grow(c, th).r, Grow(c, th).x)
TooBig == \A c \in (2 ^ (WB - 2))..(2 ^ (WB - 1) - 1) : GrowOk(c, 1, Grow(c, 1).r, Grow(c, 1).x)
\* there is room for what is held, and it is refused only at the very end
Room == h.size <= h.cap /\ (h.full => h.cap = MaxCap /\ h.size = MaxCap)
=============================================================================
