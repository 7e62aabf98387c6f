----------------------------- MODULE DequeImpl -----------------------------
(* The deques as implemented: a ring that doubles before head meets tail,    *)
(* and refuses when it cannot.                                               *)
EXTENDS Deque, FiniteSets, TLCExt
CONSTANTS V, Cap0, MaxLen, MaxCap, Emit
ASSUME Most = MaxCap - 1
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>
Size(f) == Cardinality(DOMAIN f)
Arr(n, v) == [i \in 0..(n - 1) |-> v]
Inc(i, n) == IF i + 1 >= n THEN 0 ELSE i + 1
Dec(i, n) == IF i - 1 < 0 THEN n - 1 ELSE i - 1
None == -1

Grown(c) ==
  LET n == Size(c.vals)
      atEnd == n - c.head
  IN [c EXCEPT !.vals = [i \in 0..(2 * n - 1) |-> IF i < atEnd THEN c.vals[c.head + i]
                                                  ELSE IF i < n THEN c.vals[i - atEnd] ELSE None],
               !.head = 0, !.tail = c.size]
Room(c) == IF c.size + 1 = Size(c.vals) THEN Grown(c) ELSE c
Full(c) == c.size + 1 = Size(c.vals) /\ Size(c.vals) = MaxCap
AddF(c, v) == LET d == Room(c)
                  hd == Dec(d.head, Size(d.vals))
              IN [d EXCEPT !.head = hd, !.vals = [@ EXCEPT ![hd] = v], !.size = @ + 1]
AddL(c, v) == LET d == Room(c)
              IN [d EXCEPT !.vals = [@ EXCEPT ![d.tail] = v], !.size = @ + 1, !.tail = Inc(d.tail, Size(d.vals))]
RemF(c) == [c EXCEPT !.vals = [@ EXCEPT ![c.head] = None], !.head = Inc(c.head, Size(c.vals)), !.size = @ - 1]
RemL(c) == LET t == Dec(c.tail, Size(c.vals)) IN
           [c EXCEPT !.vals = [@ EXCEPT ![t] = None], !.tail = t, !.size = @ - 1]
Cleared(c) == [c EXCEPT !.vals = [i \in DOMAIN @ |-> IF IF c.head > c.tail THEN i >= c.head \/ i < c.tail
                                                        ELSE i >= c.head /\ i < c.tail THEN None ELSE @[i]],
                        !.head = 0, !.tail = 0, !.size = 0]
RECURSIVE Walk(_, _)
Walk(c, p) == IF p = c.tail THEN <<>> ELSE <<c.vals[p]>> \o Walk(c, Inc(p, Size(c.vals)))

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
End(op, c, v) == IF h.size = 0 THEN Step(h, [op |-> op, v |-> -7, x |-> "NSE"], <<op>>)
                 ELSE Step(c, [op |-> op, v |-> v, x |-> "ok"], <<op>>)
Init == /\ h = [vals |-> Arr(Cap0, None), head |-> 0, tail |-> 0, size |-> 0]
        /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ \E v \in 0..(V - 1) : /\ h.size < MaxLen /\ ~Full(h)
                                /\ \/ Step(AddF(h, v), [op |-> "af", v |-> v, x |-> "ok"], <<"af", v>>)
                                   \/ Step(AddL(h, v), [op |-> "al", v |-> v, x |-> "ok"], <<"al", v>>)
        \/ \E v \in 0..(V - 1), op \in {"af", "al"} :
             Full(h) /\ Step(h, [op |-> op, v |-> v, x |-> "RESIZE"], <<op, v>>)
        \/ End("rf", RemF(h), h.vals[h.head]) \/ End("rl", RemL(h), h.vals[Dec(h.tail, Size(h.vals))])
        \/ End("pf", h, h.vals[h.head]) \/ End("pl", h, h.vals[Dec(h.tail, Size(h.vals))])
        \/ Step(Cleared(h), [op |-> "clr", x |-> "ok"], <<"clr">>)
Spec == Init /\ [][Next]_vars
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars
Observable == /\ Ok(abs, [op |-> "obs", x |-> "ok", n |-> h.size, b |-> h.size = 0, l |-> Walk(h, h.head)])
              /\ Ok(abs, [op |-> "reach", vs |-> LET R == Range(h.vals) \ {None} IN [v \in R |-> v]])
Structure == h.size = (h.tail - h.head + Size(h.vals)) % Size(h.vals)
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
