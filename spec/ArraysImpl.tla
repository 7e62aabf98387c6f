----------------------------- MODULE ArraysImpl -----------------------------
(* The array helpers as implemented: the growth loop on words of WB bits,    *)
(* one step at a time, and the copies and fills.                            *)
EXTENDS Arrays, TLCExt
CONSTANTS WB, V, MaxLen, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>

Wrap(x) == LET m == x % (2 ^ WB) IN IF m >= 2 ^ (WB - 1) THEN m - 2 ^ WB ELSE m
Runs(a) == Norm([i \in 1..Len(a) |-> <<1, a[i]>>])
Copy(a, n) == [i \in 1..n |-> IF i <= Len(a) THEN a[i] ELSE 0]
Fill(a, v, off, len) == [i \in 1..Len(a) |-> IF i > off /\ i <= off + len THEN v ELSE a[i]]
CopyFill(a, n, v) == Fill(Copy(a, n), v, Len(a), n - Len(a))
Create(n, v) == IF v = 0 THEN Copy(<<>>, n) ELSE Fill(Copy(<<>>, n), v, 0, n)

Idle == [on |-> FALSE]
Step(c, e, t) == h' = c /\ ev' = e /\ tok' = t /\ abs' = IF e.op = "none" THEN abs ELSE Nxt(abs, e)
Quiet == [op |-> "none"]
Result(op, n, v, on, r) ==
  Step([a |-> IF on THEN r ELSE h.a, grow |-> Idle], [op |-> op, n |-> n, v |-> v, on |-> on, x |-> "ok", same |-> FALSE,
       ty |-> TRUE, a |-> Runs(h.a), r |-> Runs(r)], <<op, n, v, on>>)

Init == h = [a |-> <<>>, grow |-> Idle] /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next ==
  IF h.grow.on
  THEN \* the loop that doubles
    LET g == h.grow
    IN IF g.len < g.need
       THEN LET d == Wrap(2 * g.len)
            IN IF d <= 0 THEN Step([h EXCEPT !.grow = [g EXCEPT !.len = g.need, !.n = @ + 1]], Quiet, <<"none">>)
               ELSE Step([h EXCEPT !.grow = [g EXCEPT !.len = d, !.n = @ + 1]], Quiet, <<"none">>)
       ELSE LET r == CopyFill(h.a, g.len, g.v)
            IN Step([a |-> IF Len(r) <= MaxLen THEN r ELSE h.a, grow |-> Idle],
                    [op |-> g.op, n |-> g.arg, v |-> g.v, on |-> Len(r) <= MaxLen, x |-> "ok", same |-> FALSE, ty |-> TRUE,
                     a |-> Runs(h.a), r |-> Runs(r)], <<"none">>)
  ELSE
    \/ \E n \in 0..MaxLen : \E v \in 0..(V - 1) : \E on \in BOOLEAN :
         \/ Result("create", n, v, on, Create(n, v))
         \/ Result("copy", n, v, on, CopyFill(h.a, n, v))
         \/ v = 0 /\ Result("resize", n, 0, on, Copy(h.a, n))
    \/ \E off \in 0..Len(h.a) : \E len \in 0..(Len(h.a) - off) : \E v \in 0..(V - 1) :
         LET r == Fill(h.a, v, off, len)
         IN Step([h EXCEPT !.a = r], [op |-> "fill", v |-> v, off |-> off, len |-> len, x |-> "ok", r |-> Runs(r)],
                 <<"fill", off, len, v>>)
    \/ \E n \in -1..MaxInt : \E v \in 0..(V - 1) : \E op \in {"ens", "ent"} :
         LET need == IF op = "ens" THEN n ELSE n + 1
         IN /\ need <= MaxInt
            /\ IF need > Len(h.a)
               THEN Step([h EXCEPT !.grow = [on |-> TRUE, op |-> op, arg |-> n, need |-> need, v |-> v, n |-> 0,
                                             len |-> IF Len(h.a) = 0 THEN 1 ELSE Len(h.a)]], Quiet, <<op, n, v>>)
               ELSE Step(h, [op |-> op, n |-> n, v |-> v, on |-> TRUE, x |-> "ok", same |-> TRUE, ty |-> TRUE, a |-> Runs(h.a), r |-> Runs(h.a)],
                         <<op, n, v>>)
Spec == Init /\ [][Next]_vars
Refines == [][ev'.op # "none" => Ok(abs, ev')]_vars
SoundAbs == abs = Runs(h.a)
\* growing ends after as many steps as there are bits
Ends == h.grow.on => h.grow.n <= WB
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
