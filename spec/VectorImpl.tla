----------------------------- MODULE VectorImpl -----------------------------
(* The vectors as implemented: an array that doubles, and a position. *)
EXTENDS Vector, FiniteSets, TLCExt
CONSTANTS V, Cap0, MaxLen, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>
Size(f) == Cardinality(DOMAIN f)
None == -1
RECURSIVE Doubled(_, _)
Doubled(n, need) == IF n >= need THEN n ELSE Doubled(2 * n, need)
Ensure(f, n) == [i \in 0..(Doubled(Size(f), n) - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE None]

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
Init == /\ h = [vals |-> [i \in 0..(Cap0 - 1) |-> None], size |-> 0]
        /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ \E v \in 0..(V - 1) :
             /\ h.size < MaxLen
             /\ Step([h EXCEPT !.vals = [Ensure(@, h.size + 1) EXCEPT ![h.size] = v], !.size = @ + 1],
                     [op |-> "app", v |-> v, x |-> "ok"], <<"app", v>>)
        \/ \E n \in 0..(2 * MaxLen) : Step([h EXCEPT !.vals = Ensure(@, n)], [op |-> "ens", n |-> n, x |-> "ok"], <<"ens", n>>)
        \/ Step([h EXCEPT !.vals = [i \in DOMAIN @ |-> IF i < h.size THEN None ELSE @[i]], !.size = 0],
                [op |-> "clr", x |-> "ok"], <<"clr">>)
Spec == Init /\ [][Next]_vars
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars
Prefix == [i \in 1..h.size |-> h.vals[i - 1]]
Observable == /\ Ok(abs, [op |-> "obs", x |-> "ok", n |-> h.size, b |-> h.size = 0, l |-> Prefix, va |-> Prefix])
              /\ Ok(abs, [op |-> "reach", vs |-> LET R == Range(h.vals) \ {None} IN [v \in R |-> v]])
Structure == h.size <= Size(h.vals)
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
