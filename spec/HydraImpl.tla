----------------------------- MODULE HydraImpl -----------------------------
(* The hydra deques as implemented: doubly linked lists through nexts and   *)
(* prevs over shared storage, a free list threaded through nexts (encoded   *)
(* as -entry - 2), heads, tails and counts by list id.                      *)
EXTENDS Hydra, TLCExt
CONSTANTS V, Cap0, Lists0, Ids, MaxLen, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>
Size(f) == Cardinality(DOMAIN f)
Arr(n, v) == [i \in 0..(n - 1) |-> v]
None == -1
RECURSIVE Doubled(_, _)
Doubled(n, need) == IF n >= need THEN n ELSE Doubled(2 * Max2(n, 1), need)
Ensure(f, e, v) == [i \in 0..(Doubled(Size(f), e + 1) - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE v]

New == [vals |-> Arr(Cap0, None), nexts |-> Arr(Cap0, -1), prevs |-> Arr(Cap0, -1),
        heads |-> Arr(Lists0, -1), tails |-> Arr(Lists0, -1), count |-> Arr(Lists0, 0),
        free |-> -1, size |-> 0, max |-> -1]

WithList(c, id) == [c EXCEPT !.heads = Ensure(@, id, -1), !.tails = Ensure(@, id, -1), !.count = Ensure(@, id, 0)]
Alloc(c) ==    \* <<deque, entry>>
  IF c.free < -1 THEN LET e == -(c.free + 2) IN <<[c EXCEPT !.free = c.nexts[e]], e>>
  ELSE LET e == c.max + 1 IN
       <<[c EXCEPT !.max = e, !.vals = Ensure(@, e, None), !.nexts = Ensure(@, e, -1), !.prevs = Ensure(@, e, -1)], e>>

Added(c0, id, v, first) ==
  LET c1 == WithList(c0, id)
      a == Alloc(c1)
      c == a[1]
      e == a[2]
      oh == c.heads[id]
      ot == c.tails[id]
      b == [c EXCEPT !.vals = [@ EXCEPT ![e] = v], !.count = [@ EXCEPT ![id] = @ + 1], !.size = @ + 1]
  IN <<IF first
       THEN LET d == IF oh = -1 THEN [b EXCEPT !.tails = [@ EXCEPT ![id] = e]]
                                ELSE [b EXCEPT !.prevs = [@ EXCEPT ![oh] = e]]
            IN [d EXCEPT !.heads = [@ EXCEPT ![id] = e], !.nexts = [@ EXCEPT ![e] = oh]]
       ELSE LET d == IF ot = -1 THEN [b EXCEPT !.heads = [@ EXCEPT ![id] = e]]
                                ELSE [b EXCEPT !.nexts = [@ EXCEPT ![ot] = e]]
            IN [d EXCEPT !.tails = [@ EXCEPT ![id] = e], !.nexts = [@ EXCEPT ![e] = -1],
                         !.prevs = [@ EXCEPT ![e] = ot]],
       e>>

Released(c, e) == [c EXCEPT !.vals = [@ EXCEPT ![e] = None], !.size = @ - 1,
                            !.nexts = [@ EXCEPT ![e] = c.free], !.free = -e - 2]
RemovedF(c, id) ==
  LET e == c.heads[id]
      n == c.nexts[e]
      d == [c EXCEPT !.heads = [@ EXCEPT ![id] = n], !.count = [@ EXCEPT ![id] = @ - 1],
                     !.tails = [@ EXCEPT ![id] = IF @ = e THEN -1 ELSE @],
                     !.prevs = [p \in DOMAIN @ |-> IF p = n THEN -1 ELSE @[p]]]
  IN Released(d, e)
RemovedL(c, id) ==
  LET e == c.tails[id]
      p == c.prevs[e]
      d == [c EXCEPT !.tails = [@ EXCEPT ![id] = p], !.count = [@ EXCEPT ![id] = @ - 1],
                     !.heads = [@ EXCEPT ![id] = IF @ = e THEN -1 ELSE @],
                     !.nexts = [q \in DOMAIN @ |-> IF q = p THEN -1 ELSE @[q]],
                     !.prevs = [q \in DOMAIN @ |-> IF q = e /\ p # -1 THEN -1 ELSE @[q]]]
  IN Released(d, e)
Cleared(c) == [c EXCEPT !.heads = Arr(Size(@), -1), !.tails = Arr(Size(@), -1), !.count = Arr(Size(@), 0),
                        !.nexts = Arr(Size(@), -1), !.prevs = Arr(Size(@), -1), !.vals = Arr(Size(@), None),
                        !.free = -1, !.max = -1, !.size = 0]

RECURSIVE Fwd(_, _), Bwd(_, _)
Fwd(c, e) == IF e < 0 THEN <<>> ELSE <<c.vals[e]>> \o Fwd(c, c.nexts[e])
Bwd(c, e) == IF e < 0 THEN <<>> ELSE <<c.vals[e]>> \o Bwd(c, c.prevs[e])
HeadAt(c, id) == IF id \in DOMAIN c.heads THEN c.heads[id] ELSE -1
TailAt(c, id) == IF id \in DOMAIN c.tails THEN c.tails[id] ELSE -1

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
Add(id, v, first) == LET r == Added(h, id, v, first)
                         op == IF first THEN "af" ELSE "al"
                     IN /\ h.size < MaxLen
                        /\ Step(r[1], [op |-> op, id |-> id, v |-> v, e |-> r[2], x |-> "ok"], <<op, id, v>>)
Rem(id, first) ==
  LET e == IF first THEN HeadAt(h, id) ELSE TailAt(h, id)
      op == IF first THEN "rf" ELSE "rl"
  IN IF e < 0 THEN Step(h, [op |-> op, id |-> id, v |-> -7, x |-> "NSE"], <<op, id>>)
     ELSE Step(IF first THEN RemovedF(h, id) ELSE RemovedL(h, id),
               [op |-> op, id |-> id, v |-> h.vals[e], x |-> "ok"], <<op, id>>)
Init == h = New /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ \E id \in Ids : \/ \E v \in 0..(V - 1) : Add(id, v, TRUE) \/ Add(id, v, FALSE)
                           \/ Rem(id, TRUE) \/ Rem(id, FALSE)
        \/ Step(Cleared(h), [op |-> "clr", x |-> "ok"], <<"clr">>)
Spec == Init /\ [][Next]_vars
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars
Top == CHOOSE i \in Ids : \A j \in Ids : j <= i
Observable ==
  /\ Ok(abs, [op |-> "obs", x |-> "ok", n |-> h.size, b |-> h.size = 0,
              sz |-> [i \in 1..(Top + 4) |-> IF i - 2 \in DOMAIN h.count THEN h.count[i - 2] ELSE 0],
              f |-> [i \in 1..(Top + 3) |-> Fwd(h, HeadAt(h, i - 1))],
              r |-> [i \in 1..(Top + 3) |-> Bwd(h, TailAt(h, i - 1))]])
  /\ Ok(abs, [op |-> "reach", vs |-> LET R == Range(h.vals) \ {None} IN [v \in R |-> v]])
Structure == h.max = abs.nxt - 1
SoundAbs == Sound(abs)
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
