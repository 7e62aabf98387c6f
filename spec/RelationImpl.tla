---------------------------- MODULE RelationImpl ----------------------------
(* The relations as implemented: a set of pairs that issues entries from a  *)
(* free list (most recently released first), and for each side heads by     *)
(* key and doubly linked lists through nexts and prevs by entry.           *)
EXTENDS Relation, TLCExt
CONSTANTS L, R, M2M, KCap, MCap, MaxRsv, Bad, Walks, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>
Size(f) == Cardinality(DOMAIN f)
Arr(n, v) == [i \in 0..(n - 1) |-> v]
UNSET == -1
RECURSIVE Doubled(_, _)
Doubled(n, need) == IF n >= need THEN n ELSE Doubled(2 * n, need)
Ensure(f, e, v) == [i \in 0..(Doubled(Size(f), e + 1) - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE v]
Sorted(S) == LET RECURSIVE G(_)
                 G(T) == IF T = {} THEN <<>>
                         ELSE LET m == CHOOSE m \in T : \A x \in T : m <= x IN <<m>> \o G(T \ {m})
             IN G(S)
Last(s) == s[Len(s)]

Side0 == [heads |-> Arr(KCap, UNSET), nexts |-> Arr(MCap, UNSET), prevs |-> Arr(MCap, UNSET), count |-> Arr(KCap, 0)]
Ins(s0, k, e) ==
  LET s == [heads |-> Ensure(s0.heads, k, UNSET), count |-> Ensure(s0.count, k, 0),
            nexts |-> Ensure(s0.nexts, e, UNSET), prevs |-> Ensure(s0.prevs, e, UNSET)]
      old == s.heads[k]
      t == IF old = UNSET THEN s ELSE [s EXCEPT !.nexts[e] = old, !.prevs[old] = e]
  IN [t EXCEPT !.heads[k] = e, !.count[k] = @ + 1]
Rem(s, k, e) ==
  LET p == s.prevs[e]
      n == s.nexts[e]
      t == IF s.heads[k] = e THEN [s EXCEPT !.heads[k] = n]
           ELSE LET a == IF p # UNSET THEN [s EXCEPT !.nexts[p] = n] ELSE s
                IN IF n # UNSET THEN [a EXCEPT !.prevs[n] = p] ELSE a
  IN [t EXCEPT !.prevs[e] = UNSET, !.nexts[e] = UNSET, !.count[k] = @ - 1]
RECURSIVE Chain(_, _, _)
Chain(s, e, n) == IF e = UNSET \/ n = 0 THEN <<>> ELSE <<e>> \o Chain(s, s.nexts[e], n - 1)
List(s, k) == IF k \in DOMAIN s.heads THEN Chain(s, s.heads[k], 20) ELSE <<>>
Count(s, k) == IF k \in DOMAIN s.count THEN s.count[k] ELSE 0

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
Put(l, r) ==
  IF \E e \in DOMAIN h.keys : h.keys[e] = <<l, r>> /\ e \in h.live
  THEN LET e == CHOOSE e \in h.live : h.keys[e] = <<l, r>>
       IN Step(h, [op |-> "put", l |-> l, r |-> r, e |-> e, x |-> "ok"], <<"put", l, r>>)
  ELSE LET e == IF h.free # <<>> THEN Last(h.free) ELSE h.nxt
           c == [h EXCEPT !.keys = (e :> <<l, r>>) @@ @, !.live = @ \cup {e},
                          !.free = IF @ # <<>> THEN SubSeq(@, 1, Len(@) - 1) ELSE @,
                          !.nxt = IF h.free # <<>> THEN @ ELSE @ + 1,
                          !.left = Ins(@, l, e), !.right = IF M2M THEN Ins(@, r, e) ELSE @]
       IN Step(c, [op |-> "put", l |-> l, r |-> r, e |-> e, x |-> "ok"], <<"put", l, r>>)
UnlinkedIn(c, e) == [c EXCEPT !.left = Rem(@, c.keys[e][1], e), !.right = IF M2M THEN Rem(@, c.keys[e][2], e) ELSE @,
                              !.live = @ \ {e}]
Unlinked(e) == UnlinkedIn(h, e)
Released(c, e) == [c EXCEPT !.free = Append(@, e), !.keys = Drop(@, e)]
Remove(l, r) ==
  LET es == {e \in h.live : h.keys[e] = <<l, r>>} IN
  IF es = {} THEN Step(h, [op |-> "rem", l |-> l, r |-> r, e |-> -1, x |-> "ok"], <<"rem", l, r>>)
  ELSE LET e == CHOOSE e \in es : TRUE
       IN Step(Released(Unlinked(e), e), [op |-> "rem", l |-> l, r |-> r, e |-> e, x |-> "ok"], <<"rem", l, r>>)
At(op, e) ==
  IF e \in h.live
  THEN Step(IF op = "rat" THEN Released(Unlinked(e), e) ELSE Unlinked(e), [op |-> op, e |-> e, y |-> e, x |-> "ok"],
            <<op, "e", e>>)
  ELSE Bad /\ Step(h, [op |-> op, e |-> e, y |-> -1, x |-> "ok"], <<op, "e", e>>)
\* from a key, removing the associations with entry % m = r as they are visited;
\* an iterator moves on before it hands out
RECURSIVE Walk(_, _, _, _, _, _, _)   \* <<state, entries visited, entries removed>>
Walk(c, left, e, m, r, v, rm) ==
  IF e = UNSET \/ Len(v) > 20 THEN <<c, v, rm>>
  ELSE LET next == (IF left THEN c.left ELSE c.right).nexts[e] IN
       IF e % m = r THEN Walk(Released(UnlinkedIn(c, e), e), left, next, m, r, Append(v, e), Append(rm, e))
       ELSE Walk(c, left, next, m, r, Append(v, e), rm)
Sweep(left, k, m, r) ==
  LET s == IF left THEN h.left ELSE h.right
      w == Walk(h, left, IF k \in DOMAIN s.heads THEN s.heads[k] ELSE UNSET, m, r, <<>>, <<>>)
  IN Step(w[1], [op |-> "nsw", left |-> left, k |-> k, ent |-> TRUE, v |-> Sorted(Range(w[2])), rm |-> w[3], x |-> "ok"],
          <<"nsw", IF left THEN "l" ELSE "r", k, m, r>>)

Reserved == DOMAIN h.keys \ h.live
Init == /\ h = [keys |-> <<>>, live |-> {}, free |-> <<>>, nxt |-> 0, left |-> Side0, right |-> Side0]
        /\ abs = [Init0 EXCEPT !.m2m = M2M] /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ \E l \in 0..(L - 1), r \in 0..(R - 1) : Put(l, r) \/ Remove(l, r)
        \/ Walks /\ \E m \in 1..2 : \E r \in 0..(m - 1) :
             \/ \E k \in 0..(L - 1) : Sweep(TRUE, k, m, r)
             \/ M2M /\ \E k \in 0..(R - 1) : Sweep(FALSE, k, m, r)
        \/ \E e \in 0..(h.nxt - 1) :
             \/ At("rat", e)
             \/ (Cardinality(Reserved) < MaxRsv \/ e \notin h.live) /\ At("rsv", e)
             \/ /\ e \in Reserved
                /\ Step(Released(h, e), [op |-> "frs", e |-> e, x |-> "ok"], <<"frse", e>>)
Spec == Init /\ [][Next]_vars
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars

Vals(s, k, i) == Sorted({h.keys[e][i] : e \in Range(List(s, k))})
SideEv(s, n, i) == [v |-> [k \in 1..(n + 1) |-> Vals(s, k - 1, i)],
                    e |-> [k \in 1..(n + 1) |-> LET q == List(s, k - 1) IN
                             IF Cardinality(Range(q)) = Len(q) THEN Sorted(Range(q)) ELSE q],
                    c |-> [k \in 1..(n + 1) |-> Count(s, k - 1)]]
Observable ==
  LET a == SideEv(h.left, L, 2)
      b == SideEv(h.right, R, 1)
      fe == Sorted(h.live)
      Look(p) == IF \E e \in h.live : h.keys[e] = p THEN CHOOSE e \in h.live : h.keys[e] = p ELSE -1
      P(i) == <<(i - 1) \div R, (i - 1) % R>>
  IN Ok(abs, [op |-> "obs", x |-> "ok", y |-> "ok", R |-> R, n |-> Cardinality(h.live), fe |-> fe,
              la |-> [i \in DOMAIN fe |-> h.keys[fe[i]][1]], ra |-> [i \in DOMAIN fe |-> h.keys[fe[i]][2]],
              lk |-> [i \in 1..(L * R) |-> Look(P(i))], ck |-> [i \in 1..(L * R) |-> IF Look(P(i)) = -1 THEN 0 ELSE 1],
              vL |-> a.v, eL |-> a.e, cL |-> a.c, vR |-> b.v, eR |-> b.e, cR |-> b.c])
\* the links of an entry that is in no list are unset; lists are linked both ways
Structure ==
  \A s \in IF M2M THEN {h.left, h.right} ELSE {h.left} :
    /\ \A e \in DOMAIN s.nexts : e \notin h.live => s.nexts[e] = UNSET
    /\ \A k \in DOMAIN s.heads : LET q == List(s, k) IN
         \A i \in 1..(Len(q) - 1) : s.prevs[q[i + 1]] = q[i]
SoundAbs == Sound(abs)
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
