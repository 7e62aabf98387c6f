------------------------------ MODULE HeapImpl ------------------------------
(***************************************************************************)
(* The heaps as implemented: a binary tree of entries in an array, its      *)
(* inverse, keys and values by entry, and the released entries parked in    *)
(* the tree array behind the last node.                                     *)
(***************************************************************************)
EXTENDS Heap, TLCExt

CONSTANTS K, NVal, Cap0, MaxSize, Cmps, Feat, Emit

VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>

Arr(n, v) == [i \in 0..(n - 1) |-> v]
Size(f) == Cardinality(DOMAIN f)
Keys == 0..(K - 1)
DK == -50

New == [tree |-> Arr(Cap0, 0), inv |-> Arr(Cap0, 0), keys |-> Arr(Cap0, DK), vals |-> Arr(Cap0, 0),
        size |-> 0, freeCount |-> 0, cmp |-> "asc", dk |-> DK, dv |-> 0]

Less(c, a, b) == Pos(c.cmp, a) < Pos(c.cmp, b)
Valid(c, e) == e \in DOMAIN c.inv /\ c.inv[e] >= 0 /\ c.inv[e] < c.size /\ c.tree[c.inv[e]] = e

Place(c, node, e) == [c EXCEPT !.tree = [@ EXCEPT ![node] = e], !.inv = [@ EXCEPT ![e] = node]]

RECURSIVE FilterUp(_, _, _, _)   \* <<heap, node>>
FilterUp(c, child, key, e) ==
  LET parent == (child - 1) \div 2 IN
  IF child = 0 \/ ~Less(c, key, c.keys[c.tree[parent]]) THEN <<Place(c, child, e), child>>
  ELSE FilterUp(Place(c, child, c.tree[parent]), parent, key, e)

RECURSIVE FilterDown(_, _, _, _)
FilterDown(c, parent, key, e) ==
  LET l == 2 * parent + 1
      r == l + 1
      child == IF r < c.size /\ Less(c, c.keys[c.tree[r]], c.keys[c.tree[l]]) THEN r ELSE l
  IN IF l >= c.size \/ Less(c, key, c.keys[c.tree[child]]) THEN Place(c, parent, e)
     ELSE FilterDown(Place(c, parent, c.tree[child]), child, key, e)

Settle(c, node, key, e) == LET u == FilterUp(c, node, key, e) IN FilterDown(u[1], u[2], key, e)

Grow(f, v) == [i \in 0..(2 * Size(f) - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE v]

Inserted(c, k, v) ==    \* <<heap, entry>>
  LET g == IF c.freeCount = 0 /\ c.size >= Size(c.keys)
           THEN [c EXCEPT !.tree = Grow(@, 0), !.inv = Grow(@, 0), !.keys = Grow(@, c.dk), !.vals = Grow(@, c.dv)]
           ELSE c
      e == IF c.freeCount > 0 THEN c.tree[c.size] ELSE c.size
      a == [g EXCEPT !.freeCount = IF @ > 0 THEN @ - 1 ELSE 0, !.keys = [@ EXCEPT ![e] = k], !.size = @ + 1]
      u == FilterUp(a, c.size, k, e)[1]
  IN <<IF v < 0 THEN u ELSE [u EXCEPT !.vals = [@ EXCEPT ![e] = v]], e>>

Deleted(c, e) ==
  LET node == c.inv[e]
      c1 == [c EXCEPT !.keys = [@ EXCEPT ![e] = c.dk], !.vals = [@ EXCEPT ![e] = c.dv], !.size = @ - 1]
      last == c1.tree[c1.size]
      key == c1.keys[last]
      c2 == [Place(c1, c1.size, e) EXCEPT !.freeCount = @ + 1]
  IN IF node = c1.size THEN c2 ELSE Settle(c2, node, key, last)

RECURSIVE Heapify(_, _)
Heapify(c, i) == IF i >= c.size THEN c
                 ELSE Heapify(FilterUp(c, i, c.keys[c.tree[i]], c.tree[i])[1], i + 1)

Cleared(c) == [c EXCEPT !.tree = Arr(Size(@), 0), !.inv = Arr(Size(@), 0),
                        !.keys = [i \in DOMAIN @ |-> IF i < c.size + c.freeCount THEN c.dk ELSE @[i]],
                        !.vals = [i \in DOMAIN @ |-> IF i < c.size + c.freeCount THEN c.dv ELSE @[i]],
                        !.size = 0, !.freeCount = 0]

Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t

Insert(k, v) ==
  LET r == Inserted(h, k, v)
      \* the key is compared with that of its parent before anything is changed
      boom == h.size > 0 /\ (Odd(h.cmp, k) \/ Odd(h.cmp, h.keys[h.tree[(h.size - 1) \div 2]]))
  IN
  /\ Cardinality(Active(abs)) < MaxSize
  /\ Step(IF boom THEN h ELSE r[1],
          [op |-> "ins", k |-> k, v |-> v, e |-> IF boom THEN -7 ELSE r[2], x |-> IF boom THEN "BOOM" ELSE "ok"],
          IF v < 0 THEN <<"ins", k>> ELSE <<"insv", k, v>>)
Remove(e) ==
  /\ e \in DOMAIN h.inv
  /\ IF Valid(h, e) THEN Step(Deleted(h, e), [op |-> "rat", e |-> e, x |-> "ok"], <<"rat", "e", e>>)
     ELSE "bad" \in Feat /\ Step(h, [op |-> "rat", e |-> e, x |-> "IEE"], <<"rat", "e", e>>)
Rekey(e, k) ==
  /\ "rst" \in Feat /\ Valid(h, e)
  /\ LET boom == h.size > 1 /\ Odd(h.cmp, k) IN
     Step(IF boom THEN h ELSE [Settle(h, h.inv[e], k, e) EXCEPT !.keys = [@ EXCEPT ![e] = k]],
          [op |-> "rst", e |-> e, k |-> k, x |-> IF boom THEN "BOOM" ELSE "ok"], <<"rst", "e", e, k>>)
SetCmp(n) ==
  LET boom == n # h.cmp /\ \E i \in 1..(h.size - 1) : Odd(n, h.keys[h.tree[0]]) \/ Odd(n, h.keys[h.tree[i]]) IN
  Step(IF n = h.cmp \/ boom THEN h ELSE Heapify([h EXCEPT !.cmp = n], 0),
       [op |-> "cmp", c |-> n, b |-> ~boom, x |-> IF boom THEN "BOOM" ELSE "ok"], <<"cmp", n>>)
Clear == "clr" \in Feat /\ Step(Cleared(h), [op |-> "clr", x |-> "ok"], <<"clr">>)
SetVal(e, v) == /\ Valid(h, e)
                /\ Step([h EXCEPT !.vals = [@ EXCEPT ![e] = v]], [op |-> "svat", e |-> e, v |-> v, x |-> "ok"],
                        <<"svat", "e", e, v>>)
Fill(f, n, v) == [i \in DOMAIN f |-> IF i >= n THEN v ELSE f[i]]
DefKey(k) ==
  /\ "def" \in Feat
  /\ IF h.size > 0 THEN Step(h, [op |-> "defk", k |-> k, x |-> "UOE"], <<"defk", k>>)
     ELSE Step([h EXCEPT !.dk = k, !.keys = Fill(@, 0, k)], [op |-> "defk", k |-> k, x |-> "ok"], <<"defk", k>>)
DefVal(v) ==
  /\ "def" \in Feat
  /\ IF h.size > 0 THEN Step(h, [op |-> "defv", v |-> v, x |-> "UOE"], <<"defv", v>>)
     ELSE Step([h EXCEPT !.dv = v, !.vals = Fill(@, 0, v)], [op |-> "defv", v |-> v, x |-> "ok"], <<"defv", v>>)
Peek == Step(h, IF h.size = 0 THEN [op |-> "peek", e |-> -7, x |-> "RTE"]
                ELSE [op |-> "peek", e |-> h.tree[0], x |-> "ok"], <<"peek">>)
\* forEachEntry, removing the entries e with e % m = r as they are visited
RECURSIVE Swept(_, _, _, _, _, _)   \* <<heap, visited, removed>>
Swept(c, e, m, r, l, rm) ==
  IF e >= Size(c.inv) THEN <<c, l, rm>>
  ELSE IF ~Valid(c, e) THEN Swept(c, e + 1, m, r, l, rm)
  ELSE IF e % m = r THEN Swept(Deleted(c, e), e + 1, m, r, Append(l, e), Append(rm, e))
  ELSE Swept(c, e + 1, m, r, Append(l, e), rm)
Sweep(m, r) == "swp" \in Feat /\ LET w == Swept(h, 0, m, r, <<>>, <<>>) IN
  Step(w[1], [op |-> "swp", l |-> w[2], rm |-> w[3], x |-> "ok"], <<"swp", m, r>>)

Init == h = New /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ \E k \in Keys : Insert(k, -1) \/ \E v \in 1..(NVal - 1) : Insert(k, v)
        \/ \E e \in DOMAIN h.inv : Remove(e) \/ (\E k \in Keys : Rekey(e, k)) \/ \E v \in 1..(NVal - 1) : SetVal(e, v)
        \/ \E n \in Cmps : SetCmp(n)
        \/ Clear \/ Peek
        \/ Sweep(1, 0) \/ Sweep(2, 0) \/ Sweep(2, 1)
        \/ (\E k \in Keys : DefKey(k)) \/ (\E v \in 0..(NVal - 1) : DefVal(v))
Spec == Init /\ [][Next]_vars

Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars

RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>>
             ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})
Cap == Size(h.keys)
First(k) == LET I == {i \in 0..(h.size - 1) : Pos(h.cmp, h.keys[h.tree[i]]) = Pos(h.cmp, k)} IN
            IF I = {} THEN -1 ELSE h.tree[CHOOSE i \in I : \A j \in I : i <= j]
ObsNow == LET valid == Sorted({e \in DOMAIN h.inv : Valid(h, e)}) IN
  [op |-> "obs", x |-> "ok", n |-> h.size, b |-> h.size = 0, cap |-> Cap,
   pk |-> IF h.size = 0 THEN -8 ELSE h.tree[0], dk |-> h.dk, dv |-> h.dv, valid |-> valid, fe |-> valid,
   ks |-> [i \in 1..Cap |-> h.keys[i - 1]], vs |-> [i \in 1..Cap |-> h.vals[i - 1]],
   vd |-> [i \in 1..(Cap + 3) |-> IF i <= 3 THEN 1 ELSE h.vals[i - 4]],
   ff |-> [k \in 1..K |-> First(k - 1)], ck |-> [k \in 1..K |-> First(k - 1) # -1]]
Observable == ObsOk(abs, ObsNow) /\ Ok(abs, [op |-> "reach", ks |-> h.keys, vs |-> h.vals])
SoundAbs == Sound(abs)
\* the tree and its inverse are permutations of the entries in use, in heap order
Structure ==
  /\ \A i \in 0..(h.size + h.freeCount - 1) : h.inv[h.tree[i]] = i
  /\ {h.tree[i] : i \in 0..(h.size + h.freeCount - 1)} = 0..(h.size + h.freeCount - 1)
  /\ \A i \in 1..(h.size - 1) : ~Less(h, h.keys[h.tree[i]], h.keys[h.tree[(i - 1) \div 2]])

EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
