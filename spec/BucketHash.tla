----------------------------- MODULE BucketHash -----------------------------
(***************************************************************************)
(* The indexed sets and maps as they are implemented: buckets of entries    *)
(* chained through nexts, a free list threaded through the same array, a    *)
(* high-water mark of used buckets, growth at a threshold, copyFrom between  *)
(* tables of different sizes, and the fail-fast iterator.                   *)
(*                                                                          *)
(* Every step carries the call it makes in ev; the same Ok and Nxt that     *)
(* judge recorded traces of the real classes judge it (Refines), and in     *)
(* every state everything observable agrees with the abstract state         *)
(* (Observable).  Transitions are printed for the scenario generator.       *)
(***************************************************************************)
EXTENDS IndexedMap, TLCExt

CONSTANTS NObj,    \* number of collections, 1 or 2
          K,       \* keys 0..K-1
          Cap0, Cap1, \* initial capacities
          LFn, LFd,\* load factor LFn / LFd
          HMul,    \* hash of key k is k * HMul
          NVal,    \* values 0..NVal-1; 0 means a set
          MaxRsv,  \* reserved entries at a time
          Feat,    \* optional calls: "it", "clr", "cpy", "each", "bad"
          Emit     \* print the transitions

VARIABLES h, it, abs, ev, tok
vars == <<h, it, abs, ev, tok>>
View == <<h, it, abs>>

Objs == 0..(NObj - 1)
Keys == 0..(K - 1)
Arr(n, v) == [i \in 0..(n - 1) |-> v]
Size(f) == Cardinality(DOMAIN f)
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Pow2(_, _)
Pow2(n, p) == IF p >= n THEN p ELSE Pow2(n, 2 * p)

NewHash(cap0) ==
  LET cap == Pow2(cap0, 1) IN
  [cap |-> cap, thr |-> (cap * LFn) \div LFd, heads |-> Arr(cap, -1), nexts |-> Arr(cap, -1),
   keys |-> Arr(cap, 0), vals |-> IF NVal = 0 THEN <<>> ELSE Arr(cap, 0),
   size |-> 0, free |-> -1, nxt |-> 0, maxHead |-> 0]

HeadOf(c, k) == (k * HMul) % Size(c.heads)

RECURSIVE Chain(_, _)
Chain(c, e) == IF e < 0 THEN <<>> ELSE <<e>> \o Chain(c, c.nexts[e])

RECURSIVE Find(_, _, _)
Find(c, e, k) == IF e < 0 THEN -1 ELSE IF c.keys[e] = k THEN e ELSE Find(c, c.nexts[e], k)
Lookup(c, k) == Find(c, c.heads[HeadOf(c, k)], k)

RECURSIVE PrevOf(_, _, _, _)
PrevOf(c, e, target, prev) ==  \* predecessor of target in the chain, -1 at the head, -2 if absent
  IF e < 0 THEN -2 ELSE IF e = target THEN prev ELSE PrevOf(c, c.nexts[e], target, e)

\* registerNewEntryForHead
Register(c, hd, e) ==
  [c EXCEPT !.nexts = [@ EXCEPT ![e] = IF c.heads[hd] >= 0 THEN c.heads[hd] ELSE -hd - 1],
            !.heads = [@ EXCEPT ![hd] = e]]
Mark(c, hd) == [c EXCEPT !.maxHead = Max2(@, hd)]

RECURSIVE Relink(_, _, _)
Relink(c, old, e) ==   \* one old bucket, following the old links
  IF e < 0 THEN c
  ELSE LET hd == HeadOf(c, old.keys[e]) IN Relink(Mark(Register(c, hd, e), hd), old, old.nexts[e])
RECURSIVE RelinkAll(_, _, _, _)
RelinkAll(c, old, i, n) == IF i >= n THEN c ELSE RelinkAll(Relink(c, old, old.heads[i]), old, i + 1, n)

Extend(f, n, v) == [i \in 0..(Max2(Size(f), n) - 1) |-> IF i \in DOMAIN f THEN f[i] ELSE v]

Rehash(c) ==
  LET cap == 2 * c.cap
      grown == [c EXCEPT !.cap = cap, !.thr = (cap * LFn) \div LFd, !.heads = Arr(cap, -1),
                         !.nexts = [i \in 0..(cap - 1) |-> IF i \in DOMAIN c.nexts THEN c.nexts[i] ELSE -1],
                         !.keys = Extend(c.keys, cap, 0),
                         !.vals = IF NVal = 0 THEN <<>> ELSE Extend(c.vals, cap, 0),
                         !.maxHead = 0]
  IN RelinkAll(grown, c, 0, Min2(c.maxHead + 1, Size(c.heads)))

Adding(c, k) ==  \* of an absent key: <<table, entry>>
  LET e == IF c.free # -1 THEN c.free ELSE c.nxt
      c1 == IF c.free # -1 THEN [c EXCEPT !.free = c.nexts[e]] ELSE [c EXCEPT !.nxt = @ + 1]
      c2 == IF e >= c1.thr THEN Rehash(c1) ELSE c1
      hd == HeadOf(c2, k)
      c3 == Register(c2, hd, e)
  IN <<[Mark(c3, hd) EXCEPT !.keys = [@ EXCEPT ![e] = k],
                            !.vals = IF NVal = 0 THEN <<>> ELSE [@ EXCEPT ![e] = 0],
                            !.size = @ + 1], e>>

Release(c, e) ==   \* freeReservedEntry
  [c EXCEPT !.nexts = [@ EXCEPT ![e] = c.free], !.free = e,
            !.keys = [@ EXCEPT ![e] = 0],
            !.vals = IF NVal = 0 THEN <<>> ELSE [@ EXCEPT ![e] = 0]]

Unlink(c, hd, e) ==
  LET prev == PrevOf(c, c.heads[hd], e, -1) IN
  IF prev < 0 THEN [c EXCEPT !.heads = [@ EXCEPT ![hd] = c.nexts[e]]]
              ELSE [c EXCEPT !.nexts = [@ EXCEPT ![prev] = c.nexts[e]]]

Removed(c, e) == [Release(Unlink(c, HeadOf(c, c.keys[e]), e), e) EXCEPT !.size = @ - 1]

RECURSIVE EndOf(_, _)
EndOf(c, e) == IF e < 0 THEN -e - 1 ELSE EndOf(c, c.nexts[e])

\* removeAt finds the bucket from the end of the chain
RemovedAt(c, e) ==
  LET hd == EndOf(c, e) IN
  IF PrevOf(c, c.heads[hd], e, -1) = -2 THEN c
  ELSE [Release(Unlink(c, hd, e), e) EXCEPT !.size = @ - 1]

ReservedAt(c, e) ==
  LET u == Unlink(c, HeadOf(c, c.keys[e]), e) IN
  [u EXCEPT !.nexts = [@ EXCEPT ![e] = -1], !.size = @ - 1]

Emptied(c) ==
  LET upto(f, n, v) == [i \in DOMAIN f |-> IF i < n THEN v ELSE f[i]] IN
  [c EXCEPT !.heads = IF c.nxt > 0 THEN upto(c.heads, c.maxHead + 1, -1) ELSE @,
            !.nexts = upto(c.nexts, c.nxt, -1), !.keys = upto(c.keys, c.nxt, 0),
            !.vals = upto(c.vals, c.nxt, 0), !.size = 0, !.nxt = 0, !.free = -1, !.maxHead = 0]

Copied(t, s) ==   \* the target keeps its arrays where they are large enough
  LET over(tf, sf, v) == [i \in 0..(Max2(Size(tf), Size(sf)) - 1) |-> IF i \in DOMAIN sf THEN sf[i] ELSE v]
      keys == over(t.keys, s.keys, 0)
  IN [cap |-> Size(keys), thr |-> (Size(keys) * LFn) \div LFd, heads |-> s.heads,
      nexts |-> over(t.nexts, s.nexts, -1), keys |-> keys,
      vals |-> IF NVal = 0 THEN <<>> ELSE over(t.vals, s.vals, 0),
      size |-> s.size, free |-> s.free, nxt |-> s.nxt, maxHead |-> s.maxHead]

LiveOf(c) == UNION {Range(Chain(c, c.heads[i])) : i \in DOMAIN c.heads}
RsvOf(o) == abs.cs[o + 1].rsv

RECURSIVE Sorted(_)   \* the members of a set of integers in order
Sorted(s) == IF s = {} THEN <<>>
          ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})

-----------------------------------------------------------------------------
NoIter == [on |-> FALSE, o |-> 0, head |-> -1, entry |-> -1, prev |-> -1, next |-> -1,
           init |-> FALSE, removed |-> FALSE, stale |-> FALSE]

Step(o, c, e, t) ==
  /\ h' = [h EXCEPT ![o] = c]
  /\ ev' = e /\ tok' = t
  /\ abs' = Nxt(abs, e)

\* a modification other than through the iterator
Outside(o) == it' = IF it.on /\ it.o = o THEN [it EXCEPT !.stale = TRUE] ELSE it
Same == it' = it

Add(o, k) ==
  LET f == Lookup(h[o], k)
      r == IF f >= 0 THEN <<h[o], f>> ELSE Adding(h[o], k)
  IN /\ Step(o, r[1], [op |-> "add", o |-> o, k |-> k, e |-> r[2], x |-> "ok"], <<"add", o, k>>)
     /\ IF f >= 0 THEN Same ELSE Outside(o)

Put_(o, k, v) ==
  LET f == Lookup(h[o], k)
      r == IF f >= 0 THEN <<h[o], f>> ELSE Adding(h[o], k)
      c == [r[1] EXCEPT !.vals = [@ EXCEPT ![r[2]] = v]]
  IN /\ NVal > 0
     /\ Step(o, c, [op |-> "put", o |-> o, k |-> k, v |-> v, e |-> r[2], x |-> "ok"], <<"put", o, k, v>>)
     /\ IF f >= 0 THEN Same ELSE Outside(o)

Rem(o, k) ==
  LET f == Lookup(h[o], k) IN
  /\ Step(o, IF f >= 0 THEN Removed(h[o], f) ELSE h[o],
          [op |-> "rem", o |-> o, k |-> k, e |-> f, x |-> "ok"], <<"rem", o, k>>)
  /\ IF f >= 0 THEN Outside(o) ELSE Same

RemAt(o, e) ==
  /\ e \in LiveOf(h[o])
  /\ Step(o, RemovedAt(h[o], e), [op |-> "rat", o |-> o, e |-> e, x |-> "ok"], <<"ratk", o, h[o].keys[e]>>)
  /\ Outside(o)

\* an entry that is not in use: nothing happens
RemAtUnused(o, e) ==
  /\ "bad" \in Feat
  /\ e \in DOMAIN h[o].nexts \ LiveOf(h[o])
  /\ Step(o, RemovedAt(h[o], e), [op |-> "rat", o |-> o, e |-> e, x |-> "ok"], <<"rate", o, e>>)
  /\ Same

Rsv(o, e) ==
  /\ Cardinality(RsvOf(o)) < MaxRsv
  /\ e \in LiveOf(h[o])
  /\ Step(o, ReservedAt(h[o], e), [op |-> "rsv", o |-> o, e |-> e, x |-> "ok"], <<"rsvk", o, h[o].keys[e]>>)
  /\ Outside(o)

RsvUnused(o, e) ==   \* the key at the entry is looked up first
  /\ "bad" \in Feat
  /\ e \in DOMAIN h[o].nexts \ LiveOf(h[o])
  /\ LET f == Lookup(h[o], h[o].keys[e]) IN
     Step(o, IF f = e THEN ReservedAt(h[o], e) ELSE h[o],
          [op |-> "rsv", o |-> o, e |-> e, x |-> "ok"], <<"rsve", o, e>>)
  /\ Same

Free(o, e) ==
  /\ e \in RsvOf(o)
  /\ Step(o, Release(h[o], e), [op |-> "frs", o |-> o, e |-> e, x |-> "ok"], <<"frse", o, e>>)
  /\ Same

Clear(o) ==
  /\ "clr" \in Feat
  /\ Step(o, Emptied(h[o]), [op |-> "clr", o |-> o, x |-> "ok"], <<"clr", o>>)
  /\ Outside(o)

Copy(o, p) ==
  /\ "cpy" \in Feat
  /\ Step(o, Copied(h[o], h[p]), [op |-> "cpy", o |-> o, p |-> p, x |-> "ok"], <<"cpy", o, p>>)
  /\ Outside(o)

\* a traversal that removes the entries with e % 2 = r
RECURSIVE RemovedAll(_, _)
RemovedAll(c, l) == IF l = <<>> THEN c ELSE RemovedAll(RemovedAt(c, Head(l)), Tail(l))
Each(o, r) ==
  /\ "each" \in Feat
  /\ h[o].size > 0
  /\ LET gone == {e \in LiveOf(h[o]) : e % 2 = r} IN
     /\ Step(o, RemovedAll(h[o], Sorted(gone)),
             [op |-> "fee", o |-> o, l |-> Sorted(LiveOf(h[o])), r |-> Sorted(gone), x |-> "ok"], <<"fee", o, 2, r>>)
     /\ IF gone = {} THEN Same ELSE Outside(o)

-----------------------------------------------------------------------------
(* the iterator *)

RECURSIVE NextHead(_, _)
NextHead(c, j) ==
  LET hd == j.head + 1 IN
  IF hd >= Size(c.heads) THEN [j EXCEPT !.head = hd, !.entry = -1, !.removed = FALSE]
  ELSE IF c.heads[hd] >= 0
       THEN [j EXCEPT !.head = hd, !.entry = c.heads[hd], !.prev = -1, !.next = c.nexts[c.heads[hd]],
                      !.removed = FALSE]
       ELSE NextHead(c, [j EXCEPT !.head = hd])

Advance(c, j) ==
  IF ~j.init THEN [NextHead(c, j) EXCEPT !.init = TRUE]
  ELSE IF j.next >= 0
       THEN [j EXCEPT !.prev = IF j.removed THEN j.prev ELSE j.entry,
                      !.entry = j.next, !.next = c.nexts[j.next], !.removed = FALSE]
       ELSE NextHead(c, j)

ItNew(o) ==
  /\ "it" \in Feat
  /\ Step(o, h[o], [op |-> "itn", s |-> 0, o |-> o, x |-> "ok"], <<"itn", 0, o, 0>>)
  /\ it' = [NoIter EXCEPT !.on = TRUE, !.o = o]

ItNextCall ==
  /\ it.on
  /\ LET j == Advance(h[it.o], it)
         e == IF it.stale THEN [op |-> "itx", s |-> 0, b |-> FALSE, e |-> -7, x |-> "CME"]
              ELSE [op |-> "itx", s |-> 0, b |-> j.entry >= 0,
                    e |-> IF j.entry >= 0 THEN j.entry ELSE -7, x |-> "ok"]
     IN /\ Step(it.o, h[it.o], e, <<"itx", 0>>)
        \* behind the end further calls change nothing that matters
        /\ it' = IF it.stale THEN it ELSE [j EXCEPT !.head = Min2(@, Size(h[it.o].heads))]

ItRemoveCall ==
  /\ it.on /\ it.entry >= 0
  /\ LET c == h[it.o]
         nx == c.nexts[it.entry]
         c1 == IF it.prev < 0 THEN [c EXCEPT !.heads = [@ EXCEPT ![it.head] = nx]]
                              ELSE [c EXCEPT !.nexts = [@ EXCEPT ![it.prev] = nx]]
         x == IF it.stale THEN "CME" ELSE IF it.removed THEN "ISE" ELSE "ok"
     IN /\ Step(it.o, IF x = "ok" THEN [Release(c1, it.entry) EXCEPT !.size = @ - 1] ELSE c,
                [op |-> "itr", s |-> 0, x |-> x], <<"itr", 0>>)
        /\ it' = IF x = "ok" THEN [it EXCEPT !.next = nx, !.removed = TRUE] ELSE it

-----------------------------------------------------------------------------
Init == /\ h = [o \in Objs |-> NewHash(IF o = 0 THEN Cap0 ELSE Cap1)]
        /\ it = NoIter
        /\ abs = [Init0 EXCEPT !.cs = <<Fresh(NVal > 0, Pow2(Cap0, 1), (1000 * LFn) \div LFd),
                                     Fresh(NVal > 0, Pow2(Cap1, 1), (1000 * LFn) \div LFd)>>]
        /\ ev = [op |-> "init"] /\ tok = <<>>

Next == \/ \E o \in Objs :
             \/ \E k \in Keys : Add(o, k) \/ Rem(o, k) \/ \E v \in 1..(NVal - 1) : Put_(o, k, v)
             \/ \E e \in DOMAIN h[o].nexts : RemAt(o, e) \/ RemAtUnused(o, e) \/ Rsv(o, e)
                                               \/ RsvUnused(o, e) \/ Free(o, e)
             \/ Clear(o) \/ (\E p \in Objs \ {o} : Copy(o, p)) \/ (\E r \in 0..1 : Each(o, r))
             \/ ItNew(o)
        \/ ItNextCall \/ ItRemoveCall
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Refines == [][Ok(abs, ev')]_vars
\* a refused call, or one with nothing to do, touches nothing at all
Inert == [][Idle(abs, ev') => UNCHANGED <<h, abs>>]_vars

ObsOf(c) ==
  LET lk == [k \in 1..K |-> Lookup(c, k - 1)]
      live == LiveOf(c)
      sum == Sorted(live)
  IN [op |-> "obs", x |-> "ok", n |-> c.size, b |-> c.size = 0, cap |-> c.cap,
      lk |-> lk, ck |-> [k \in 1..K |-> lk[k] # -1],
      ka |-> [k \in 1..K |-> IF lk[k] < 0 THEN -1 ELSE c.keys[lk[k]]],
      gv |-> [k \in 1..K |-> IF lk[k] < 0 \/ NVal = 0 THEN -1 ELSE c.vals[lk[k]]],
      gd |-> [k \in 1..K |-> IF lk[k] < 0 \/ NVal = 0 THEN 1 ELSE c.vals[lk[k]]],
      gx |-> [k \in 1..K |-> IF lk[k] < 0 \/ NVal = 0 THEN -1 ELSE c.vals[lk[k]]],
      fe |-> sum, it |-> sum, fk |-> [j \in DOMAIN sum |-> c.keys[sum[j]]],
      fv |-> [j \in DOMAIN sum |-> IF NVal = 0 THEN 0 ELSE c.vals[sum[j]]]]
Kept(f) == LET R == Range(f) \ {0} IN [v \in R |-> v]   \* blank places hold 0
Observable == \A o \in Objs : /\ ObsOk(abs.cs[o + 1], ObsOf(h[o]))
                              /\ Ok(abs, [op |-> "reach", o |-> o, ks |-> Kept(h[o].keys), vs |-> Kept(h[o].vals)])

\* the concrete structure: every unused place is blank, chains are disjoint and end in their bucket
Structure == \A o \in Objs :
  LET c == h[o] IN
  /\ \A i \in DOMAIN c.heads : c.heads[i] >= 0 =>
        /\ i <= c.maxHead
        /\ EndOf(c, c.heads[i]) = i
        /\ \A e \in Range(Chain(c, c.heads[i])) : HeadOf(c, c.keys[e]) = i
  /\ c.size = Cardinality(LiveOf(c))
  /\ \A e \in DOMAIN c.keys : e \notin LiveOf(c) \cup RsvOf(o) =>
        c.keys[e] = 0 /\ (NVal > 0 => c.vals[e] = 0)
  /\ (IF c.free < 0 THEN {} ELSE Range(Chain(c, c.free))) = abs.cs[o + 1].free
  /\ \A e \in LiveOf(c) : e < c.nxt /\ c.nxt <= c.cap
SoundAbs == \A o \in Objs : Sound(abs.cs[o + 1])

EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
