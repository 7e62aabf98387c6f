-------------------------------- MODULE Bulk --------------------------------
(* Indexed sets and maps, heaps and relations through histories of many      *)
(* calls: the same contract as IndexedMap, Heap and Relation, about ranges   *)
(* of keys.  One event is a call for every key of a range; what the calls    *)
(* returned is recorded as affine pieces                                     *)
(*    [k, n, y, d]:   key k + i  |->  y + d * i    for i in 0 .. n-1          *)
(* so that a collection of half a million keys is a handful of pieces.       *)
(* BulkMC checks that it says what IndexedMap and Heap say call by call.     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
CONSTANT Judge

Owner == [set  |-> [mem |-> {"P01"}, bind |-> {"P02"}, alloc |-> {"P03"}, rsv |-> {"P03"}, val |-> {"P04"}, walk |-> {"P05"}, ord |-> {}, nav |-> {}, cap |-> {"P32"}, work |-> {"P34"}],
          map  |-> [mem |-> {"P01"}, bind |-> {"P02"}, alloc |-> {"P03"}, rsv |-> {"P03"}, val |-> {"P04"}, walk |-> {"P05"}, ord |-> {}, nav |-> {}, cap |-> {"P32"}, work |-> {"P34"}],
          heap |-> [mem |-> {"P09"}, bind |-> {"P10"}, alloc |-> {"P10"}, rsv |-> {}, val |-> {"P11"}, walk |-> {"P10"}, ord |-> {"P09"}, nav |-> {}, cap |-> {}, work |-> {"P34"}],
          rel  |-> [mem |-> {"P17"}, bind |-> {"P17"}, alloc |-> {}, rsv |-> {"P17"}, val |-> {}, walk |-> {"P17"}, ord |-> {}, nav |-> {"P18"}, cap |-> {}, work |-> {}]]

\* seg: pieces key |-> entry of the present keys; val: pieces key |-> value rank (modulo m) of the same keys;
\* free: intervals of released entries; rsv, rval: the same for reserved keys; nxt: entries from here on were never used;
\* cap: the capacity of a set or map (0: not looked at), lf: its load factor in thousandths
\* a relation's key is W * (one side) + (other side)
Blank == [kind |-> "set", m |-> 1, w |-> 1, desc |-> FALSE, cnt |-> FALSE, cap |-> 0, lf |-> 0, seg |-> {}, val |-> {}, free |-> {}, rsv |-> {}, rval |-> {},
          nxt |-> 0, tags |-> {}]
Init0 == <<Blank, Blank>>
J(c, what, cond) == ((Owner[c.kind][what] \cup c.tags) \cap Judge # {}) => cond

-----------------------------------------------------------------------------
(* pieces and intervals *)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
End(p) == p.k + p.n - 1
Last(p) == p.y + p.d * (p.n - 1)
Clip(p, lo, hi) == LET a == Max2(p.k, lo) b == Min2(End(p), hi)
                   IN [k |-> a, n |-> b - a + 1, y |-> p.y + p.d * (a - p.k), d |-> p.d]
Meets(p, lo, hi) == p.k <= hi /\ lo <= End(p)
Within(ps, lo, hi) == {Clip(p, lo, hi) : p \in {q \in ps : Meets(q, lo, hi)}}
Without(ps, lo, hi) == {p \in ps : ~Meets(p, lo, hi)}
                       \cup {Clip(p, p.k, lo - 1) : p \in {q \in ps : Meets(q, lo, hi) /\ q.k < lo}}
                       \cup {Clip(p, hi + 1, End(p)) : p \in {q \in ps : Meets(q, lo, hi) /\ End(q) > hi}}
Count(ps) == MapThenSumSet(LAMBDA p : p.n, ps)
Has(ps, k) == \E p \in ps : p.k <= k /\ k <= End(p)
Lowest(ps) == CHOOSE k \in {p.k : p \in ps} : \A p \in ps : k <= p.k
Highest(ps) == CHOOSE k \in {End(p) : p \in ps} : \A p \in ps : End(p) <= k
Image(p) == [a |-> Min2(p.y, Last(p)), b |-> Max2(p.y, Last(p))]
Images(ps) == {Image(p) : p \in ps}
Keys(ps) == {[a |-> p.k, b |-> End(p)] : p \in ps}
Size(is) == MapThenSumSet(LAMBDA i : i.b - i.a + 1, is)
Common(i, is) == MapThenSumSet(LAMBDA j : IF j.a <= i.b /\ i.a <= j.b THEN Min2(i.b, j.b) - Max2(i.a, j.a) + 1 ELSE 0, is)
Inside(i, is) == Common(i, is) = i.b - i.a + 1
Apart(i, is) == Common(i, is) = 0
SameSet(is, js) == Size(is) = Size(js) /\ \A i \in is : Inside(i, js)   \* both of disjoint intervals
Less(is, i) == {j \in is : j.b < i.a \/ i.b < j.a}
               \cup {[a |-> j.a, b |-> i.a - 1] : j \in {x \in is : x.a < i.a /\ i.a <= x.b}}
               \cup {[a |-> i.b + 1, b |-> j.b] : j \in {x \in is : x.a <= i.b /\ i.b < x.b}}
LessAll(is, js) == LET RECURSIVE F(_, _)
                       F(a, b) == IF b = {} THEN a ELSE LET x == CHOOSE y \in b : TRUE IN F(Less(a, x), b \ {x})
                   IN F(is, js)
\* does the recorded piece p state what the pieces ps say of its keys?
Agrees(ps, p) ==
  LET c == Within(ps, p.k, End(p)) IN
  /\ Count(c) = p.n
  /\ \A q \in c : q.y = p.y + p.d * (q.k - p.k) /\ (q.n = 1 \/ q.d = p.d)
AgreesMod(ps, p, m) ==
  LET c == Within(ps, p.k, End(p)) IN
  /\ Count(c) = p.n
  /\ \A q \in c : (q.y - p.y - p.d * (q.k - p.k)) % m = 0 /\ (q.n = 1 \/ (q.d - p.d) % m = 0)
\* a piece recorded in the order of the calls, dk = -1 if the keys descend, by ascending keys
Up(p, dk) == IF dk = 1 THEN [k |-> p.k, n |-> p.n, y |-> p.y, d |-> p.d]
             ELSE [k |-> p.k - p.n + 1, n |-> p.n, y |-> p.y + p.d * (p.n - 1), d |-> -p.d]
Live(c) == Images(c.seg)
Free(c) == Size(c.free)
Shift(p, s) == [p EXCEPT !.k = @ + s]

-----------------------------------------------------------------------------
(* n new keys, which were given the entries of piece p (in the order of the calls) *)
Allotted(c, p) ==
  LET i == Image(p)
      f == Min2(Free(c), p.n)
      fst == Image([p EXCEPT !.n = f])
  IN /\ J(c, "bind", (p.n = 1 \/ p.d \in {-1, 1}) /\ Apart(i, Live(c)))
     /\ J(c, "mem", i.a >= 0)
     /\ J(c, "rsv", Apart(i, Images(c.rsv)))
     /\ J(c, "alloc", /\ f > 0 => Inside(fst, c.free)
                      /\ f < p.n => p.y + p.d * f = c.nxt /\ (p.n - f = 1 \/ p.d = 1))
\* keys take the entries y, y + d, ..: the table doubles with each that is beyond its load
Load(cap, lf) == (cap \div 1000) * lf + ((cap % 1000) * lf) \div 1000
RECURSIVE Grown(_, _, _, _, _)
Grown(cap, lf, y, d, n) ==
  LET th == Load(cap, lf)
      i == IF y >= th THEN 0 ELSE IF d <= 0 THEN n ELSE (th - y + d - 1) \div d   \* the first of them
  IN IF i >= n THEN cap ELSE Grown(2 * cap, lf, y + d * (i + 1), d, n - i - 1)
Taken(c, p, u) == [c EXCEPT !.seg = @ \cup {u}, !.free = Less(@, Image(p)), !.nxt = Max2(@, Image(p).b + 1),
                            !.cap = IF c.cap = 0 THEN 0 ELSE Grown(c.cap, c.lf, p.y, p.d, p.n)]

\* pieces of add, put, insert: [k, n, y, d, g] with g: the size grew
RECURSIVE AddOk(_, _, _), AddNxt(_, _, _)
AddOk(c, ps, dk) ==
  IF ps = <<>> THEN TRUE
  ELSE LET p == Head(ps) u == Up(p, dk) IN
       /\ J(c, "mem", Count(Within(c.seg, u.k, End(u))) = IF p.g THEN 0 ELSE p.n)
       /\ p.g => Allotted(c, p)
       /\ ~p.g => J(c, "bind", Agrees(c.seg, u))
       /\ AddOk(IF p.g THEN Taken(c, p, u) ELSE c, Tail(ps), dk)
AddNxt(c, ps, dk) ==
  IF ps = <<>> THEN c
  ELSE LET p == Head(ps) u == Up(p, dk) IN AddNxt(IF p.g THEN Taken(c, p, u) ELSE c, Tail(ps), dk)
New(ps, dk) == {Up(ps[i], dk) : i \in {j \in DOMAIN ps : ps[j].g}}
\* the range of a call, by ascending keys, as a piece of values: value (v + i * vd) % m in the i-th call
Span(ev) == [k |-> IF ev.dk = 1 THEN ev.lo ELSE ev.lo - ev.n + 1, n |-> ev.n,
              y |-> IF ev.dk = 1 THEN ev.v ELSE ev.v + ev.vd * (ev.n - 1), d |-> ev.dk * ev.vd]
Lo(ev) == Span(ev).k
Hi(ev) == End(Span(ev))
Valued(c, ps) == [c EXCEPT !.val = (LET RECURSIVE F(_, _)
                                        F(v, q) == IF q = {} THEN v
                                                   ELSE LET x == CHOOSE y \in q : TRUE IN F(Without(v, x.k, End(x)) \cup {x}, q \ {x})
                                    IN F(c.val, ps))]
Defaults(ps) == {[k |-> p.k, n |-> p.n, y |-> 0, d |-> 0] : p \in ps}

RemOk(c, ev) ==
  \A i \in DOMAIN ev.ps :
    LET p == ev.ps[i] u == Up(p, ev.dk) IN
    /\ J(c, "mem", Count(Within(c.seg, u.k, End(u))) = IF p.g THEN p.n ELSE 0)
    /\ J(c, "mem", ~p.g => p.y = -1 /\ (p.n = 1 \/ p.d = 0))
    /\ p.g => J(c, "bind", Agrees(c.seg, u))
Gone(c, lo, hi) == [c EXCEPT !.seg = Without(@, lo, hi), !.val = Without(@, lo, hi),
                             !.free = @ \cup Images(Within(c.seg, lo, hi))]

\* a description that was cut short (of something that has no short one) is the last of its history
SetOf(s) == {s[i] : i \in DOMAIN s}
Cut(ev) == "cut" \in DOMAIN ev
Covered(ev, ps, n) == Cut(ev) \/ MapThenSumSet(LAMBDA i : ps[i].n, DOMAIN ps) = n
\* how often rank r is among the values of a piece
Times(p, r, m) ==
  LET z == IF p.d % m = 0 THEN 0 ELSE p.d IN
  IF z = 0 THEN (IF (p.y - r) % m = 0 THEN p.n ELSE 0)
  ELSE LET i0 == IF z = 1 THEN (r - p.y) % m ELSE (p.y - r) % m
       IN IF i0 >= p.n THEN 0 ELSE (p.n - 1 - i0) \div m + 1

\* the intervals of a recorded walk
Shows(ev, l, is) == IF Cut(ev) THEN \A i \in DOMAIN l : Inside(l[i], is) ELSE SameSet(SetOf(l), is)

LookOk(c, ev) ==
  /\ J(c, "mem", ev.sz = Count(c.seg) /\ ev.b = (ev.sz = 0))
  /\ c.cap > 0 => J(c, "cap", ev.cap = c.cap)
  /\ Covered(ev, ev.ps, ev.n)
  /\ \A i \in DOMAIN ev.ps :
       LET p == ev.ps[i] u == [k |-> p.k, n |-> p.n, y |-> p.y, d |-> p.d] IN
       /\ J(c, "mem", Count(Within(c.seg, p.k, End(p))) = IF p.g THEN p.n ELSE 0)
       /\ J(c, "mem", ~p.g => p.y = -1 /\ (p.n = 1 \/ p.d = 0))
       /\ p.g => J(c, "bind", Agrees(c.seg, u))
  \* the key at the entry of each of them, and the value by key and by entry
  /\ J(c, "bind", Covered(ev, ev.ks, Count(Within(c.seg, ev.lo, ev.lo + ev.n - 1))))
  /\ \A i \in DOMAIN ev.ks : J(c, "bind", ev.ks[i].y = ev.ks[i].k /\ (ev.ks[i].n = 1 \/ ev.ks[i].d = 1))
  /\ \A vs \in {ev.vs, ev.ws} :
       vs # <<>> => /\ J(c, "val", Covered(ev, vs, Count(Within(c.seg, ev.lo, ev.lo + ev.n - 1))))
                    /\ \A i \in DOMAIN vs : J(c, "val", AgreesMod(c.val, vs[i], c.m))

\* peek, key, value, removeAt, over and over; pieces [k, n, kd, y, d] with kd the step of the keys
RECURSIVE PopOk(_, _), PopNxt(_, _)
PopOk(c, ps) ==
  IF ps = <<>> THEN TRUE
  ELSE LET p == Head(ps) dk == IF c.desc THEN -1 ELSE 1 u == Up(p, p.kd) IN
       /\ J(c, "ord", /\ p.n = 1 \/ p.kd = dk
                      /\ Count(Within(c.seg, u.k, End(u))) = p.n
                      /\ p.k = IF c.desc THEN Highest(c.seg) ELSE Lowest(c.seg))
       /\ J(c, "bind", Agrees(c.seg, u))
       /\ PopOk(Gone(c, u.k, End(u)), Tail(ps))
PopNxt(c, ps) ==
  IF ps = <<>> THEN c
  ELSE LET u == Up(Head(ps), Head(ps).kd) IN PopNxt(Gone(c, u.k, End(u)), Tail(ps))
Popped(ps) == MapThenSumSet(LAMBDA i : ps[i].n, DOMAIN ps)

\* w: how often at most one of the calls asked the order, or the equality, of the keys;
\* hw: how often all of them together asked for the hash of a key, which is the key itself:
\* a table has at least as many places as entries, so that each run of keys puts hardly more than one in a place
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)
Steps(n) == 4 * (Lg(n) + 2)
Runs(ps) == Cardinality({k \in {p.k : p \in ps} : ~\E p \in ps : End(p) + 1 = k})
WorkOk(c, ev) ==
  LET n == Count(c.seg) IN
  CASE ev.op = "walk" -> c.kind = "heap" /\ ev.rn = 0 => ev.w = 0
    [] ev.op \in {"new", "vals", "robs", "frs", "has", "cpy"} -> TRUE
    [] c.kind = "heap" ->
         ev.far = 0 /\   \* comparisons in peek
         (CASE ev.op = "cmp" -> ev.w <= n * Steps(n)
            [] ev.op \in {"add", "put"} -> ev.w <= Steps(n + ev.n)
            [] ev.op \in {"rat", "rst", "pop"} -> ev.w <= Steps(n)
            [] OTHER -> ev.w = 0)
    [] ev.op = "clr" -> ev.w = 0 /\ ev.hw = 0
    [] OTHER -> /\ ev.far = 0   \* of the comparisons, those of keys that do not share a place
                /\ ev.w <= 2 * (Runs(c.seg) + 2)
                /\ ev.hw <= 4 * ev.n + 16 + (IF ev.op \in {"add", "put"} THEN 4 * (c.nxt + ev.n) ELSE 0)

Told(S, ev) ==
  LET c == S[ev.o + 1]
      x == J(c, "mem", ev.x = "ok") IN
  CASE ev.op = "new" -> ("P32" \in Judge /\ ev.cap > 0) => ev.cap >= ev.c /\ \E p \in 0..30 : ev.cap = 2 ^ p /\ (p > 0 => 2 ^ (p - 1) < ev.c)
    [] ev.op \in {"add", "put"} -> x /\ Covered(ev, ev.ps, ev.n) /\ AddOk(c, ev.ps, ev.dk)
    [] ev.op \in {"rem", "rat", "rsv"} -> x /\ Covered(ev, ev.ps, ev.n) /\ RemOk(c, ev)
    [] ev.op = "pva" -> J(c, "val", ev.x = "ok")
    [] ev.op = "frs" -> J(c, "rsv", ev.x = "ok")
    [] ev.op = "robs" ->   \* the keys and values at the reserved entries
         /\ J(c, "rsv", ev.x = "ok" /\ Covered(ev, ev.ps, Count(c.rsv)))
         /\ \A i \in DOMAIN ev.ps : J(c, "rsv", Agrees(c.rsv, Up(ev.ps[i], ev.ps[i].kd)))
         /\ \A i \in DOMAIN ev.vs : J(c, "rsv", AgreesMod(c.rval, Up(ev.vs[i], ev.vs[i].kd), c.m))
    [] ev.op = "look" -> x /\ LookOk(c, ev)
    [] ev.op = "has" -> J(c, "mem", ev.x = "ok" /\ ev.b = Has(c.seg, ev.k))
    [] ev.op = "walk" ->
         J(c, "walk", /\ ev.x = "ok" /\ ev.n = Count(c.seg)
                      /\ Shows(ev, ev.is, IF ev.how \in {"fek"} THEN Keys(c.seg) ELSE Live(c)))
    [] ev.op = "vals" ->
         J(c, "walk", ev.x = "ok" /\ \A r \in 0..(c.m - 1) :
                                       ev.h[r + 1] = MapThenSumSet(LAMBDA p : Times(p, r, c.m), c.val))
    [] ev.op = "clr" -> x
    [] ev.op = "cpy" -> (("P07" \in Judge) => ev.x = "ok")
    [] ev.op = "pop" ->
         /\ J(c, "ord", ev.k = Min2(ev.n, Count(c.seg)) /\ ev.x = (IF ev.k = ev.n THEN "ok" ELSE "EMPTY") /\ (Cut(ev) \/ Popped(ev.ps) = ev.k))
         /\ PopOk(c, ev.ps)
         /\ J(c, "val", Cut(ev) \/ Popped(ev.vs) = Popped(ev.ps))
         /\ \A i \in DOMAIN ev.vs : J(c, "val", AgreesMod(c.val, Up(ev.vs[i], ev.vs[i].kd), c.m))
    [] ev.op \in {"rst", "cmp"} -> J(c, "ord", ev.x = "ok")
    [] ev.op = "nav" ->   \* the partners of one key: a range of the other side, and their entries
         LET in == Within(c.seg, ev.a * c.w, ev.a * c.w + c.w - 1) IN
         J(c, "nav", /\ ev.x = "ok" /\ ev.n = Count(in) /\ ev.en = Count(in)
                     /\ Shows(ev, [j \in DOMAIN ev.is |-> [a |-> ev.a * c.w + ev.is[j].a, b |-> ev.a * c.w + ev.is[j].b]], Keys(in))
                     /\ Shows(ev, ev.es, Images(in))
                     /\ c.cnt => ev.cn = Count(in))
    [] ev.op = "nav2" ->   \* the partners of one key of the ranged side, listed one by one
         J(c, "nav", /\ ev.x = "ok" /\ Len(ev.l) = Cardinality(SetOf(ev.l))
                     /\ SetOf(ev.l) = {a \in 0..ev.top : Has(c.seg, a * c.w + ev.k)}
                     /\ c.cnt => ev.cn = Len(ev.l))
    [] OTHER -> FALSE

Worked(c, ev) == ("hw" \in DOMAIN ev) => J(c, "work", WorkOk(c, ev))
Ok(S, ev) == Worked(S[ev.o + 1], ev) /\ Told(S, ev)

Nxt(S, ev) ==
  LET c == S[ev.o + 1]
      Is(d) == [S EXCEPT ![ev.o + 1] = d] IN
  CASE ev.op = "new" -> Is([Blank EXCEPT !.kind = ev.kind, !.m = ev.m, !.w = ev.w, !.cnt = ev.cnt, !.cap = ev.cap, !.lf = ev.lf,
                                         !.tags = IF ev.custom THEN {"P08"} ELSE {}])
    [] ev.op = "add" -> LET d == AddNxt(c, ev.ps, ev.dk) IN
                        Is([d EXCEPT !.val = IF c.m > 1 THEN @ \cup Defaults(New(ev.ps, ev.dk)) ELSE @])
    [] ev.op = "put" -> LET d == AddNxt(c, ev.ps, ev.dk) IN Is(IF c.m > 1 THEN Valued(d, {Span(ev)}) ELSE d)
    [] ev.op = "pva" -> Is(Valued(c, {[p EXCEPT !.y = Span(ev).y + Span(ev).d * (p.k - Lo(ev)), !.d = Span(ev).d]
                                      : p \in Within(c.seg, Lo(ev), Hi(ev))}))
    [] ev.op \in {"rem", "rat"} -> Is(Gone(c, Lo(ev), Hi(ev)))
    [] ev.op = "rsv" -> Is([Gone(c, Lo(ev), Hi(ev)) EXCEPT !.free = c.free, !.rsv = c.rsv \cup Within(c.seg, Lo(ev), Hi(ev)),
                                                           !.rval = c.rval \cup Within(c.val, Lo(ev), Hi(ev))])
    [] ev.op = "frs" -> Is([c EXCEPT !.free = @ \cup Images(c.rsv), !.rsv = {}, !.rval = {}])
    [] ev.op = "walk" -> Is(IF ev.rn > 0 THEN Gone(c, ev.rlo, ev.rlo + ev.rn - 1) ELSE c)
    [] ev.op = "clr" -> Is([c EXCEPT !.seg = {}, !.val = {}, !.free = {}, !.rsv = {}, !.rval = {}, !.nxt = 0])
    [] ev.op = "cpy" -> LET f == S[ev.from + 1] t == f.tags \cup c.tags \cup {"P07"} IN
                        [S EXCEPT ![ev.o + 1] = [f EXCEPT !.tags = t, !.cap = Max2(c.cap, f.cap)], ![ev.from + 1].tags = @ \cup {"P07"}]
    [] ev.op = "pop" -> Is(PopNxt(c, ev.ps))
    [] ev.op = "rst" -> LET s == ev.to - ev.lo IN
                        Is([c EXCEPT !.seg = Without(@, ev.lo, ev.lo + ev.n - 1) \cup {Shift(p, s) : p \in Within(@, ev.lo, ev.lo + ev.n - 1)},
                                     !.val = Without(@, ev.lo, ev.lo + ev.n - 1) \cup {Shift(p, s) : p \in Within(@, ev.lo, ev.lo + ev.n - 1)}])
    [] ev.op = "cmp" -> Is([c EXCEPT !.desc = ev.b])
    [] OTHER -> S
=============================================================================
