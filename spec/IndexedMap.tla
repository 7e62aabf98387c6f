----------------------------- MODULE IndexedMap -----------------------------
(***************************************************************************)
(* The indexed sets and maps of bytefacets/collections, at the level of     *)
(* their public API.                                                        *)
(*                                                                          *)
(* An event is one call with its arguments and everything it returned.      *)
(* Ok(S, ev) says whether the call may return that in state S, and          *)
(* Nxt(S, ev) is the state afterwards.  The same two operators judge the    *)
(* events of the concrete model (BucketHash.tla, a refinement check) and    *)
(* the events recorded from the real classes (IndexedMapTrace.tla).         *)
(*                                                                          *)
(* Judge selects the properties whose conjuncts are evaluated.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Judge

Identity == 1000   \* modulus of the default equality: every rank its own class

\* ent: key class -> entry, of the present keys;  ky, val: entry -> key rank,
\* value, of present and reserved entries;  free: released entries;
\* rsv: reserved entries;  nxt: entries from here on were never used;
\* m: keys k1, k2 are equal iff k1 % m = k2 % m;  tags: properties that own
\* everything observed on this object;  bad: the key that the hash function refuses, or -1
\* cap: the capacity, lf: the load factor in thousandths
Fresh(map, cap, lf) ==
  [map |-> map, ent |-> <<>>, ky |-> <<>>, val |-> <<>>, free |-> {}, rsv |-> {}, nxt |-> 0,
   m |-> Identity, bad |-> -1, cap |-> cap, lf |-> lf, tags |-> {}]

NoIt == [st |-> "none"]
Init0 == [cs |-> <<Fresh(FALSE, 1, 750), Fresh(FALSE, 1, 750)>>, its |-> [s \in 0..2 |-> NoIt]]

J(c, ps, cond) == ((ps \cup c.tags) \cap Judge # {}) => cond

Live(c) == {c.ent[k] : k \in DOMAIN c.ent}
Held(c) == Live(c) \cup c.rsv
Cls(c, k) == k % c.m
Has(c, k) == Cls(c, k) \in DOMAIN c.ent
Ent(c, k) == c.ent[Cls(c, k)]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Max2(a, b) == IF a > b THEN a ELSE b
Range(f) == {f[x] : x \in DOMAIN f}
Default == 0       \* every value palette has the type's default at rank 0

\* a sorted list that holds each member of set exactly once
Lists(l, set) == Len(l) = Cardinality(set) /\ Range(l) = set
\* a list with the same multiset of values as f over dom
Bag(l, f, dom) ==
  /\ Len(l) = Cardinality(dom)
  /\ \A v \in Range(l) : Cardinality({j \in DOMAIN l : l[j] = v})
                          = Cardinality({e \in dom : f[e] = v})

IsPow2(x) == \E p \in 0..30 : x = 2 ^ p
\* the smallest power of two that is at least n
Rounds(n, cap) == IsPow2(cap) /\ cap >= n /\ (cap = 1 \/ cap \div 2 < n)
\* a key takes entry e: the table doubles if that is beyond its load
Load(cap, lf) == (cap \div 1000) * lf + ((cap % 1000) * lf) \div 1000   \* of cap * lf \div 1000, within 32 bits
Grown(c, e) == IF e >= Load(c.cap, c.lf) THEN 2 * c.cap ELSE c.cap

-----------------------------------------------------------------------------
(* state functions *)

WithNew(c, k, e, v) ==
  [c EXCEPT !.ent = (Cls(c, k) :> e) @@ c.ent,
            !.ky = (e :> k) @@ c.ky,
            !.val = (e :> v) @@ c.val,
            !.free = c.free \ {e},
            !.cap = Grown(c, e),
            !.nxt = Max2(c.nxt, e + 1)]

WithoutEntry(c, e) ==   \* released
  [c EXCEPT !.ent = [k \in {k \in DOMAIN c.ent : c.ent[k] # e} |-> c.ent[k]],
            !.ky = Drop(c.ky, e),
            !.val = Drop(c.val, e),
            !.free = c.free \cup {e}]

RECURSIVE WithoutAll(_, _)
WithoutAll(c, es) == IF es = {} THEN c
                     ELSE LET e == CHOOSE e \in es : TRUE
                          IN WithoutAll(WithoutEntry(c, e), es \ {e})

Reserved(c, e) ==
  [c EXCEPT !.ent = [k \in {k \in DOMAIN c.ent : c.ent[k] # e} |-> c.ent[k]],
            !.rsv = c.rsv \cup {e}]

Freed(c, e) == [c EXCEPT !.rsv = c.rsv \ {e}, !.free = c.free \cup {e},
                         !.ky = Drop(c.ky, e), !.val = Drop(c.val, e)]

Cleared(c) == [c EXCEPT !.ent = <<>>, !.ky = <<>>, !.val = <<>>, !.free = {},
                        !.rsv = {}, !.nxt = 0]

\* iterators of object o, other than the one in slot s, see an outside change
Touch(its, o, s, how) ==
  [t \in DOMAIN its |->
     IF t # s /\ its[t].st # "none" /\ its[t].o = o
     THEN [its[t] EXCEPT !.stale = IF how = "maybe" /\ @ = "no" THEN "maybe"
                                   ELSE IF how = "maybe" THEN @ ELSE "yes"]
     ELSE its[t]]

Put(S, o, c) == [S EXCEPT !.cs[o + 1] = c]
Mod(S, o, c, s) == [cs |-> [S.cs EXCEPT ![o + 1] = c], its |-> Touch(S.its, o, s, "yes")]

-----------------------------------------------------------------------------
(* what a call may return *)

\* the entry e given to the new key
Allocation(c, e) ==
  /\ J(c, {"P01"}, e >= 0)
  /\ J(c, {"P02"}, e \notin Live(c))
  /\ J(c, {"P03"}, /\ e \notin Held(c)
                   /\ IF c.free # {} THEN e \in c.free ELSE e = c.nxt)

AddOk(c, ev) ==
  /\ J(c, {"P01", "P02", "P03", "P04"}, ev.x = "ok")
  /\ ev.x = "ok" =>
       IF Has(c, ev.k) THEN J(c, {"P01", "P02"}, ev.e = Ent(c, ev.k))
                       ELSE Allocation(c, ev.e)

\* the value an entry (present or reserved) shows
ValueIs(c, e, v) == v = c.val[e]

ItOk(S, ev) ==
  LET it == S.its[ev.s]
      c == S.cs[it.o + 1]
      left == Live(c) \ it.seen
  IN IF it.stale = "yes" THEN J(c, {"P06"}, ev.x = "CME")
     ELSE /\ J(c, {"P06"}, ev.x = "CME" => it.stale = "maybe")
          /\ J(c, {"P05"}, ev.x = "ok" \/ ev.x = "CME")
          /\ ev.x = "ok" =>
               J(c, {"P05"}, IF ev.b THEN ev.e \in left ELSE left = {})

ItNext(S, ev) ==
  LET it == S.its[ev.s] IN
  IF ev.x = "CME" THEN [S EXCEPT !.its[ev.s].stale = "yes"]
  ELSE IF ev.x # "ok" THEN S
  ELSE IF ev.b
       THEN [S EXCEPT !.its[ev.s] = [it EXCEPT !.st = "at", !.cur = ev.e,
                                              !.seen = it.seen \cup {ev.e}]]
       ELSE [S EXCEPT !.its[ev.s].st = "end"]

ItRemOk(S, ev) ==
  LET it == S.its[ev.s]
      c == S.cs[it.o + 1]
  IN IF it.stale = "yes" THEN J(c, {"P06"}, ev.x = "CME")
     ELSE IF ev.x = "CME" THEN J(c, {"P06"}, it.stale = "maybe")
     ELSE IF it.st = "removed" THEN J(c, {"P06"}, ev.x = "ISE")
     ELSE J(c, {"P05"}, ev.x = "ok")

ItRemNext(S, ev) ==
  LET it == S.its[ev.s]
      c == S.cs[it.o + 1]
  IN IF ev.x = "CME" THEN [S EXCEPT !.its[ev.s].stale = "yes"]
     ELSE IF ev.x # "ok" \/ it.st # "at" \/ it.cur \notin Live(c) THEN S
     ELSE LET T == Mod(S, it.o, WithoutEntry(c, it.cur), ev.s)
          IN [T EXCEPT !.its[ev.s].st = "removed"]

\* a whole traversal; l is what was visited, r the entries removed on the way
\* th: the consumer threw when it was given one more than th
Throws(ev, n) == "th" \in DOMAIN ev /\ ev.th < n
Some(l, set) == Len(l) = Cardinality(Range(l)) /\ Range(l) \subseteq set
ForEachOk(c, ev) ==
  IF Throws(ev, Cardinality(Live(c)))
  THEN /\ J(c, {"P05"}, ev.x = "BOOM" /\ Len(ev.l) = ev.th + 1)
       /\ J(c, {"P05"},
            CASE ev.op = "fee" -> Some(ev.l, Live(c))
              [] ev.op = "fek" -> Some([j \in DOMAIN ev.l |-> Cls(c, ev.l[j])], DOMAIN c.ent)
              [] ev.op = "fev" -> \A v \in Range(ev.l) : Cardinality({j \in DOMAIN ev.l : ev.l[j] = v})
                                                         <= Cardinality({e \in Live(c) : c.val[e] = v}))
       /\ J(c, {"P01", "P02", "P05"}, Range(ev.r) \subseteq Live(c))
  ELSE
  /\ J(c, {"P05"}, ev.x = "ok")
  /\ J(c, {"P05"},
       CASE ev.op \in {"fee", "itw"} -> Lists(ev.l, Live(c))
         [] ev.op = "fek" -> Lists([j \in DOMAIN ev.l |-> Cls(c, ev.l[j])], DOMAIN c.ent)
         [] ev.op = "fev" -> Bag(ev.l, c.val, Live(c)))
  /\ J(c, {"P01", "P02", "P05"}, Range(ev.r) \subseteq Live(c))

ObsOk(c, ev) ==
  LET K == DOMAIN ev.lk
      P(k) == Has(c, k - 1)
  IN
  /\ J(c, {"P01", "P02", "P03", "P04", "P05"}, ev.x = "ok")
  /\ ev.x = "ok" =>
     /\ J(c, {"P01"}, ev.n = Cardinality(DOMAIN c.ent) /\ ev.b = (ev.n = 0))
     /\ J(c, {"P29"}, ev.cap >= ev.n)
     /\ J(c, {"P32"}, ev.cap = c.cap)
     /\ J(c, {"P01"}, \A k \in K : ev.ck[k] = P(k) /\ (ev.lk[k] # -1) = P(k) /\ ev.lk[k] >= -1)
     /\ J(c, {"P02"}, \A k \in K : P(k) => ev.lk[k] = Ent(c, k - 1))
     /\ J(c, {"P02"}, \A k \in K : P(k) => ev.ka[k] >= 0 /\ Cls(c, ev.ka[k]) = Cls(c, k - 1))
     /\ c.map => J(c, {"P04"}, \A k \in K :
            IF P(k) THEN /\ ev.gv[k] = c.val[Ent(c, k - 1)]
                         /\ ev.gd[k] = c.val[Ent(c, k - 1)]
                         /\ ev.lk[k] = Ent(c, k - 1) => ev.gx[k] = c.val[Ent(c, k - 1)]
                    ELSE ev.gv[k] = -1 /\ ev.gd[k] = 1)
     /\ J(c, {"P05"}, Lists(ev.fe, Live(c)))
     /\ J(c, {"P05"}, Lists(ev.it, Live(c)))
     /\ J(c, {"P05"}, Lists([j \in DOMAIN ev.fk |-> Cls(c, ev.fk[j])], DOMAIN c.ent))
     /\ c.map => J(c, {"P05", "P04"}, Bag(ev.fv, c.val, Live(c)))

\* a call with the key that the hash function refuses
Refused(c, ev) == c.bad >= 0 /\ ev.op \in {"add", "put", "get", "getd", "rem", "ck", "lk"} /\ ev.k = c.bad

Unchanging == {"get", "getd", "va", "ka", "vd", "ck", "lk", "sz", "obs", "reach"}

Ok(S, ev) ==
  IF ev.op = "new" THEN ("P32" \in Judge) => Rounds(ev.c, ev.cap)
  ELSE IF ev.op = "itn" THEN J(S.cs[ev.o + 1], {"P05", "P06"}, ev.x = "ok")
  ELSE IF ev.op = "itx" THEN ItOk(S, ev)
  ELSE IF ev.op = "itr" THEN ItRemOk(S, ev)
  ELSE IF ev.op \in {"hang", "crash"} THEN FALSE
  ELSE
  LET c == S.cs[ev.o + 1] IN
  CASE Refused(c, ev) -> J(c, {"P01", "P08"}, ev.x = "BOOM")
    [] ev.op \in {"add", "put"} -> AddOk(c, ev)
    [] ev.op = "get" ->
         IF Has(c, ev.k) THEN J(c, {"P04"}, ev.x = "ok" /\ ValueIs(c, Ent(c, ev.k), ev.v))
                         ELSE J(c, {"P04"}, ev.x = "KNF")
    [] ev.op = "getd" ->
         J(c, {"P04"}, /\ ev.x = "ok"
                       /\ IF Has(c, ev.k) THEN ValueIs(c, Ent(c, ev.k), ev.v) ELSE ev.v = ev.d)
    [] ev.op \in {"va", "pva", "ka"} ->
         LET ps == IF ev.e \in c.rsv THEN {"P03"} ELSE IF ev.op = "ka" THEN {"P02"} ELSE {"P04"} IN
         (ev.e \in Held(c)) =>
            J(c, ps, /\ ev.x = "ok"
                     /\ ev.op = "va" => ValueIs(c, ev.e, ev.v)
                     /\ ev.op = "ka" => ev.v >= 0 /\ Cls(c, ev.v) = Cls(c, c.ky[ev.e]))
    [] ev.op = "vd" ->   \* entries that are not held: the default given, or of the type
         J(c, {"P04"}, /\ ev.x = "ok"
                       /\ IF ev.e \in Held(c) THEN ValueIs(c, ev.e, ev.v)
                          ELSE IF ev.e < 0 THEN ev.v = ev.d
                          ELSE ev.v \in {ev.d, Default})
    [] ev.op = "rem" ->
         /\ J(c, {"P01", "P02", "P03"}, ev.x = "ok")
         /\ ev.x = "ok" =>
              /\ J(c, {"P01"}, (ev.e # -1) = Has(c, ev.k))
              /\ Has(c, ev.k) => J(c, {"P02"}, ev.e = Ent(c, ev.k))
    [] ev.op \in {"rat", "rsv"} ->
         J(c, {"P01", "P03"}, IF ev.e \in Live(c) THEN ev.x = "ok" ELSE ev.x \in {"ok", "IOOBE"})
    [] ev.op = "frs" -> J(c, {"P03"}, ev.x = "ok")
    [] ev.op = "ck" -> J(c, {"P01"}, ev.x = "ok" /\ ev.b = Has(c, ev.k))
    [] ev.op = "lk" ->
         /\ J(c, {"P01"}, ev.x = "ok" /\ (ev.e # -1) = Has(c, ev.k) /\ ev.e >= -1)
         /\ Has(c, ev.k) => J(c, {"P02"}, ev.e = Ent(c, ev.k))
    [] ev.op = "sz" ->
         J(c, {"P01"}, ev.x = "ok" /\ ev.n = Cardinality(DOMAIN c.ent) /\ ev.b = (ev.n = 0))
    [] ev.op = "clr" -> J(c, {"P01", "P03"}, ev.x = "ok")
    [] ev.op = "cpy" -> J(c, {"P07"}, ev.x = "ok")
    [] ev.op \in {"fee", "fek", "fev", "itw"} -> ForEachOk(c, ev)
    [] ev.op = "strat" ->
         IF c.ent = <<>> THEN J(c, {"P08"}, ev.x = "ok" /\ ev.y = "ok")
                         ELSE J(c, {"P08"}, ev.x = "ISE" /\ ev.y = "ISE")
    [] ev.op = "obs" -> ObsOk(c, ev)
    [] ev.op = "reach" ->
         J(c, {"P28"}, /\ Range(ev.ks) \subseteq {c.ky[e] : e \in Held(c)}
                       /\ Range(ev.vs) \subseteq {c.val[e] : e \in Held(c)})

Nxt(S, ev) ==
  IF ev.op = "new" THEN
     [cs |-> [S.cs EXCEPT ![ev.o + 1] = Fresh(ev.map, ev.cap, ev.lf)],
      its |-> [s \in DOMAIN S.its |-> IF S.its[s].st # "none" /\ S.its[s].o = ev.o
                                      THEN NoIt ELSE S.its[s]]]
  ELSE IF ev.op = "itn" THEN
     [S EXCEPT !.its = (ev.s :> [st |-> "fresh", o |-> ev.o, cur |-> -1, seen |-> {},
                                 stale |-> "no"]) @@ S.its]
  ELSE IF ev.op = "itx" THEN ItNext(S, ev)
  ELSE IF ev.op = "itr" THEN ItRemNext(S, ev)
  ELSE IF ev.op \in Unchanging THEN S
  ELSE
  LET o == ev.o
      c == S.cs[o + 1]
  IN
  CASE ev.op \in {"add", "put"} ->
         IF ev.x # "ok" THEN S
         ELSE IF Has(c, ev.k)
              THEN IF ev.op = "put" /\ c.map
                   THEN Put(S, o, [c EXCEPT !.val = (Ent(c, ev.k) :> ev.v) @@ c.val]) ELSE S
              ELSE Mod(S, o, WithNew(c, ev.k, ev.e, IF ev.op = "put" /\ c.map THEN ev.v ELSE Default), -1)
    [] ev.op = "pva" ->
         IF ev.x = "ok" /\ ev.e \in Held(c)
         THEN Put(S, o, [c EXCEPT !.val = (ev.e :> ev.v) @@ c.val]) ELSE S
    [] ev.op = "rem" -> IF ev.x = "ok" /\ Has(c, ev.k)
                        THEN Mod(S, o, WithoutEntry(c, Ent(c, ev.k)), -1) ELSE S
    [] ev.op = "rat" -> IF ev.x = "ok" /\ ev.e \in Live(c)
                        THEN Mod(S, o, WithoutEntry(c, ev.e), -1) ELSE S
    [] ev.op = "rsv" -> IF ev.x = "ok" /\ ev.e \in Live(c)
                        THEN Mod(S, o, Reserved(c, ev.e), -1) ELSE S
    [] ev.op = "frs" -> IF ev.x = "ok" /\ ev.e \in c.rsv THEN Put(S, o, Freed(c, ev.e)) ELSE S
    [] ev.op = "clr" ->
         IF ev.x # "ok" THEN S
         ELSE [cs |-> [S.cs EXCEPT ![o + 1] = Cleared(c)],
               its |-> Touch(S.its, o, -1, IF c.ent = <<>> THEN "maybe" ELSE "yes")]
    [] ev.op = "cpy" ->
         IF ev.x # "ok" THEN S
         ELSE LET s == S.cs[ev.p + 1]
                  t == [s EXCEPT !.tags = s.tags \cup c.tags \cup {"P07"}, !.cap = Max2(c.cap, s.cap)]
              IN [cs |-> [S.cs EXCEPT ![o + 1] = t, ![ev.p + 1] = [@ EXCEPT !.tags = @ \cup {"P07"}]],
                  its |-> Touch(S.its, o, -1, "yes")]
    [] ev.op \in {"fee", "fek", "fev", "itw"} ->
         LET gone == Range(ev.r) \cap Live(c) IN
         IF gone = {} THEN S ELSE Mod(S, o, WithoutAll(c, gone), -1)
    [] ev.op = "strat" ->
         IF c.ent = <<>> /\ ev.x = "ok"
         THEN Put(S, o, [c EXCEPT !.m = IF ev.eq THEN ev.m ELSE c.m, !.bad = ev.bad, !.tags = c.tags \cup {"P08"}])
         ELSE Put(S, o, [c EXCEPT !.tags = c.tags \cup {"P08"}])

-----------------------------------------------------------------------------
(* what every reachable state satisfies *)

Sound(c) ==
  /\ \A k1, k2 \in DOMAIN c.ent : k1 # k2 => c.ent[k1] # c.ent[k2]
  /\ Live(c) \cap c.free = {} /\ Live(c) \cap c.rsv = {} /\ c.free \cap c.rsv = {}
  /\ Live(c) \cup c.free \cup c.rsv = 0..(c.nxt - 1)
  /\ DOMAIN c.ky = Held(c) /\ DOMAIN c.val = Held(c)
  /\ \A k \in DOMAIN c.ent : Cls(c, c.ky[c.ent[k]]) = k

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) ==
  /\ ev.op \in {"add", "put", "rem", "rat", "rsv", "strat", "get", "getd", "ck", "lk", "fee", "fek", "fev"}
  /\ LET c == S.cs[ev.o + 1] IN
     CASE Refused(c, ev) -> TRUE
       [] ev.op \in {"fee", "fek", "fev"} -> "th" \in DOMAIN ev /\ ev.r = <<>>
       [] ev.op = "add" -> Has(c, ev.k)
       [] ev.op \in {"rem", "get"} -> ~Has(c, ev.k)
       [] ev.op \in {"rat", "rsv"} -> ev.e \notin Live(c)
       [] ev.op = "strat" -> c.ent # <<>>
       [] OTHER -> FALSE
=============================================================================
