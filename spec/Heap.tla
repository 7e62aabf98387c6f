-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* The heaps, at the level of their public API.  Keys are ranks; the        *)
(* comparators order ranks (asc, desc, or a coarser preorder); x0, x1 and x2 *)
(* refuse the key 0, 1 or 2: they throw when it is compared.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT Judge

J(ps, cond) == (ps \cap Judge # {}) => cond

\* key, val: entry -> key, value of the active entries; free: released
\* entries; nxt: entries from here on were never used; cmp: comparator;
\* dk, dv: default key and value in force
Init0 == [key |-> <<>>, val |-> <<>>, free |-> {}, nxt |-> 0, cmp |-> "asc", dk |-> -50, dv |-> 0]

Range(f) == {f[x] : x \in DOMAIN f}
Active(S) == DOMAIN S.key
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Max2(a, b) == IF a > b THEN a ELSE b

\* position of a key in the order of a comparator
Pos(c, k) == CASE c \in {"asc", "cr", "x0", "x1", "x2"} -> k
               [] c \in {"desc", "cd"} -> -k
               [] c = "cm2" -> k % 2
               [] c = "cm3" -> k % 3
               [] OTHER -> 0
Odd(c, k) == (c = "x0" /\ k = 0) \/ (c = "x1" /\ k = 1) \/ (c = "x2" /\ k = 2)
\* a call that compares a key the comparator refuses
Refused(S, ev) ==
  CASE ev.op = "ins" -> Active(S) # {} /\ (Odd(S.cmp, ev.k) \/ \E e \in Active(S) : Odd(S.cmp, S.key[e]))
    [] ev.op = "rst" -> ev.e \in Active(S) /\ Cardinality(Active(S)) > 1 /\ Odd(S.cmp, ev.k)
    [] ev.op = "cmp" -> Cardinality(Active(S)) > 1 /\ \E e \in Active(S) : Odd(ev.c, S.key[e])
    [] OTHER -> FALSE
IsMin(S, e) == e \in Active(S) /\ \A f \in Active(S) : Pos(S.cmp, S.key[e]) <= Pos(S.cmp, S.key[f])
Matches(S, k) == {e \in Active(S) : Pos(S.cmp, S.key[e]) = Pos(S.cmp, k)}

Lists(l, set) == Len(l) = Cardinality(set) /\ Range(l) = set

RECURSIVE Sub(_, _)
Sub(S, l) == IF l = <<>> THEN S
             ELSE LET e == Head(l) IN
                  Sub(IF e \in Active(S)
                      THEN [S EXCEPT !.key = Drop(S.key, e), !.val = Drop(S.val, e), !.free = S.free \cup {e}]
                      ELSE S, Tail(l))

\* each entry of l is a minimum of what is left
RECURSIVE Drains(_, _)
Drains(S, l) == IF l = <<>> THEN S.key = <<>>
                ELSE IsMin(S, Head(l)) /\ Drains(Sub(S, <<Head(l)>>), Tail(l))

ObsOk(S, ev) ==
  LET lim == Len(ev.ks)
      below(e) == e - 1 \in Active(S)
  IN
  /\ J({"P09", "P10", "P11"}, ev.x = "ok")
  /\ ev.x = "ok" =>
     /\ J({"P09"}, ev.n = Cardinality(Active(S)) /\ ev.b = (ev.n = 0))
     /\ J({"P29"}, ev.cap >= ev.n)
     /\ J({"P09"}, IF Active(S) = {} THEN ev.pk = -8 ELSE IsMin(S, ev.pk))
     /\ J({"P10"}, Lists(ev.valid, Active(S)) /\ Lists(ev.fe, Active(S)))
     /\ J({"P10"}, \A e \in 1..lim : below(e) => ev.ks[e] = S.key[e - 1])
     /\ J({"P11"}, \A e \in 1..lim : ~below(e) => ev.ks[e] = S.dk)
     /\ J({"P11"}, \A e \in 1..lim : LET v == IF below(e) THEN S.val[e - 1] ELSE S.dv
                                     IN ev.vs[e] = v /\ ev.vd[e + 3] = v)
     /\ J({"P11"}, \A i \in 1..3 : ev.vd[i] = 1)
     /\ J({"P11"}, ev.dk = S.dk /\ ev.dv = S.dv)
     /\ J({"P09"}, \A k \in DOMAIN ev.ff :
            LET m == Matches(S, k - 1) IN
            (~Odd(S.cmp, k - 1) /\ \A e \in Active(S) : ~Odd(S.cmp, S.key[e])) =>
            /\ ev.ck[k] = (m # {})
            /\ IF m = {} THEN ev.ff[k] = -1 ELSE ev.ff[k] \in m)

Ok(S, ev) ==
  CASE ev.op = "new" -> TRUE
    [] ev.op = "ins" ->
         /\ J({"P09", "P10", "P11"}, ev.x = IF Refused(S, ev) THEN "BOOM" ELSE "ok")
         /\ ev.x = "ok" => J({"P10"}, IF S.free # {} THEN ev.e \in S.free ELSE ev.e = S.nxt)
    [] ev.op = "rat" ->
         J({"P10"}, IF ev.e \in Active(S) THEN ev.x = "ok" ELSE ev.x \in {"IEE", "RCE"})
    [] ev.op = "rst" -> J({"P10"}, ev.x = IF Refused(S, ev) THEN "BOOM" ELSE "ok")
    [] ev.op = "clr" -> J({"P09", "P10"}, ev.x = "ok")
    [] ev.op = "cmp" -> J({"P09"}, IF ev.c = "null" THEN ev.x = "NPE" ELSE IF Refused(S, ev) THEN ev.x = "BOOM" /\ ~ev.b ELSE ev.x = "ok" /\ ev.b)
    [] ev.op \in {"defk", "defv"} ->
         J({"P11"}, IF Active(S) = {} THEN ev.x = "ok" ELSE ev.x = "UOE")
    [] ev.op = "svat" -> J({"P11"}, ev.x = "ok")
    [] ev.op = "peek" ->
         J({"P09"}, IF Active(S) = {} THEN ev.x # "ok" ELSE ev.x = "ok" /\ IsMin(S, ev.e))
    [] ev.op = "drain" -> J({"P09"}, ev.x = "ok" /\ Drains(S, ev.l))
    \* forEachEntry whose callback removes some of the entries it is given (rm)
    \* and perhaps throws when it is given one more than th
    [] ev.op = "swp" /\ "th" \in DOMAIN ev /\ ev.th < Cardinality(Active(S)) ->
         J({"P10"}, /\ ev.x = "BOOM" /\ Len(ev.l) = ev.th + 1 /\ Cardinality(Range(ev.l)) = Len(ev.l)
                    /\ Range(ev.l) \subseteq Active(S) /\ Range(ev.rm) \subseteq Range(ev.l))
    [] ev.op = "swp" -> J({"P10"}, ev.x = "ok" /\ Lists(ev.l, Active(S)) /\ Range(ev.rm) \subseteq Range(ev.l))
    [] ev.op = "obs" -> ObsOk(S, ev)
    [] ev.op = "reach" ->
         J({"P28"}, /\ Range(ev.ks) \subseteq Range(S.key) \cup {S.dk}
                    /\ Range(ev.vs) \subseteq Range(S.val) \cup {S.dv})
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op = "new" -> [Init0 EXCEPT !.dk = ev.dk, !.dv = ev.dv]
    [] ev.op = "ins" /\ ev.x = "ok" ->
         [S EXCEPT !.key = (ev.e :> ev.k) @@ S.key,
                   !.val = (ev.e :> IF ev.v >= 0 THEN ev.v ELSE S.dv) @@ S.val,
                   !.free = S.free \ {ev.e}, !.nxt = Max2(S.nxt, ev.e + 1)]
    [] ev.op = "rat" /\ ev.x = "ok" /\ ev.e \in Active(S) -> Sub(S, <<ev.e>>)
    [] ev.op = "rst" /\ ev.x = "ok" /\ ev.e \in Active(S) -> [S EXCEPT !.key[ev.e] = ev.k]
    [] ev.op = "clr" /\ ev.x = "ok" -> [S EXCEPT !.key = <<>>, !.val = <<>>, !.free = {}, !.nxt = 0]
    [] ev.op = "cmp" /\ ev.x = "ok" -> [S EXCEPT !.cmp = ev.c]
    [] ev.op = "defk" /\ ev.x = "ok" -> [S EXCEPT !.dk = ev.k]
    [] ev.op = "defv" /\ ev.x = "ok" -> [S EXCEPT !.dv = ev.v]
    [] ev.op = "svat" /\ ev.x = "ok" /\ ev.e \in Active(S) -> [S EXCEPT !.val[ev.e] = ev.v]
    [] ev.op = "drain" -> Sub(S, ev.l)
    [] ev.op = "swp" -> Sub(S, ev.rm)
    [] OTHER -> S

Sound(S) == /\ DOMAIN S.key = DOMAIN S.val
            /\ Active(S) \cap S.free = {}
            /\ Active(S) \cup S.free = 0..(S.nxt - 1)

(* Calls that are refused or have nothing to do: they leave the state as it is,
   and nothing that follows depends on them. *)
Idle(S, ev) ==
  CASE ev.op = "rat" -> ev.e \notin Active(S)
    [] ev.op = "swp" -> Active(S) = {} \/ ("th" \in DOMAIN ev /\ ev.rm = <<>>)
    [] ev.op \in {"peek", "drain"} -> Active(S) = {}
    [] ev.op \in {"defk", "defv"} -> Active(S) # {}
    [] ev.op = "cmp" -> ev.c = "null" \/ Refused(S, ev)
    [] OTHER -> Refused(S, ev)
=============================================================================
