------------------------------ MODULE JoinedImpl ------------------------------
(* Joined, put together from parts that are known by their contracts only:    *)
(* IndexedMap for the keys (any entry its contract allows may be given),      *)
(* Relation for the associations of the entries, and a heap, waiting lists    *)
(* and a column indexed by entries.  The steps are what the examples (and the *)
(* harness) do: look up entries, call the parts, and let go of an entry only  *)
(* when nothing refers to it any more.                                        *)
EXTENDS Joined, TLCExt
CONSTANTS NL, NR,   \* left keys 0..NL-1, right keys 0..NR-1
          NV, NT,   \* values 0..NV-1, times 0..NT-1
          MaxQ,     \* elements waiting in a list
          Feat,     \* calls
          Lazy,     \* TRUE: lets go of an entry although others still refer to it (to see that it matters)
          Emit
VARIABLES im,   \* the state of IndexedMap: cs[1] the lefts, cs[2] the rights
          rl,   \* the state of Relation
          st,   \* right entry -> value of the column
          hp,   \* handle -> <<time, right entry>>
          pd,   \* right entry -> handle
          qs,   \* left entry -> right entries waiting
          abs, ev, tok
vars == <<im, rl, st, hp, pd, qs, abs, ev, tok>>
View == <<im, rl, st, hp, pd, qs, abs>>
I == INSTANCE IndexedMap
R == INSTANCE Relation
L == im.cs[1]
T == im.cs[2]
At(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

RECURSIVE Sorted(_)
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : x <= y IN <<m>> \o Sorted(s \ {m})

\* the states and entries the contract allows for the key
Interned(s, o, k) ==
  LET c == s.cs[o + 1]
      call(e) == [op |-> "add", o |-> o, k |-> k, e |-> e, x |-> "ok"]
  IN IF I!Has(c, k) THEN {<<s, I!Ent(c, k)>>}
     ELSE {<<I!Nxt(s, call(e)), e>> : e \in {y \in 0..c.nxt : I!Ok(s, call(y))}}
Do(s, op, o, e) == I!Nxt(s, [op |-> op, o |-> o, e |-> e, x |-> "ok"])
\* the relation may give any entry it does not hold; here the two lowest
Spare(s) == LET a == CHOOSE e \in 0..100 : e \notin R!Held(s) /\ \A d \in 0..(e - 1) : d \in R!Held(s)
                b == CHOOSE e \in 0..100 : e > a /\ e \notin R!Held(s) /\ \A d \in (a + 1)..(e - 1) : d \in R!Held(s)
            IN {a, b}
Related(s, l, r) ==
  IF R!Has(s, <<l, r>>) THEN {s}
  ELSE {R!Nxt(s, [op |-> "put", l |-> l, r |-> r, e |-> e, x |-> "ok"]) : e \in Spare(s)}
RECURSIVE Unrelated(_, _)
Unrelated(s, es) == IF es = {} THEN s
                    ELSE LET e == CHOOSE x \in es : TRUE IN Unrelated(R!Nxt(s, [op |-> "rat", e |-> e, x |-> "ok"]), es \ {e})
KeyOf(c, e) == c.ky[e]
Rank(c, es) == Sorted({KeyOf(c, e) : e \in es})

Step(e, t) == ev' = e /\ tok' = t /\ abs' = Nxt(abs, e)

Reg(l, v) ==
  /\ \E p \in Interned(im, 0, l) : im' = I!Nxt(p[1], [op |-> "pva", o |-> 0, e |-> p[2], v |-> v, x |-> "ok"])
  /\ UNCHANGED <<rl, st, hp, pd, qs>> /\ Step([op |-> "reg", l |-> l, v |-> v, x |-> "ok"], <<"reg", l, v>>)
Enr(l, r) ==
  LET yes == I!Has(L, l) IN
  /\ IF ~yes THEN UNCHANGED <<im, rl>>
     ELSE \E p \in Interned(im, 1, r) : \E s \in Related(rl, I!Ent(L, l), p[2]) : im' = p[1] /\ rl' = s
  /\ UNCHANGED <<st, hp, pd, qs>>
  /\ Step([op |-> "enr", l |-> l, r |-> r, b |-> yes, g |-> rl' # rl, x |-> "ok"], <<"enr", l, r>>)
Drp(l, r) ==
  LET yes == I!Has(L, l) /\ I!Has(T, r) /\ R!Has(rl, <<I!Ent(L, l), I!Ent(T, r)>>) IN
  /\ rl' = IF yes THEN R!Nxt(rl, [op |-> "rem", l |-> I!Ent(L, l), r |-> I!Ent(T, r), x |-> "ok"]) ELSE rl
  /\ UNCHANGED <<im, st, hp, pd, qs>> /\ Step([op |-> "drp", l |-> l, r |-> r, b |-> yes, x |-> "ok"], <<"drp", l, r>>)
Cls(l) ==
  LET yes == I!Has(L, l)
      e == IF yes THEN I!Ent(L, l) ELSE -1
      s == Do(im, "rsv", 0, e)
  IN
  /\ IF ~yes THEN UNCHANGED <<im, rl, qs>> /\ Step([op |-> "cls", l |-> l, b |-> FALSE, x |-> "ok"], <<"cls", l>>)
     ELSE /\ Step([op |-> "cls", l |-> l, b |-> TRUE, k |-> KeyOf(s.cs[1], e), v |-> s.cs[1].val[e],
                   p |-> Rank(T, R!Partners(rl, TRUE, e)), x |-> "ok"], <<"cls", l>>)
          /\ rl' = IF Lazy THEN rl ELSE Unrelated(rl, R!Entries(rl, TRUE, e))
          /\ qs' = Drop(qs, e)
          /\ im' = Do(s, "frs", 0, e)
  /\ UNCHANGED <<st, hp, pd>>
Lve(r) ==
  LET yes == I!Has(T, r)
      e == IF yes THEN I!Ent(T, r) ELSE -1
  IN
  /\ IF ~yes THEN UNCHANGED <<im, rl, st, hp, pd, qs>>
                  /\ Step([op |-> "lve", r |-> r, b |-> FALSE, x |-> "ok"], <<"lve", r>>)
     ELSE /\ Step([op |-> "lve", r |-> r, b |-> TRUE, p |-> Rank(L, R!Partners(rl, FALSE, e)), x |-> "ok"], <<"lve", r>>)
          /\ rl' = Unrelated(rl, R!Entries(rl, FALSE, e))
          /\ hp' = IF e \in DOMAIN pd THEN Drop(hp, pd[e]) ELSE hp
          /\ pd' = Drop(pd, e) /\ st' = Drop(st, e)
          /\ qs' = [le \in DOMAIN qs |-> SelectSeq(qs[le], LAMBDA x : x # e)]
          /\ im' = Do(im, "rat", 1, e)
Wt(l, r) ==
  LET yes == I!Has(L, l) IN
  /\ yes => Len(At(qs, I!Ent(L, l), <<>>)) < MaxQ
  /\ IF ~yes THEN UNCHANGED <<im, qs>>
     ELSE \E p \in Interned(im, 1, r) : im' = p[1] /\ qs' = (I!Ent(L, l) :> Append(At(qs, I!Ent(L, l), <<>>), p[2])) @@ qs
  /\ UNCHANGED <<rl, st, hp, pd>> /\ Step([op |-> "wt", l |-> l, r |-> r, b |-> yes, x |-> "ok"], <<"wt", l, r>>)
Adm(l) ==
  LET e == IF I!Has(L, l) THEN I!Ent(L, l) ELSE -1
      q == IF e = -1 THEN <<>> ELSE At(qs, e, <<>>)
  IN
  /\ IF q = <<>> THEN UNCHANGED <<rl, qs>> /\ Step([op |-> "adm", l |-> l, b |-> FALSE, x |-> "ok"], <<"adm", l>>)
     ELSE /\ \E s \in Related(rl, e, Head(q)) : rl' = s
          /\ qs' = (e :> Tail(q)) @@ qs
          /\ Step([op |-> "adm", l |-> l, b |-> TRUE, r |-> KeyOf(T, Head(q)), x |-> "ok"], <<"adm", l>>)
  /\ UNCHANGED <<im, st, hp, pd>>
Set(r, v) ==
  LET yes == I!Has(T, r) IN
  /\ st' = IF yes THEN (I!Ent(T, r) :> v) @@ st ELSE st
  /\ UNCHANGED <<im, rl, hp, pd, qs>> /\ Step([op |-> "set", r |-> r, v |-> v, b |-> yes, x |-> "ok"], <<"set", r, v>>)
Sch(r, t) ==
  LET yes == I!Has(T, r)
      e == IF yes THEN I!Ent(T, r) ELSE -1
  IN
  /\ IF ~yes THEN UNCHANGED <<hp, pd>>
     ELSE IF e \in DOMAIN pd THEN hp' = [hp EXCEPT ![pd[e]] = <<t, e>>] /\ pd' = pd
     ELSE \E h \in 0..NR : h \notin DOMAIN hp /\ hp' = (h :> <<t, e>>) @@ hp /\ pd' = (e :> h) @@ pd
  /\ UNCHANGED <<im, rl, st, qs>> /\ Step([op |-> "sch", r |-> r, t |-> t, b |-> yes, x |-> "ok"], <<"sch", r, t>>)
Can(r) ==
  LET e == IF I!Has(T, r) THEN I!Ent(T, r) ELSE -1
      yes == e \in DOMAIN pd
  IN
  /\ hp' = IF yes THEN Drop(hp, pd[e]) ELSE hp
  /\ pd' = Drop(pd, e)
  /\ UNCHANGED <<im, rl, st, qs>> /\ Step([op |-> "can", r |-> r, b |-> yes, x |-> "ok"], <<"can", r>>)
RECURSIVE Popping(_)
Popping(s) ==   \* a set of handles, by time
  IF s = {} THEN <<>>
  ELSE LET h == CHOOSE x \in s : \A y \in s : hp[x][1] <= hp[y][1] IN <<h>> \o Popping(s \ {h})
Exp(t) ==
  LET l == Popping({h \in DOMAIN hp : hp[h][1] <= t}) IN
  /\ hp' = [h \in {x \in DOMAIN hp : hp[x][1] > t} |-> hp[h]]
  /\ pd' = [e \in {x \in DOMAIN pd : hp[pd[x]][1] > t} |-> pd[e]]
  /\ UNCHANGED <<im, rl, st, qs>>
  /\ Step([op |-> "exp", t |-> t, p |-> [i \in DOMAIN l |-> KeyOf(T, hp[l[i]][2])], ts |-> [i \in DOMAIN l |-> hp[l[i]][1]],
           x |-> "ok"], <<"exp", t>>)

Init == /\ im = I!Nxt(I!Init0, [op |-> "new", o |-> 0, map |-> TRUE, c |-> 1024, cap |-> 1024, lf |-> 1000])
        /\ rl = R!Nxt(R!Init0, [op |-> "new", m2m |-> TRUE, cnt |-> TRUE])
        /\ st = <<>> /\ hp = <<>> /\ pd = <<>> /\ qs = <<>>
        /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Lefts == 0..(NL - 1)
Rights == 0..(NR - 1)
Next == \/ \E l \in Lefts, v \in 0..(NV - 1) : Reg(l, v)
        \/ \E l \in Lefts, r \in Rights : Enr(l, r) \/ ("drp" \in Feat /\ Drp(l, r)) \/ ("wt" \in Feat /\ Wt(l, r))
        \/ \E l \in Lefts : ("cls" \in Feat /\ Cls(l)) \/ ("wt" \in Feat /\ Adm(l))
        \/ \E r \in Rights : ("lve" \in Feat /\ Lve(r)) \/ ("sch" \in Feat /\ Can(r))
        \/ \E r \in Rights, v \in 0..(NV - 1) : "set" \in Feat /\ Set(r, v)
        \/ \E r \in Rights, t \in 0..(NT - 1) : "sch" \in Feat /\ Sch(r, t)
        \/ \E t \in 0..(NT - 1) : "sch" \in Feat /\ Exp(t)
Spec == Init /\ [][Next]_vars

Refines == [][Ok(abs, ev')]_vars
\* what the entries say, in terms of keys
Same ==
  LET lk(e) == KeyOf(L, e)
      rk(e) == KeyOf(T, e)
      le == I!Live(L)
      re == I!Live(T)
  IN /\ \A p \in DOMAIN rl.ent : p[1] \in le /\ p[2] \in re
     /\ \A e \in DOMAIN qs : e \in le \/ qs[e] = <<>>
     /\ abs.lv = [k \in DOMAIN L.ent |-> L.val[L.ent[k]]] /\ abs.rs = DOMAIN T.ent
     /\ abs.prs = {<<lk(p[1]), rk(p[2])>> : p \in DOMAIN rl.ent}
     /\ \A e \in re : abs.at[rk(e)] = At(st, e, 0)
     /\ \A e \in le : abs.q[lk(e)] = [i \in DOMAIN At(qs, e, <<>>) |-> rk(qs[e][i])]
     /\ DOMAIN abs.due = {rk(e) : e \in DOMAIN pd}
     /\ \A e \in DOMAIN pd : hp[pd[e]] = <<abs.due[rk(e)], e>>
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
