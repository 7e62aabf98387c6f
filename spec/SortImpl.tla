------------------------------ MODULE SortImpl ------------------------------
(* Companion sort as implemented: insertion sort below Small, three-way      *)
(* partition around a median above, the stack of the ranges that wait.       *)
EXTENDS Sort, TLCExt
CONSTANTS N, K, Small, Big, Div, Cmps, Ranges, Emit
VARIABLES h, abs, ev, tok
vars == <<h, abs, ev, tok>>
View == <<h, abs>>

\* a pair of arrays indexed from 0
Swap(st, i, j) == [p |-> [st.p EXCEPT ![i] = st.p[j], ![j] = st.p[i]],
                   s |-> [st.s EXCEPT ![i] = st.s[j], ![j] = st.s[i]]]
RECURSIVE Sink(_, _, _, _), Insertion(_, _, _, _, _)
Sink(c, st, off, j) == IF j > off /\ Cmp(c, st.p[j - 1], st.p[j]) > 0 THEN Sink(c, Swap(st, j, j - 1), off, j - 1) ELSE st
Insertion(c, st, off, len, i) == IF i < off + len THEN Insertion(c, Sink(c, st, off, i), off, len, i + 1) ELSE st

Med3(c, p, x, y, z) ==
  IF Cmp(c, p[x], p[y]) < 0
  THEN IF Cmp(c, p[y], p[z]) < 0 THEN y ELSE IF Cmp(c, p[x], p[z]) < 0 THEN z ELSE x
  ELSE IF Cmp(c, p[y], p[z]) > 0 THEN y ELSE IF Cmp(c, p[x], p[z]) > 0 THEN z ELSE x
Pivot(c, p, off, len) ==
  LET mid == off + len \div 2
      s == len \div Div
      last == off + len - 1
  IN IF len <= Small THEN mid
     ELSE IF len > Big
     THEN Med3(c, p, Med3(c, p, off, off + s, off + 2 * s), Med3(c, p, mid - s, mid, mid + s),
               Med3(c, p, last - 2 * s, last - s, last))
     ELSE Med3(c, p, off, mid, last)

\* v* (<v)* ... (>v)* v*: the two scans and the swap between them
RECURSIVE Up(_, _), Down(_, _), Part(_, _)
Up(c, w) == IF w.b <= w.c /\ Cmp(c, w.st.p[w.b], w.v) <= 0
            THEN Up(c, IF Cmp(c, w.st.p[w.b], w.v) = 0
                       THEN [w EXCEPT !.st = Swap(@, w.a, w.b), !.a = @ + 1, !.b = @ + 1]
                       ELSE [w EXCEPT !.b = @ + 1])
            ELSE w
Down(c, w) == IF w.c >= w.b /\ Cmp(c, w.st.p[w.c], w.v) >= 0
              THEN Down(c, IF Cmp(c, w.st.p[w.c], w.v) = 0
                           THEN [w EXCEPT !.st = Swap(@, w.c, w.d), !.d = @ - 1, !.c = @ - 1]
                           ELSE [w EXCEPT !.c = @ - 1])
              ELSE w
Part(c, w) == LET u == Down(c, Up(c, w))
              IN IF u.b > u.c THEN u
                 ELSE Part(c, [u EXCEPT !.st = Swap(@, u.b, u.c), !.b = @ + 1, !.c = @ - 1])
RECURSIVE VecSwap(_, _, _, _)
VecSwap(st, x, y, n) == IF n = 0 THEN st ELSE VecSwap(Swap(st, x, y), x + 1, y + 1, n - 1)
Min(x, y) == IF x < y THEN x ELSE y

\* the range on top of the stack is split; the smaller side goes on top of the larger
Split(c, st, off, len) ==
  LET w == Part(c, [st |-> st, a |-> off, b |-> off, c |-> off + len - 1, d |-> off + len - 1,
                    v |-> st.p[Pivot(c, st.p, off, len)]])
      n == off + len
      s1 == Min(w.a - off, w.b - w.a)
      s2 == Min(w.d - w.c, n - w.d - 1)
      back == VecSwap(VecSwap(w.st, off, w.b - s1, s1), w.b, n - s2, s2)
      left == w.b - w.a
      right == w.d - w.c
      L == <<off, left>>
      R == <<n - right, right>>
  IN [st |-> back, v |-> w.v, left |-> L, right |-> R,
      next |-> IF left < right THEN <<L, R>> ELSE <<R, L>>]

Seqs(n) == [0..(n - 1) -> 0..(K - 1)]
Tup(f, n) == [i \in 1..n |-> f[i - 1]]
RECURSIVE Digits(_, _)
Digits(p, n) == IF n = 0 THEN "k" ELSE Digits(p, n - 1) \o ToString(p[n - 1])
Step(c, e, t) == h' = c /\ ev' = e /\ abs' = Nxt(abs, e) /\ tok' = t
Idle == [on |-> FALSE]
Quiet == [op |-> "none"]

\* the keys of a call; companions are the positions
Call(n, ns, p, c, off, len) ==
  LET st == [p |-> p, s |-> [i \in 0..(ns - 1) |-> i]]
      cll == [off |-> off, len |-> len, c |-> c, n |-> n, ns |-> ns, p |-> p]
  IN Step([on |-> TRUE, call |-> cll, st |-> st, stack |-> << <<off, len>> >>, split |-> <<>>], Quiet,
          <<"sort", ns, off, len, c, Digits(p, n)>>)
Done(st, x) == [op |-> "sort", k |-> Tup(h.call.p, h.call.n), s |-> [i \in 1..h.call.ns |-> i - 1], off |-> h.call.off,
                len |-> h.call.len, c |-> h.call.c, x |-> x, k2 |-> Tup(st.p, h.call.n), s2 |-> Tup(st.s, h.call.ns)]
Bad == h.call.off < 0 \/ h.call.len < 0 \/ h.call.off + h.call.len > h.call.n \/ h.call.off + h.call.len > h.call.ns

Init == h = Idle /\ abs = Init0 /\ ev = [op |-> "init"] /\ tok = <<>>
Next == \/ /\ ~h.on
           /\ \E n \in (IF Ranges THEN 0..N ELSE {N}) : \E p \in Seqs(n) : \E c \in Cmps :
                IF Ranges
                THEN \E ns \in {n, n + 1} \cup (IF n > 0 THEN {n - 1} ELSE {}) : \E off \in -1..(n + 1) : \E len \in -1..(n + 1) : Call(n, ns, p, c, off, len)
                ELSE Call(n, n, p, c, 0, n)
        \/ /\ h.on
           /\ IF Bad THEN Step(Idle, Done(h.st, "IAE"), <<"none">>)
              ELSE IF h.stack = <<>> THEN Step(Idle, Done(h.st, "ok"), <<"none">>)
              ELSE LET top == h.stack[1]
                       rest == Tail(h.stack)
                       off == top[1]
                       len == top[2]
                   IN IF len < Small
                      THEN Step([h EXCEPT !.st = Insertion(h.call.c, h.st, off, len, off), !.stack = rest, !.split = <<>>], Quiet, <<"none">>)
                      ELSE LET q == Split(h.call.c, h.st, off, len)
                           IN Step([h EXCEPT !.st = q.st, !.stack = q.next \o rest, !.split = <<top, q.left, q.right, q.v>>], Quiet, <<"none">>)
Spec == Init /\ [][Next]_vars
Refines == [][ev'.op # "none" => Ok(abs, ev')]_vars
\* at every point the pairs are the original ones, and nothing outside the range has moved
Permuted == h.on => LET c == h.call IN
            IF Bad THEN TRUE
            ELSE LET e == Done(h.st, "ok")
                 IN /\ Outside(e.k, e.k2, e) /\ Outside(e.s, e.s2, e)
                    /\ Pairs(e.k, e.s, e.off, e.len) = Pairs(e.k2, e.s2, e.off, e.len)
\* a split leaves smaller elements, then those like the pivot, then larger ones
Partitioned == (h.on /\ h.split # <<>>) =>
  LET t == h.split[1] L == h.split[2] R == h.split[3] v == h.split[4]
  IN \A i \in t[1]..(t[1] + t[2] - 1) :
       LET d == Cmp(h.call.c, h.st.p[i], v)
       IN IF i < L[1] + L[2] THEN d < 0 ELSE IF i >= R[1] THEN d > 0 ELSE d = 0
\* waiting ranges halve: the depth of the recursion is logarithmic
Halving == (h.on /\ ~Bad /\ h.stack # <<>>) =>
  \A i \in 1..Len(h.stack) : h.stack[i][2] * (2 ^ (Len(h.stack) - i)) <= h.call.len
EmitTr == ~Emit \/ PrintT(<<"T", TLCFP(View), TLCFP(View'), tok = <<>>, tok'>>)
=============================================================================
