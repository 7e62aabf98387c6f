------------------------------- MODULE RunsMC -------------------------------
(* Runs says of a long history exactly what Deque says of each of its calls. *)
EXTENDS Runs
CONSTANTS M, N, Cap, MaxLen
VARIABLES seq, r, ev
vars == <<seq, r, ev>>
D == INSTANCE Deque WITH Most <- Cap

RECURSIVE Expand(_)
Expand(q) == IF q = <<>> THEN <<>> ELSE [i \in 1..q[1].n |-> (q[1].s + i - 1) % M] \o Expand(Tail(q))
Canonical(q) == /\ \A i \in DOMAIN q : q[i].n > 0 /\ q[i].s \in 0..(M - 1)
                /\ \A i \in 1..(Len(q) - 1) : (q[i].s + q[i].n) % M # q[i + 1].s
\* the maximal ascending runs of a sequence
RECURSIVE Compress(_)
Compress(s) == IF s = <<>> THEN <<>> ELSE Join(<<[s |-> s[1], n |-> 1]>>, Compress(Tail(s)), M)

\* n calls, one at a time, as Deque has it: the sequence left, how many were accepted
RECURSIVE Adds(_, _, _, _)
Adds(S, op, vs, k) ==
  IF vs = <<>> THEN [S |-> S, k |-> k, x |-> "ok"]
  ELSE LET good == [op |-> op, v |-> vs[1], x |-> "ok"] IN
       IF D!Ok(S, good) THEN Adds(D!Nxt(S, good), op, Tail(vs), k + 1) ELSE [S |-> S, k |-> k, x |-> "RESIZE"]
RECURSIVE Rems(_, _, _, _)
Rems(S, op, n, out) ==
  IF n = 0 THEN [S |-> S, l |-> out, x |-> "ok"]
  ELSE IF S = <<>> THEN [S |-> S, l |-> out, x |-> "NSE"]
  ELSE LET v == CHOOSE w \in 0..(M - 1) : D!Ok(S, [op |-> op, v |-> w, x |-> "ok"])
       IN Rems(D!Nxt(S, [op |-> op, v |-> v, x |-> "ok"]), op, n - 1, IF op = "rf" THEN Append(out, v) ELSE <<v>> \o out)

Starts(q) == [i \in DOMAIN q |-> q[i].s]
Counts(q) == [i \in DOMAIN q |-> q[i].n]
ObsEv(S) == LET q == Compress(S) IN
            [op |-> "obs", id |-> 0, x |-> "ok", sz |-> Len(S), n |-> Len(S), b |-> S = <<>>, ss |-> Starts(q), ns |-> Counts(q),
             back |-> FALSE, ends |-> TRUE, pf |-> IF S = <<>> THEN -1 ELSE Head(S), pl |-> IF S = <<>> THEN -1 ELSE D!Last(S)]
Init == seq = <<>> /\ r = Nxt(Init0, [op |-> "new", kind |-> "deque", m |-> M]) /\ ev = [op |-> "none"]
Next ==
  \/ \E s \in 0..(M - 1), n \in 1..N, op \in {"al", "af"} :
       LET a == Adds(seq, op, IF op = "al" THEN [i \in 1..n |-> (s + i - 1) % M] ELSE [i \in 1..n |-> (s + n - i) % M], 0)
           e == [op |-> op, id |-> 0, s |-> s, n |-> n, k |-> a.k, x |-> a.x]
       IN Len(seq) < MaxLen /\ seq' = a.S /\ ev' = e /\ r' = Nxt(r, e)
  \/ \E n \in 1..N, op \in {"rf", "rl"} :
       LET a == Rems(seq, op, n, <<>>)
           q == Compress(a.l)
           e == [op |-> op, id |-> 0, n |-> n, k |-> Len(a.l), x |-> a.x, ss |-> Starts(q), ns |-> Counts(q)]
       IN seq' = a.S /\ ev' = e /\ r' = Nxt(r, e)
  \/ LET e == [op |-> "clr", x |-> "ok"] IN seq' = <<>> /\ ev' = e /\ r' = Nxt(r, e)
Spec == Init /\ [][Next]_vars
View == seq
\* what Deque allows is allowed here ...
Agrees == [][Ok(r, ev')]_vars
\* ... and nothing else
Exact == [][/\ ev'.op \in {"al", "af", "rf", "rl"} =>
               /\ \A k \in 0..(N + 1) : k # ev'.k => ~Ok(r, [ev' EXCEPT !.k = k])
               /\ \A x \in {"ok", "NSE", "RESIZE"} : x # ev'.x => ~Ok(r, [ev' EXCEPT !.x = x])
            /\ ev'.op \in {"rf", "rl"} =>
               /\ \A i \in DOMAIN ev'.ss, d \in 1..(M - 1) : ~Ok(r, [ev' EXCEPT !.ss[i] = (@ + d) % M])
               /\ \A i \in DOMAIN ev'.ns, d \in {-1, 1} : ~Ok(r, [ev' EXCEPT !.ns[i] = @ + d])]_vars
Same == /\ Expand(r.q[0]) = seq /\ Canonical(r.q[0]) /\ r.q[0] = Compress(seq)
        /\ Ok(r, ObsEv(seq))
        /\ ~Ok(r, [ObsEv(seq) EXCEPT !.n = @ + 1]) /\ ~Ok(r, [ObsEv(seq) EXCEPT !.b = ~@])
        /\ \A i \in DOMAIN ObsEv(seq).ss, d \in 1..(M - 1) : ~Ok(r, [ObsEv(seq) EXCEPT !.ss[i] = (@ + d) % M])
=============================================================================
