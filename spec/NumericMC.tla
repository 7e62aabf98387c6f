----------------------------- MODULE NumericMC ------------------------------
(* The definitions of Numeric against plain arithmetic, on a machine with    *)
(* tiny bytes and floats, for every pair (and every triple) of values; and  *)
(* the formulas that the helpers compute with against those definitions.    *)
EXTENDS Types
CONSTANTS N, Triples
VARIABLES a, b, c
vars == <<a, b, c>>

Words == [1..N -> 0..(Base - 1)]
\* the first, then the others, so that the workers share the work
Init == a \in Words /\ b = <<>> /\ c = <<>>
Next == /\ b = <<>> /\ a' = a /\ b' \in Words
        /\ c' \in IF Triples THEN Words ELSE {Zeros(N)}
Ready == b # <<>>
Spec == Init /\ [][Next]_vars

RECURSIVE UInt(_)
UInt(x) == IF x = <<>> THEN 0 ELSE UInt(SubSeq(x, 1, Len(x) - 1)) * Base + x[Len(x)]
SInt(x) == IF UInt(x) >= Half * Base ^ (Len(x) - 1) THEN UInt(x) - Base ^ Len(x) ELSE UInt(x)
Abs(x) == IF x < 0 THEN -x ELSE x
\* the word of N bytes that an integer is reduced to
W(x, n) == ToBytes(x % (Base ^ n), n)
RECURSIVE NatInt(_)
NatInt(x) == IF x = <<>> THEN 0 ELSE x[1] + L2 * NatInt(Tail(x))

(* ------------------------------ P20, P21 -------------------------------- *)
IntOrder ==
  Ready =>
  /\ CmpS(a, b) = Sgn(SInt(a) - SInt(b))
  /\ CmpU(a, b) = Sgn(UInt(a) - UInt(b))
  /\ CmpAbs(a, b) = Sgn(Abs(SInt(a)) - Abs(SInt(b)))
  /\ Lex(SKey(a), SKey(b)) = CmpS(a, b)
  /\ Lex(Mag(a), Mag(b)) = CmpAbs(a, b)
  /\ UInt(Complement(a)) = (-UInt(a)) % (Base ^ N)
\* formats that fit in N bytes
TF(p) == [p |-> p, x |-> BITS * N - p, n |-> N]
Formats == {TF(p) : p \in 2..(BITS * N - 2)}
\* the value of a finite float, as a multiple of its smallest unit
Exact(f, x) == (IF Neg(x) THEN -1 ELSE 1) * NatInt(Sig(f, x)) * 2 ^ (Unit(f, x) - EMin(f))
FloatOrder ==
  Ready =>
  \A f \in Formats :
    LET k == CmpF(f, a, b)
        \* infinities beyond everything, NaN beyond them
        E(x) == IF IsNaN(f, x) THEN 2 ^ 30 ELSE IF IsInf(f, x) THEN (IF Neg(x) THEN -1 ELSE 1) * 2 ^ 29 ELSE Exact(f, x)
        small == Top(f) <= 20
    IN /\ small => k = Sgn(E(a) - E(b))
       /\ k = -CmpF(f, b, a)
       /\ Lex(FKey(f, a), FKey(f, b)) = k
       /\ CmpFAbs(f, a, b) = Lex(FKey(f, Pos(f, a)), FKey(f, Pos(f, b)))
TransitiveOrder ==
  Ready =>
  /\ (CmpS(a, b) <= 0 /\ CmpS(b, c) <= 0) => CmpS(a, c) <= 0
  /\ (CmpAbs(a, b) <= 0 /\ CmpAbs(b, c) <= 0) => CmpAbs(a, c) <= 0
  /\ \A f \in Formats : (CmpF(f, a, b) <= 0 /\ CmpF(f, b, c) <= 0) => CmpF(f, a, c) <= 0
\* a difference is no comparator: it overflows
Difference == Triples \/ \E x \in Words : \E y \in Words : Sgn(SInt(W(SInt(x) - SInt(y), N))) # CmpS(x, y)

XorFold(x) == LET h == Len(x) \div 2
                  X(p, q) == IF p = q THEN 0 ELSE 1
              IN BitWise(X, SubSeq(x, 1, h), SubSeq(x, Len(x) - h + 1, Len(x)))
Canonical(f, x) == IF IsNaN(f, x) THEN Rep(N, Base - 1) ELSE IF IsZero(f, x) THEN Zeros(N) ELSE x
EqualityOfFloats ==
  Ready =>
  \A f \in Formats :
    LET eq(x, y) == FKey(f, x) = FKey(f, y)
    IN /\ eq(a, b) <=> CmpF(f, a, b) = 0
       /\ eq(a, b) <=> Canonical(f, a) = Canonical(f, b)
       /\ eq(a, b) => XorFold(Canonical(f, a)) = XorFold(Canonical(f, b))
       /\ (eq(a, b) /\ eq(b, c)) => eq(a, c)
Pal(t, v) == Nxt(Init0, [op |-> "pal", t |-> t, v |-> v])
\* the predicates on a palette of bytes: complements and combinations of each other
Predicates ==
  Ready =>
  LET S == Pal("Int", <<a, b>>)
      P(n) == PredOf(S, n, 1, 2)
  IN /\ P("NEQ") = ~P("EQ")
     /\ P("LTE") = (P("LT") \/ P("EQ")) /\ P("GTE") = (P("GT") \/ P("EQ"))
     /\ Cardinality({n \in {"LT", "EQ", "GT"} : P(n)}) = 1
     /\ P("LT") = (SInt(a) < SInt(b))

(* ------------------------------ P22, P23 -------------------------------- *)
\* lane i (from the most significant) as the helpers extract it: shift right, keep a byte
Lane(x, i) == (UInt(x) \div (Base ^ (N - i))) % Base
Encodings ==
  Ready =>
  \A big \in BOOLEAN : \A pos \in 0..2 :
    LET arr == ToBytes(UInt(b) * 3 + 7, N + 2)
        out == Stored(arr, pos, big, a)
    IN /\ Fetched(out, pos, big, N) = a
       /\ \A i \in DOMAIN arr : (i <= pos \/ i > pos + N) => out[i] = arr[i]
       /\ \A i \in 1..N : out[pos + (IF big THEN i ELSE N + 1 - i)] = Lane(a, i)
       /\ Stored(out, pos, big, b) = Stored(arr, pos, big, b)
       /\ Fetched(out, pos, ~big, N) = Reverse(a)
Packing ==
  Ready =>
  LET w == Base ^ N
      \* widen hi keeping the sign, shift it, or the masked lo into it
      shifted == (SInt(a) * w) % (w * w)
      r == W(shifted + UInt(b), 2 * N)
  IN /\ r = a \o b
     /\ W(UInt(r) \div w, N) = a          \* unsigned shift, then narrow
     /\ Cast(r, N) = b
     /\ SInt(r) = SInt(a) * w + UInt(b)
     \* without the mask, a negative lo would overwrite hi
     /\ (SInt(b) < 0 /\ UInt(a) # w - 1) => Or(Zeros(N) \o Zeros(N), SignExt(b, 2 * N)) # Zeros(N) \o b

(* --------------------------------- P24 ---------------------------------- *)
Casts ==
  Ready =>
  /\ SInt(Cast(a, N + 1)) = SInt(a)
  /\ Cast(a, N - 1) = W(SInt(a), N - 1)
  /\ UInt(ZeroExt(a, N + 1)) = UInt(a)
  /\ NatInt(NatOf(a)) = UInt(a)
  /\ NatInt(Add(NatOf(a), NatOf(b))) = UInt(a) + UInt(b)
  /\ UInt(a) >= UInt(b) => NatInt(Sub(NatOf(a), NatOf(b))) = UInt(a) - UInt(b)
  /\ NatInt(Mul(NatOf(a), NatOf(b))) = UInt(a) * UInt(b)
  /\ CmpB(NatOf(a), NatOf(b)) = CmpU(a, b)
  /\ \A k \in 0..7 : /\ NatInt(Shl(NatOf(a), k)) = UInt(a) * 2 ^ k
                     /\ NatInt(Shr(NatOf(a), k)) = UInt(a) \div 2 ^ k
                     /\ NatInt(LowBits(NatOf(a), k)) = UInt(a) % 2 ^ k
  /\ ToN(NatOf(a), N) = a
  /\ Fits(FALSE, NatOf(a), N) = (UInt(a) = SInt(a))
  /\ Fits(TRUE, NatOf(a), N) = (UInt(a) <= Half * Base ^ (N - 1))
Flags ==
  Ready =>
  /\ UInt(Or(a, b)) = UInt(b) + UInt(AndNot(a, b))
  /\ AndNot(Or(a, b), b) = AndNot(a, b)
  /\ Or(AndNot(a, b), b) = Or(a, b)
\* conversions of floats, for formats with a range that plain arithmetic can hold
FloatToInt ==
  Ready =>
  \A f \in {g \in Formats : Top(g) <= 15} :
    LET e == Exact(f, a)
        u == 2 ^ (-EMin(f))  \* one
        t == (IF Neg(a) THEN -1 ELSE 1) * (Abs(e) \div u)
        hi == Half * Base ^ (N - 1)
    IN EMin(f) <= 0 =>
         SInt(FToInt(f, a, N)) = IF IsNaN(f, a) THEN 0
                                 ELSE IF IsInf(f, a) THEN IF Neg(a) THEN -hi ELSE hi - 1
                                 ELSE IF t < -hi THEN -hi ELSE IF t > hi - 1 THEN hi - 1 ELSE t
\* the nearest float to m / 10^k in units of 2^e, by looking at all of them (b is not used)
RECURSIVE P10(_)
P10(k) == IF k = 0 THEN 1 ELSE 10 * P10(k - 1)
NearestIs(f, r, m, k) ==
  LET one == 2 ^ (-EMin(f))
      X == m * one                         \* times 10^k units
      D(x) == Abs(NatInt(Sig(f, x)) * 2 ^ (Unit(f, x) - EMin(f)) * P10(k) - X)
      Fin == {x \in Words : ~Neg(x) /\ ~IsNaN(f, x) /\ ~IsInf(f, x)}
      big == CHOOSE x \in Fin : \A y \in Fin : UInt(y) <= UInt(x)
      over == 2 * X >= (2 * NatInt(Sig(f, big)) + 1) * 2 ^ (Unit(f, big) - EMin(f)) * P10(k)
  IN IF over THEN IsInf(f, r) /\ ~Neg(r)
     ELSE r \in Fin /\ \A y \in Fin : D(r) < D(y) \/ r = y \/ (D(r) = D(y) /\ UInt(r) % 2 = 0)
Rounding ==
  (Ready /\ UInt(b) <= 40) =>
    \A f \in {g \in Formats : Top(g) <= 7} : \A k \in 0..1 :
      ~Neg(a) => (Nearest(f, a, FALSE, NatOf(b), 0, -k) <=> NearestIs(f, a, UInt(b), k))
FloatToFloat ==
  Ready =>
  \A f \in Formats : \A g \in {h \in Formats : Top(h) <= 7 /\ Top(f) <= 7} :
    (~IsNaN(f, a) /\ ~IsNaN(g, b) /\ ~IsInf(f, a) /\ ~IsInf(g, b)) =>
      LET F(h, x) == (IF Neg(x) THEN -1 ELSE 1) * NatInt(Sig(h, x)) * 2 ^ (Unit(h, x) + 12)
      IN (F(f, a) = F(g, b) /\ (F(f, a) # 0 \/ Neg(a) = Neg(b))) => FToF(f, a, g, b)
=============================================================================
