------------------------------ MODULE Numeric -------------------------------
(* What values of the primitive types mean, on their representation: a      *)
(* value is the sequence of its bytes, most significant first, of BITS bits *)
(* each (8 on real values; smaller ones let the definitions themselves be   *)
(* checked exhaustively). Numbers that can be large are sequences of bits,  *)
(* least significant first.                                                *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT BITS

Base == 2 ^ BITS
Half == 2 ^ (BITS - 1)
Least(S) == CHOOSE m \in S : \A x \in S : m <= x
Most(S) == CHOOSE m \in S : \A x \in S : x <= m
Zeros(n) == [i \in 1..n |-> 0]
Rep(n, v) == [i \in 1..n |-> v]
Max2(a, b) == IF a > b THEN a ELSE b

(* ------------------------------- integers ------------------------------- *)
Neg(a) == a[1] >= Half
CmpU(a, b) == LET d == {i \in DOMAIN a : a[i] # b[i]}
              IN IF d = {} THEN 0 ELSE LET i == Least(d) IN IF a[i] < b[i] THEN -1 ELSE 1
CmpS(a, b) == IF Neg(a) # Neg(b) THEN IF Neg(a) THEN -1 ELSE 1 ELSE CmpU(a, b)
\* two's complement
Complement(a) ==
  LET nz == {i \in DOMAIN a : a[i] # 0}
  IN IF nz = {} THEN a
     ELSE LET j == Most(nz) IN [i \in DOMAIN a |-> IF i < j THEN Base - 1 - a[i] ELSE IF i = j THEN Base - a[i] ELSE 0]
Mag(a) == IF Neg(a) THEN Complement(a) ELSE a  \* as an unsigned number
CmpAbs(a, b) == CmpU(Mag(a), Mag(b))
Low(a, n) == SubSeq(a, Len(a) - n + 1, Len(a))
SignExt(a, n) == Rep(n - Len(a), IF Neg(a) THEN Base - 1 ELSE 0) \o a
ZeroExt(a, n) == Zeros(n - Len(a)) \o a
\* narrowing keeps the low bytes, widening extends the sign
Cast(a, n) == IF Len(a) >= n THEN Low(a, n) ELSE SignExt(a, n)
Reverse(a) == [i \in DOMAIN a |-> a[Len(a) + 1 - i]]

BitOf(x, k) == (x \div (2 ^ k)) % 2
RECURSIVE SumBits(_, _)
SumBits(f, k) == IF k < 0 THEN 0 ELSE f[k] * (2 ^ k) + SumBits(f, k - 1)
BitWise(Op(_, _), a, b) ==
  [i \in DOMAIN a |-> SumBits([k \in 0..(BITS - 1) |-> Op(BitOf(a[i], k), BitOf(b[i], k))], BITS - 1)]
Or(a, b) == LET O(x, y) == IF x = 1 \/ y = 1 THEN 1 ELSE 0 IN BitWise(O, a, b)
AndNot(a, b) == LET O(x, y) == IF x = 1 /\ y = 0 THEN 1 ELSE 0 IN BitWise(O, a, b)
\* a small integer as n bytes
RECURSIVE ToBytes(_, _)
ToBytes(x, n) == IF n = 0 THEN <<>> ELSE ToBytes(x \div Base, n - 1) \o <<x % Base>>

(* ------- large naturals, as digits of LB bits, least significant first ------ *)
LB == IF BITS = 8 THEN 11 ELSE 3
L2 == 2 ^ LB
Dg(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
Trim(b) == IF b = <<>> THEN b ELSE IF b[Len(b)] # 0 THEN b
           ELSE LET s == {i \in DOMAIN b : b[i] # 0} IN IF s = {} THEN <<>> ELSE SubSeq(b, 1, Most(s))
RECURSIVE CarryC(_, _, _)
CarryC(s, i, c) == IF i > Len(s) THEN IF c = 0 THEN <<>> ELSE <<c % L2>> \o CarryC(s, i, c \div L2)
                   ELSE LET x == s[i] + c IN <<x % L2>> \o CarryC(s, i + 1, x \div L2)
Carry(s) == Trim(CarryC(s, 1, 0))
Add(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Dg(a, i) + Dg(b, i)])
Sub(a, b) == Carry([i \in 1..Len(a) |-> a[i] - Dg(b, i)])  \* a >= b
MulSmall(a, x) == Carry([i \in 1..Len(a) |-> a[i] * x])
RECURSIVE Column(_, _, _, _)
Column(a, b, i, j) == IF i > Len(a) \/ j < 1 THEN 0 ELSE IF j > Len(b) THEN Column(a, b, i + j - Len(b), Len(b))
                      ELSE a[i] * b[j] + Column(a, b, i + 1, j - 1)
Mul(a, b) == Carry([k \in 1..(Len(a) + Len(b)) |-> Column(a, b, 1, k)])
Shl(b, n) == IF b = <<>> THEN b ELSE Zeros(n \div LB) \o MulSmall(b, 2 ^ (n % LB))
Shr(b, n) == LET q == n \div LB
                 r == n % LB
             IN IF q >= Len(b) THEN <<>>
                ELSE Trim([i \in 1..(Len(b) - q) |-> (b[i + q] \div (2 ^ r)) + (Dg(b, i + q + 1) % (2 ^ r)) * (2 ^ (LB - r))])
\* modulo 2^n
LowBits(b, n) == LET q == n \div LB
                 IN IF q >= Len(b) THEN b ELSE Trim(SubSeq(b, 1, q) \o <<b[q + 1] % (2 ^ (n % LB))>>)
CmpB(a, b) ==
  IF Len(a) # Len(b) THEN IF Len(a) < Len(b) THEN -1 ELSE 1
  ELSE LET d == {i \in DOMAIN a : a[i] # b[i]}
       IN IF d = {} THEN 0 ELSE LET i == Most(d) IN IF a[i] < b[i] THEN -1 ELSE 1
Diff(a, b) == IF CmpB(a, b) >= 0 THEN Sub(a, b) ELSE Sub(b, a)
One == <<1>>
\* the bytes as a natural
RECURSIVE NatOfFirst(_, _)
NatOfFirst(a, n) == IF n = 0 THEN <<>> ELSE Add(MulSmall(NatOfFirst(a, n - 1), Base), IF a[n] = 0 THEN <<>> ELSE Carry(<<a[n]>>))
NatOf(a) == NatOfFirst(a, Len(a))
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN One
            ELSE LET h == Pow10(k \div 2) IN IF k % 2 = 0 THEN Mul(h, h) ELSE MulSmall(Mul(h, h), 10)
RECURSIVE FromDigits(_, _)
FromDigits(d, n) == IF n = 0 THEN <<>>
                    ELSE Add(MulSmall(FromDigits(d, n - 1), 10), IF d[n] = 0 THEN <<>> ELSE Carry(<<d[n]>>))
\* the low n bytes of a natural
ToN(b, n) == [i \in 1..n |-> Dg(Shr(b, (n - i) * BITS), 1) % Base]
\* the signed integer of magnitude b, reduced to n bytes
Signed(neg, b, n) == IF neg THEN Complement(ToN(b, n)) ELSE ToN(b, n)
Fits(neg, b, n) == LET top == Shl(One, n * BITS - 1) IN IF neg THEN CmpB(b, top) <= 0 ELSE CmpB(b, top) < 0

(* ---------------------------- floating point ---------------------------- *)
\* a format: p bits of precision, x exponent bits, n bytes
F32 == [p |-> 24, x |-> 8, n |-> 4]
F64 == [p |-> 53, x |-> 11, n |-> 8]
Frac(f, a) == LowBits(NatOf(a), f.p - 1)
Expo(f, a) == LET h == Shr(NatOf(a), f.p - 1) IN (Dg(h, 1) + Dg(h, 2) * L2) % (2 ^ f.x)
Top(f) == 2 ^ f.x - 1
IsNaN(f, a) == Expo(f, a) = Top(f) /\ Frac(f, a) # <<>>
IsInf(f, a) == Expo(f, a) = Top(f) /\ Frac(f, a) = <<>>
IsZero(f, a) == Expo(f, a) = 0 /\ Frac(f, a) = <<>>
\* exponent of the unit in the last place of subnormals
EMin(f) == 3 - 2 ^ (f.x - 1) - f.p
Unit(f, a) == IF Expo(f, a) = 0 THEN EMin(f) ELSE EMin(f) + Expo(f, a) - 1
Sig(f, a) == IF Expo(f, a) = 0 THEN Frac(f, a) ELSE Add(Frac(f, a), Shl(One, f.p - 1))
Pos(f, a) == [i \in DOMAIN a |-> IF i = 1 THEN a[1] % Half ELSE a[i]]
\* the order of numbers, both zeros being one number and NaN above all
CmpF(f, a, b) ==
  CASE IsNaN(f, a) /\ IsNaN(f, b) -> 0
    [] IsNaN(f, a) -> 1
    [] IsNaN(f, b) -> -1
    [] IsZero(f, a) /\ IsZero(f, b) -> 0
    [] Neg(a) # Neg(b) -> IF Neg(a) THEN -1 ELSE 1
    [] OTHER -> IF Neg(a) THEN CmpU(Pos(f, b), Pos(f, a)) ELSE CmpU(a, b)
CmpFAbs(f, a, b) == CmpF(f, Pos(f, a), Pos(f, b))

\* bytes whose unsigned order is the order of the values
SKey(a) == [a EXCEPT ![1] = (a[1] + Half) % Base]
FKey(f, a) == IF IsNaN(f, a) THEN Rep(f.n, Base - 1)
              ELSE IF IsZero(f, a) THEN SKey(Zeros(f.n))
              ELSE IF Neg(a) THEN [i \in DOMAIN a |-> Base - 1 - a[i]] ELSE SKey(a)

\* is the float r the one nearest to the exact value N * 2^e * 10^k (and its sign), ties to even?
Nearest(f, r, neg, N, e, k) ==
  LET unit == IF IsInf(f, r) THEN EMin(f) + Top(f) - 2 ELSE Unit(f, r)
      sh == e - unit
      A0 == IF k > 0 THEN Mul(N, Pow10(k)) ELSE N
      A == IF sh > 0 THEN Shl(A0, sh) ELSE A0
      U0 == IF k < 0 THEN Pow10(-k) ELSE One            \* one unit in the last place
      U == IF sh < 0 THEN Shl(U0, -sh) ELSE U0
      M == Sig(f, r)
      B == Mul(U, M)
      D == Diff(A, B)
      below == CmpB(A, B) < 0
      \* the numbers just below a power of two are half as far apart
      fine == Expo(f, r) > 1 /\ Frac(f, r) = <<>> /\ below
      c == CmpB(Shl(D, IF fine THEN 2 ELSE 1), U)
  IN IF IsNaN(f, r) THEN FALSE
     ELSE IF IsInf(f, r) THEN Neg(r) = neg /\ CmpB(Shl(A, 1), Mul(U, Sub(Shl(One, f.p + 1), One))) >= 0
     ELSE /\ (Neg(r) = neg \/ (N = <<>> /\ IsZero(f, r)))
          /\ c < 0 \/ (c = 0 /\ Dg(M, 1) % 2 = 0)

\* the magnitude of a finite float, towards zero
Trunc(f, a) == IF Unit(f, a) >= 0 THEN Shl(Sig(f, a), Unit(f, a)) ELSE Shr(Sig(f, a), -Unit(f, a))
\* conversion to a signed integer of n bytes: towards zero, saturating, NaN is 0
FToInt(f, a, n) ==
  IF IsNaN(f, a) THEN Zeros(n)
  ELSE IF ~IsInf(f, a) /\ Unit(f, a) < n * BITS /\ Fits(Neg(a), Trunc(f, a), n)
  THEN Signed(Neg(a), Trunc(f, a), n)
  ELSE IF Neg(a) THEN <<Half>> \o Zeros(n - 1) ELSE <<Half - 1>> \o Rep(n - 1, Base - 1)
\* is r the float converted from a float of another format?
FToF(f, a, g, r) ==
  IF IsNaN(f, a) THEN IsNaN(g, r)
  ELSE IF IsInf(f, a) THEN IsInf(g, r) /\ Neg(r) = Neg(a)
  ELSE IF IsZero(f, a) THEN IsZero(g, r) /\ Neg(r) = Neg(a)
  ELSE Nearest(g, r, Neg(a), Sig(f, a), Unit(f, a), 0)
IToF(a, g, r) == Nearest(g, r, Neg(a), NatOf(Mag(a)), 0, 0)

(* ------------------------------ encodings ------------------------------- *)
Encoded(big, v) == IF big THEN v ELSE Reverse(v)
Stored(arr, pos, big, v) ==
  [i \in DOMAIN arr |-> IF i > pos /\ i <= pos + Len(v) THEN Encoded(big, v)[i - pos] ELSE arr[i]]
Fetched(arr, pos, big, n) == Encoded(big, SubSeq(arr, pos + 1, pos + n))
InRange(arr, pos, n) == pos >= 0 /\ pos <= Len(arr) - n

(* ------------------------------- calendar ------------------------------- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysIn(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                  [] m \in {4, 6, 9, 11} -> 30
                  [] OTHER -> 31
RECURSIVE DatesFrom(_, _)
DatesFrom(y, m) == IF m > 12 THEN <<>>
                   ELSE [d \in 1..DaysIn(y, m) |-> y * 10000 + m * 100 + d] \o DatesFrom(y, m + 1)
Dates(y) == DatesFrom(y, 1)
Times(h) == [s \in 1..3600 |-> h * 10000 + ((s - 1) \div 60) * 100 + ((s - 1) % 60)]
=============================================================================
