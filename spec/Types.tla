------------------------------- MODULE Types --------------------------------
(* The type helpers (comparators, equalities, hashes, predicates, byte      *)
(* encodings, packing, conversions), as functions on the representations    *)
(* that Numeric gives a meaning to. The only state is the palette of values *)
(* that the matrices of comparisons refer to.                               *)
EXTENDS Numeric, TLC
CONSTANT Judge
J(ps, cond) == (ps \cap Judge # {}) => cond

Init0 == [t |-> "", v |-> <<>>, zero |-> <<>>, nan |-> <<>>, asc |-> <<>>, abs |-> <<>>]
Null == <<-1>>
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Size == [Bool |-> 1, Byte |-> 1, Short |-> 2, Char |-> 2, Int |-> 4, Long |-> 8, Float |-> 4, Double |-> 8]
Ints == {"Byte", "Short", "Int", "Long"}
Fmt(t) == IF t \in {"Float", "GenericFloat"} THEN F32 ELSE F64
Kind(t) == CASE t \in Ints \cup {"GenericInt"} -> "S"
             [] t = "Char" -> "U"
             [] t = "Bool" -> "B"
             [] t \in {"Float", "Double"} -> "F"
             [] OTHER -> "T"  \* String, GenericString

(* ------------------------------- ordering ------------------------------- *)
Lex(a, b) == LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
                 d == {i \in 1..n : a[i] # b[i]}
             IN IF d = {} THEN Sgn(Len(a) - Len(b)) ELSE Sgn(a[Least(d)] - b[Least(d)])
\* case folding, of the letters that the palettes use
Fold(c) == CASE c >= 65 /\ c <= 90 -> c + 32
             [] c >= 192 /\ c <= 222 /\ c # 215 -> c + 32
             [] c >= 913 /\ c <= 937 -> c + 32
             [] c = 962 -> 963
             [] c >= 1040 /\ c <= 1071 -> c + 32
             [] OTHER -> c
Folded(s) == [i \in DOMAIN s |-> Fold(s[i])]
\* what a value is ordered by; Lex orders the keys
Key(t, a) == CASE a = Null -> <<100000>>
               [] Kind(t) = "S" -> SKey(a)
               [] Kind(t) = "B" -> <<1 - a[1]>>
               [] Kind(t) = "F" -> FKey(Fmt(t), a)
               [] OTHER -> a
AbsKey(t, a) == CASE a = Null -> <<100000>>
                  [] Kind(t) = "S" -> Mag(a)
                  [] Kind(t) = "F" -> FKey(Fmt(t), Pos(Fmt(t), a))
                  [] Kind(t) = "T" -> Folded(a)
                  [] OTHER -> a
Matrix(k) == [i \in DOMAIN k |-> [j \in DOMAIN k |-> IF k[i] = k[j] THEN 0 ELSE Lex(k[i], k[j])]]
HasAbs(t) == t \notin {"Bool", "GenericInt", "GenericString"}
HasOrder(t) == t \notin {"Bool", "GenericInt", "GenericString"}
\* the natural order may, or may not, put the negative zero before the positive one
TwoZeros(S, i, j) == S.zero[i] /\ S.zero[j] /\ S.v[i] # S.v[j]
CmpOk(S, name, m) ==
  LET desc == name \in {"Descending", "DescendingAbsolute"}
      want == IF name \in {"Ascending", "Descending"} THEN S.asc ELSE S.abs
      s == IF desc THEN -1 ELSE 1
  IN \/ \A i \in DOMAIN want : \A j \in DOMAIN want : m[i][j] = s * want[i][j]
     \/ /\ name \in {"Ascending", "Descending"}
        /\ \A i \in DOMAIN want : \A j \in DOMAIN want :
             m[i][j] = IF TwoZeros(S, i, j) THEN s * (IF Neg(S.v[i]) THEN -1 ELSE 1) ELSE s * want[i][j]
EqMatrix(S) == [i \in DOMAIN S.v |-> [j \in DOMAIN S.v |-> IF S.asc[i][j] = 0 THEN 1 ELSE 0]]
\* predicates: the comparisons of the language on floating point, else the natural order
NoOrder(S, i, j) == S.nan[i] \/ S.nan[j]
PredOf(S, name, i, j) ==
  LET c == S.asc[i][j]
      q == ~NoOrder(S, i, j)
  IN CASE name = "EQ" -> q /\ c = 0
       [] name = "NEQ" -> ~q \/ c # 0
       [] name = "LT" -> q /\ c < 0
       [] name = "LTE" -> q /\ c <= 0
       [] name = "GT" -> q /\ c > 0
       [] name = "GTE" -> q /\ c >= 0
PredMatrix(S, name) == [i \in DOMAIN S.v |-> [j \in DOMAIN S.v |-> IF PredOf(S, name, i, j) THEN 1 ELSE 0]]

(* ------------------------------ conversions ----------------------------- *)

Refused == <<>>

NumOf(from) == from \in Ints \cup {"Float", "Double", "Big"}
IsNum(to) == to \in Ints \cup {"Char", "Float", "Double"}
FromNum(to, from, a) ==
  IF from \in {"Float", "Double"}
  THEN CASE to = "Long" -> FToInt(Fmt(from), a, 8)
         [] to \in {"Byte", "Short", "Char", "Int"} -> Low(FToInt(Fmt(from), a, 4), Size[to])
         [] OTHER -> Refused
  ELSE Cast(a, Size[to])
\* is r what number a of type `from` is as a `to`?
NumOk(to, from, a, r) ==
  CASE to \in Ints \cup {"Char"} -> r = FromNum(to, from, a)
    [] to \in {"Float", "Double"} ->
         IF from = to THEN r = a \/ (IsNaN(Fmt(to), a) /\ IsNaN(Fmt(to), r))
         ELSE IF from \in {"Float", "Double"} THEN FToF(Fmt(from), a, Fmt(to), r) ELSE IToF(a, Fmt(to), r)
    [] to = "Bool" ->
         IF from \in {"Float", "Double"}
         THEN IF IsZero(Fmt(from), a) THEN r = <<0>>
              ELSE (CmpB(Trunc(Fmt(from), a), <<>>) # 0 /\ ~IsNaN(Fmt(from), a) /\ ~IsInf(Fmt(from), a)) => r = <<1>>
         ELSE IF NatOf(a) = <<>> THEN r = <<0>> ELSE (NatOf(Cast(a, 4)) # <<>> => r = <<1>>)
OneAs(to) == CASE to \in {"Float", "Double"} -> (CHOOSE q \in {<<63, 128, 0, 0>>, <<63, 240, 0, 0, 0, 0, 0, 0>>} : Len(q) = Size[to])
               [] OTHER -> ToBytes(1, Size[to])
BoolAs(to, a) == IF to = "Char" THEN <<0, IF a[1] = 1 THEN 116 ELSE 102>>
                 ELSE IF to = "Bool" THEN a
                 ELSE IF a[1] = 1 THEN OneAs(to) ELSE Zeros(Size[to])

\* integers in text: a sign and decimal digits
IsDigit(c) == c >= 48 /\ c <= 57
Signs(s) == s # <<>> /\ s[1] \in {43, 45}
Digits(s) == LET b == IF Signs(s) THEN Tail(s) ELSE s IN [i \in DOMAIN b |-> b[i] - 48]
IsInt(s) == Digits(s) # <<>> /\ \A i \in DOMAIN Digits(s) : Digits(s)[i] \in 0..9
NegText(s) == s # <<>> /\ s[1] = 45
IntText(s, n) == LET m == FromDigits(Digits(s), Len(Digits(s)))
                 IN IF IsInt(s) /\ Fits(NegText(s), m, n) THEN Signed(NegText(s), m, n) ELSE Refused
TrueText(s) == Folded(s) = <<116, 114, 117, 101>>
FalseText(s) == Folded(s) = <<102, 97, 108, 115, 101>>
NaNText == <<78, 97, 78>>
InfText == <<73, 110, 102, 105, 110, 105, 116, 121>>
\* result of parsing the text s as a `to`: ok, r and whether it was refused
ParseOk(to, s, r, x) ==
  CASE to \in Ints -> LET v == IntText(s, Size[to]) IN IF v = Refused THEN x # "ok" ELSE x = "ok" /\ r = v
    [] to = "Char" -> x = "ok" /\ r = IF s = <<>> THEN <<0, 0>> ELSE ToBytes(s[1], 2)
    [] to = "Bool" -> IF TrueText(s) THEN x = "ok" /\ r = <<1>> ELSE FalseText(s) => (x = "ok" /\ r = <<0>>)
    [] to \in {"Float", "Double"} ->
         IF IsInt(s) THEN x = "ok" /\ Nearest(Fmt(to), r, NegText(s), FromDigits(Digits(s), Len(Digits(s))), 0, 0)
         ELSE IF s = NaNText THEN x = "ok" /\ IsNaN(Fmt(to), r)
         ELSE IF s = InfText THEN x = "ok" /\ IsInf(Fmt(to), r) /\ ~Neg(r)
         ELSE IF s = <<45>> \o InfText THEN x = "ok" /\ IsInf(Fmt(to), r) /\ Neg(r)
         ELSE (\A i \in DOMAIN s : s[i] \notin (48..57) \cup {46}) => x # "ok"
    [] to = "String" -> x = "ok" /\ r = s
    [] OTHER -> TRUE
DefaultOf(to) == IF to = "String" THEN Null ELSE Zeros(Size[to])

CvOk(ev) ==
  LET to == ev.to
      from == ev.from
  IN CASE from = "null" -> ev.x = "ok" /\ ev.r = DefaultOf(to)
       [] to = "String" ->
            CASE from = "String" -> ev.x = "ok" /\ ev.r = ev.a
              [] from \in {"Int", "Long", "Short", "Byte"} /\ ev.fn = "convert" ->
                   ev.x = "ok" /\ IntText(ev.r, Size[from]) = ev.a
              [] OTHER -> TRUE
       [] NumOf(from) ->
            IF ev.fn = "unbox" /\ to \in {"Char", "Bool"} THEN ev.x = "ok" => NumOk(to, from, ev.a, ev.r)
            ELSE ev.x = "ok" /\ NumOk(to, from, ev.a, ev.r)
       [] from = "Bool" ->
            IF ev.fn = "convert" \/ to = "Bool" THEN ev.x = "ok" /\ ev.r = BoolAs(to, ev.a)
            ELSE ev.x = "ok" => ev.r = BoolAs(to, ev.a)
       [] from = "Char" -> IF to = "Char" THEN ev.x = "ok" /\ ev.r = ev.a ELSE ev.x # "ok"
       [] from = "String" ->
            IF ev.fn = "convert" THEN ParseOk(to, ev.a, ev.r, ev.x)
            ELSE ev.x = "ok" => ParseOk(to, ev.a, ev.r, ev.x)
       [] from \in {"Date", "Time"} ->
            IF to = "Int" /\ ev.fn = "convert" THEN ev.x = "ok" /\ ev.r = ev.a ELSE ev.x # "ok"
       [] OTHER -> ev.x # "ok"

Ok(S, ev) ==
  CASE ev.op = "pal" -> TRUE
    [] ev.op = "cmp" ->
         J({"P20"}, IF ev.name \in {"AscendingAbsolute", "DescendingAbsolute"} /\ ~HasAbs(S.t)
                    THEN ev.x # "ok" ELSE ev.x = "ok" /\ CmpOk(S, ev.name, ev.m))
    [] ev.op = "eq" ->
         J({"P21"}, /\ ev.x = "ok" /\ ev.m = EqMatrix(S)
                    /\ \A i \in DOMAIN S.v : \A j \in DOMAIN S.v : ev.m[i][j] = 1 => ev.h[i] = ev.h[j])
    [] ev.op = "pred" ->
         J({"P21"}, IF ev.name \notin {"EQ", "NEQ"} /\ ~HasOrder(S.t) THEN ev.x # "ok"
                    ELSE ev.x = "ok" /\ ev.m = PredMatrix(S, ev.name))
    [] ev.op = "wr" ->
         J({"P22"}, IF InRange(ev.arr, ev.pos, Size[ev.t])
                    THEN ev.x = "ok" /\ ev.ret = ev.pos + Size[ev.t] /\ ev.out = Stored(ev.arr, ev.pos, ev.big, ev.v)
                    ELSE ev.x # "ok")
    [] ev.op = "rd" ->
         J({"P22"}, /\ ev.same
                    /\ IF InRange(ev.arr, ev.pos, Size[ev.t])
                       THEN LET w == Fetched(ev.arr, ev.pos, ev.big, Size[ev.t])
                            IN (ev.t # "Bool" \/ w[1] \in {0, 1}) => (ev.x = "ok" /\ ev.v = w)
                       ELSE ev.x # "ok")
    [] ev.op = "wrrow" -> \* every value with this high byte
         J({"P22"}, /\ ev.out = [i \in 1..512 |-> IF i % 2 = (IF ev.big THEN 1 ELSE 0) THEN ev.hi ELSE (i - 1) \div 2]
                    /\ ev.back = [i \in 1..256 |-> i - 1])
    [] ev.op = "pack" ->
         J({"P23"}, /\ ev.r = ev.a \o ev.b
                    /\ (ev.f = "int4" \/ (ev.ua = ev.a /\ ev.ub = ev.b)))
    [] ev.op = "packrow" ->
         J({"P23"}, /\ ev.r = [i \in 1..512 |-> IF i % 2 = 1 THEN ev.hi ELSE (i - 1) \div 2]
                    /\ ev.ua = Rep(256, ev.hi) /\ ev.ub = [i \in 1..256 |-> i - 1])
    [] ev.op = "unpack" ->
         J({"P23"}, LET h == Len(ev.a) \div 2 IN ev.ua = SubSeq(ev.a, 1, h) /\ ev.ub = SubSeq(ev.a, h + 1, 2 * h) /\ ev.r = ev.a)
    [] ev.op = "cv" -> J({"P24"}, CvOk(ev))
    [] ev.op = "cast" -> J({"P24"}, ev.x = "ok" /\ IF ev.from = "Bool" THEN ev.r = BoolAs(ev.to, ev.a)
                                                   ELSE NumOk(ev.to, IF ev.from = "Char" THEN "Big" ELSE ev.from,
                                                              IF ev.from = "Char" THEN <<0>> \o ev.a ELSE ev.a, ev.r))
    [] ev.op = "box" -> J({"P24"}, ev.x = "ok" /\ (ev.r = ev.a \/ (Kind(ev.t) = "F" /\ IsNaN(Fmt(ev.t), ev.a) /\ IsNaN(Fmt(ev.t), ev.r))))
    [] ev.op = "same" -> J({"P24"}, ev.x = "ok" /\ ev.b)
    [] ev.op = "parse" -> J({"P24"}, ParseOk(ev.to, ev.s, ev.r, ev.x))
    [] ev.op = "text" -> J({"P24"}, ev.x = "ok" /\ IntText(ev.s, 4) = ev.a)
    [] ev.op = "fp" -> J({"P24"}, ev.x = "ok" /\ Nearest(Fmt(ev.to), ev.r, ev.neg, FromDigits(ev.d, Len(ev.d)), 0, ev.k))
    [] ev.op = "bits" -> J({"P24"}, ev.on = Or(ev.a, ev.b) /\ ev.off = AndNot(ev.a, ev.b))
    [] ev.op = "dates" -> J({"P24"}, ev.v = Dates(ev.y) /\ ev.b = Dates(ev.y) /\ (ev.s = <<>> \/ ev.s = Dates(ev.y)))
    [] ev.op = "times" -> J({"P24"}, ev.v = Times(ev.h) /\ ev.b = Times(ev.h))
    [] OTHER -> FALSE

Nxt(S, ev) ==
  CASE ev.op = "pal" ->
         LET F == Kind(ev.t) = "F"
         IN [t |-> ev.t, v |-> ev.v,
             zero |-> [i \in DOMAIN ev.v |-> F /\ IsZero(Fmt(ev.t), ev.v[i])],
             nan |-> [i \in DOMAIN ev.v |-> F /\ IsNaN(Fmt(ev.t), ev.v[i])],
             asc |-> Matrix([i \in DOMAIN ev.v |-> Key(ev.t, ev.v[i])]),
             abs |-> Matrix([i \in DOMAIN ev.v |-> AbsKey(ev.t, ev.v[i])])]
    [] OTHER -> S
=============================================================================