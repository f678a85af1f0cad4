-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The value types of jitfusion and their conversions.  A value is         *)
(* [t |-> type, v |-> payload]: little-endian bytes for numbers, bytes for *)
(* strings, a sequence of payloads for lists.  Types are named u8 .. u64,  *)
(* i8 .. i64, f32, f64, string, <elem>list, ptr, void.                     *)
(***************************************************************************)
EXTENDS Real

NumTypes == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64"}
IntTypes == {"u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"}
SignedInts == {"i8", "i16", "i32", "i64"}
FloatTypes == {"f32", "f64"}
ElemTypes == NumTypes \cup {"string"}
ListTypes == {"u8list", "u16list", "u32list", "u64list", "i8list", "i16list", "i32list",
              "i64list", "f32list", "f64list", "stringlist"}

Size(t) == CASE t \in {"u8", "i8"} -> 1
             [] t \in {"u16", "i16"} -> 2
             [] t \in {"u32", "i32", "f32"} -> 4
             [] t \in {"u64", "i64", "f64"} -> 8
ListOf(t) == CASE t = "u8" -> "u8list" [] t = "u16" -> "u16list" [] t = "u32" -> "u32list"
               [] t = "u64" -> "u64list" [] t = "i8" -> "i8list" [] t = "i16" -> "i16list"
               [] t = "i32" -> "i32list" [] t = "i64" -> "i64list" [] t = "f32" -> "f32list"
               [] t = "f64" -> "f64list" [] t = "string" -> "stringlist"
ElemOf(l) == CASE l = "u8list" -> "u8" [] l = "u16list" -> "u16" [] l = "u32list" -> "u32"
               [] l = "u64list" -> "u64" [] l = "i8list" -> "i8" [] l = "i16list" -> "i16"
               [] l = "i32list" -> "i32" [] l = "i64list" -> "i64" [] l = "f32list" -> "f32"
               [] l = "f64list" -> "f64" [] l = "stringlist" -> "string"

\* promotion order of the numeric types
Rank(t) == CASE t = "i8" -> 0 [] t = "u8" -> 1 [] t = "i16" -> 2 [] t = "u16" -> 3
             [] t = "i32" -> 4 [] t = "u32" -> 5 [] t = "i64" -> 6 [] t = "u64" -> 7
             [] t = "f32" -> 8 [] t = "f64" -> 9
Promote(a, b) == IF Rank(a) > Rank(b) THEN a ELSE b

IsSigned(t) == t \in SignedInts
Val(t, v) == [t |-> t, v |-> v]
Bool(b) == [t |-> "u8", v |-> IF b THEN <<1>> ELSE <<0>>]
U32(k) == [t |-> "u32", v |-> WOfNat(k, 4)]

\* numeric payload conversion between types; the source's own signedness decides
\* how it is widened.  Float to integer is only defined when the truncated value fits.
Conv(v, from, to) ==
    IF from = to THEN v
    ELSE IF from \in IntTypes
         THEN IF to \in IntTypes THEN WExt(v, IsSigned(from), Size(to)) ELSE FOfInt(v, IsSigned(from), Size(to))
         ELSE IF to \in FloatTypes THEN FConv(v, Size(to)) ELSE FToInt(v, IsSigned(to), Size(to))
ConvDefined(v, from, to) ==
    from \in FloatTypes /\ to \in IntTypes => FFitsInt(v, IsSigned(to), Size(to))

Zero(t) == WZero(Size(t))
\* is the number "true" as a condition?  NaN is not.
Truthy(v, t) == IF t \in IntTypes THEN ~WIsZero(v) ELSE ~FIsNaN(v) /\ ~FIsZero(v)
\* three-way comparison of two payloads of one numeric type; 2 = unordered
NumCmp(a, b, t) == IF t \in IntTypes THEN WCmp(a, b, IsSigned(t)) ELSE FCmp(a, b)
\* lexicographic comparison of byte strings
RECURSIVE StrCmpR(_, _, _)
StrCmpR(a, b, i) ==
    IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
    ELSE IF i > Len(b) THEN 1
    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE StrCmpR(a, b, i + 1)
StrCmp(a, b) == StrCmpR(a, b, 1)
\* order on list elements of any element type
ElemCmp(a, b, t) == IF t = "string" THEN StrCmp(a, b) ELSE NumCmp(a, b, t)

NumAdd(a, b, t) == IF t \in IntTypes THEN WAdd(a, b) ELSE FAdd(a, b)
NumSub(a, b, t) == IF t \in IntTypes THEN WSub(a, b) ELSE FSub(a, b)
NumMul(a, b, t) == IF t \in IntTypes THEN WMul(a, b) ELSE FMul(a, b)
NumDiv(a, b, t) == IF t \in IntTypes THEN (IF IsSigned(t) THEN WDivS(a, b) ELSE WDivU(a, b)) ELSE FDiv(a, b)
NumMod(a, b, t) == IF t \in IntTypes THEN (IF IsSigned(t) THEN WModS(a, b) ELSE WModU(a, b)) ELSE FRem(a, b)
NumNeg(a, t) == IF t \in IntTypes THEN WNegate(a) ELSE (IF FIsNaN(a) THEN a ELSE FNeg(a))
\* integer division is undefined for a zero divisor and for the least value over -1
DivDefined(a, b, t) ==
    t \in FloatTypes \/ (~WIsZero(b) /\ ~(IsSigned(t) /\ a = WMinS(Size(t)) /\ WIsZero(BNot(b))))

\* do two payloads denote the same result?  Any NaN stands for every NaN.
SameNum(a, b, t) == IF t \in FloatTypes THEN a = b \/ (FIsNaN(a) /\ FIsNaN(b)) ELSE a = b
\* an approximate float: k > 0 bits agree, or (k = -1) numerically equal
SameAp(x, y, k) ==
    IF k = -1 THEN (FIsNaN(x) /\ FIsNaN(y)) \/ FCmp(x, y) = 0
    ELSE IF FIsNaN(y) THEN FIsNaN(x)
    ELSE IF FIsInf(y) THEN x = y
    ELSE RNear(x, ROfF(y), k)
\* the float of n bytes that a text denotes: [-]digits[.digits][e[+-]digits], inf or nan.
RECURSIVE DigRun(_, _)
DigRun(s, i) == IF i <= Len(s) /\ s[i] >= 48 /\ s[i] <= 57 THEN DigRun(s, i + 1) ELSE i
RECURSIVE BOfDigits(_, _, _)
BOfDigits(s, i, acc) ==
    IF i > Len(s) THEN BNorm(acc) ELSE BOfDigits(s, i + 1, TLCEval(BAdd(BMul(acc, <<10>>), BFromNat(s[i] - 48))))
ReadsAs(s0, f) ==
    LET n == Len(f)
        neg == s0 # <<>> /\ s0[1] = 45
        s == IF neg THEN SubSeq(s0, 2, Len(s0)) ELSE s0
        sg == IF neg THEN 1 ELSE 0
        a == DigRun(s, 1)
        dot == a <= Len(s) /\ s[a] = 46
        b == IF dot THEN DigRun(s, a + 1) ELSE a
        ex == b <= Len(s) /\ s[b] = 101
        es == IF ex /\ b + 1 <= Len(s) /\ s[b + 1] \in {43, 45} THEN b + 2 ELSE b + 1
        c == IF ex THEN DigRun(s, es) ELSE b
        xm == IF ex THEN BToNat(BOfDigits(SubSeq(s, es, c - 1), 1, <<>>)) ELSE 0
        x == IF ex /\ s[b + 1] = 45 THEN -xm ELSE xm
        frac == IF dot THEN SubSeq(s, a + 1, b - 1) ELSE <<>>
    IN IF FIsNaN(f) THEN s = <<110, 97, 110>>
       ELSE IF FIsInf(f) THEN s = <<105, 110, 102>> /\ sg = FSign(f)
       ELSE /\ a > 1 /\ c = Len(s) + 1
            /\ dot => b > a + 1
            /\ ex => c > es
            /\ FOfDec(sg, BOfDigits(SubSeq(s, 1, a - 1) \o frac, 1, <<>>), x - Len(frac), n) = f

SameVal(x, y) ==
    /\ x.t = y.t
    /\ IF "rd" \in DOMAIN y
       THEN IF x.t = "string" THEN ReadsAs(x.v, y.rd)
            ELSE Len(x.v) = Len(y.rd) /\ \A i \in 1..Len(y.rd) : ReadsAs(x.v[i], y.rd[i])
       ELSE IF "ap" \in DOMAIN y /\ y.ap # 0
       THEN IF x.t \in FloatTypes THEN SameAp(x.v, y.v, y.ap)
            ELSE Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : SameAp(x.v[i], y.v[i], y.ap)
       ELSE IF x.t \in FloatTypes THEN SameNum(x.v, y.v, x.t)
       ELSE IF x.t \in {"f32list", "f64list"}
       THEN Len(x.v) = Len(y.v) /\ \A i \in 1..Len(x.v) : SameNum(x.v[i], y.v[i], ElemOf(x.t))
       ELSE x.v = y.v
=============================================================================
