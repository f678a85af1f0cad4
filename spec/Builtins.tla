------------------------------ MODULE Builtins -------------------------------
(***************************************************************************)
(* The built-in functions (doc/function.md): which argument types each     *)
(* accepts, and the value it returns.                                      *)
(*                                                                         *)
(* A float result that is only specified up to a tolerance carries         *)
(*   ap = k > 0   the observed float is within 2^-k of v, relatively       *)
(*   ap = -1      numerically equal to v (the sign of a zero is free)      *)
(* and a float rendered as text carries rd, the float(s) the text denotes. *)
(* Errors whose text is not specified are the message "*".                 *)
(***************************************************************************)
EXTENDS UserFns, TLC

NumLists == ListTypes \ {"stringlist"}
IntLists == {ListOf(t) : t \in IntTypes}
FloatLists == {"f32list", "f64list"}
Up == [t \in NumTypes |-> CASE t = "u8" -> "U8" [] t = "u16" -> "U16" [] t = "u32" -> "U32" [] t = "u64" -> "U64"
                            [] t = "i8" -> "I8" [] t = "i16" -> "I16" [] t = "i32" -> "I32" [] t = "i64" -> "I64"
                            [] t = "f32" -> "F32" [] t = "f64" -> "F64"]
CastN == [t \in NumTypes |-> "Cast" \o Up[t]]
CastListN == [t \in NumTypes |-> "Cast" \o Up[t] \o "List"]
ExpFns == {"exp", "log", "log2", "log10"}
ListExpFns == {"ListExp", "ListLog", "ListLog2", "ListLog10"}
FloatFns == {"frac", "trunc", "sin", "cos", "tan", "sqrt", "ceil", "floor", "round"}
ArithFns == {"ListAdd", "ListSub", "ListMul", "ListDiv"}
IntListFns == {"ListMod", "ListBitwiseAnd", "ListBitwiseOr", "ListBitwiseXor"}
GenFns == {"GenLargeBitmap", "GenLargeEqualBitmap", "GenEqualBitmap", "GenLessBitmap", "GenLessEqualBitmap", "GenNotEqualBitmap"}
IfFns == {"IfLarge", "IfLargeEqual", "IfEqual", "IfLess", "IfLessEqual", "IfNotEqual"}
SumType(t) == IF t \in FloatTypes THEN "f64" ELSE IF IsSigned(t) THEN "i64" ELSE "u64"

Iff(c, t) == IF c THEN t ELSE "none"
Ret1(n, a) ==
    CASE n \in ExpFns -> IF a = "f32" THEN "f32" ELSE Iff(a \in {"i32", "i64", "u32", "u64", "f64"}, "f64")
      [] n \in FloatFns -> Iff(a \in FloatTypes, a)
      [] n = "abs" -> Iff(a \in {"i32", "i64", "f32", "f64"}, a)
      [] n \in Range1(CastN) -> LET t == Inv(CastN, n) IN Iff(a \in NumTypes \/ (a = "string" /\ t \in IntTypes), t)
      [] n = "CastString" -> Iff(a \in NumTypes, "string")
      [] n = "StringLen" -> Iff(a = "string", "u32")
      [] n = "Len" -> Iff(a \in ListTypes, "u32")
      [] n = "Sum" -> IF a \in NumLists THEN SumType(ElemOf(a)) ELSE "none"
      [] n \in {"Max", "Min"} -> IF a \in NumLists THEN ElemOf(a) ELSE "none"
      [] n = "CountDistinct" -> Iff(a \in NumLists, "u32")
      [] n \in {"Avg", "Median", "SortedMedian"} -> Iff(a \in NumLists, "f64")
      [] n = "GroupIndex" -> Iff(a \in ListTypes, "u32list")
      [] n = "GroupCount" -> Iff(a = "u32list", "u32")
      [] n = "Unique" -> Iff(a \in ListTypes, a)
      [] n \in {"SortAsc", "SortDesc"} -> Iff(a \in NumLists, a)
      [] n \in ListExpFns -> IF a = "f32list" THEN a ELSE Iff(a \in NumLists, "f64list")
      [] n \in {"ListCeil", "ListFloor", "ListRound"} -> Iff(a \in FloatLists, a)
      [] n = "CountBits" -> Iff(a = "u8list", "u32")
      [] n = "MurmurHash3X8632" -> Iff(a \in NumLists, "u32")
      [] n \in Range1(CastListN) -> LET t == Inv(CastListN, n)
                                    IN Iff((a \in NumLists /\ a # ListOf(t)) \/ (a = "stringlist" /\ t \in IntTypes), ListOf(t))
      [] n = "CastStringList" -> Iff(a \in NumLists, "stringlist")
      [] n \in {"ListCompactPositions", "ListCompactIndex"} -> Iff(a = "u32list", "u32list")
      [] OTHER -> "none"
Ret2(n, a, b) ==
    CASE n = "pow" -> IF a = "f32" THEN Iff(b \in {"i32", "f32"}, "f32")
                      ELSE IF a \in {"i32", "i64"} THEN Iff(b = "i32", "f64")
                      ELSE Iff(a = "f64" /\ b \in {"i32", "f64"}, "f64")
      [] n \in {"min", "max"} -> Iff(a = b /\ a \in NumTypes, a)
      [] n = "StringConcat" -> Iff(a = "string" /\ b = "string", "string")
      [] n = "StringCmp" -> Iff(a = "string" /\ b = "string", "i32")
      [] n = "StringContains" -> Iff(a = "string" /\ b = "string", "u8")
      [] n = "ListConcat" -> Iff(a = b /\ a \in ListTypes, a)
      [] n = "in" -> Iff(a \in ElemTypes /\ b = ListOf(a), "u8")
      [] n = "GroupKeys" -> Iff(a \in ListTypes /\ b = "u32list", a)
      [] n = "GroupSum" -> IF a \in NumLists /\ b = "u32list" THEN ListOf(SumType(ElemOf(a))) ELSE "none"
      [] n \in {"GroupMax", "GroupMin"} -> Iff(a \in NumLists /\ b = "u32list", a)
      [] n = "GroupAvg" -> Iff(a \in NumLists /\ b = "u32list", "f64list")
      [] n = "GetAt" -> IF a \in NumLists /\ b = "u32" THEN ElemOf(a) ELSE "none"
      [] n = "Truncate" -> Iff(a \in ListTypes /\ b = "u32", a)
      [] n \in ArithFns -> Iff(a \in NumLists /\ b \in {a, ElemOf(a)}, a)
      [] n \in IntListFns -> Iff(a \in IntLists /\ b \in {a, ElemOf(a)}, a)
      [] n \in {"ListMin", "ListMax"} -> Iff(a \in NumLists /\ b = ElemOf(a), a)
      [] n \in GenFns -> Iff(a \in NumLists /\ b \in {a, ElemOf(a)}, "u8list")
      [] n = "FilterByBitmap" -> Iff(a \in NumLists /\ b = "u8list", a)
      [] n = "ListLookupIndex" -> Iff(a = b /\ a \in ListTypes, "u32list")
      [] n \in {"Find", "FindSorted"} -> Iff(a \in ListTypes /\ b = ElemOf(a), "u32")
      [] n = "Bucketize" -> Iff(a = b /\ a \in NumLists, "u32list")
      [] OTHER -> "none"
Ret3(n, a, b, c) ==
    CASE n \in {"CrossJoin", "ZipConcat"} -> Iff(a = "stringlist" /\ b = "stringlist" /\ c = "string", "stringlist")
      [] n \in IfFns -> Iff(a \in NumLists /\ b = ElemOf(a) /\ c = ElemOf(a), a)
      [] n = "IfByBitmap" -> IF a # "u8list" THEN "none"
                             ELSE IF b \in NumLists THEN Iff(c \in {b, ElemOf(b)}, b)
                             ELSE Iff(c \in NumLists /\ b = ElemOf(c), c)
      [] n = "ListGather" -> Iff(a \in ListTypes /\ b = "u32list" /\ c = ElemOf(a), a)
      [] OTHER -> "none"
FnRet(n, ts) ==
    IF n \in UserNames THEN UserRet(n, ts)
    ELSE CASE Len(ts) = 0 -> Iff(n = "FindMiss", "u32")
           [] Len(ts) = 1 -> Ret1(n, ts[1])
           [] Len(ts) = 2 -> Ret2(n, ts[1], ts[2])
           [] Len(ts) = 3 -> Ret3(n, ts[1], ts[2], ts[3])
           [] OTHER -> "none"

-----------------------------------------------------------------------------
(* Transcendental functions of a float of n bytes.                          *)
ExpF(x) ==
    LET n == Len(x)
    IN IF FIsNaN(x) THEN x
       ELSE IF FIsInf(x) \/ (~FIsZero(x) /\ RTop(ROfF(x)) > 10) THEN (IF FSign(x) = 0 THEN FInf(0, n) ELSE FZero(0, n))
       ELSE RToF(RExp(ROfF(x)), n)
LogF(x, base) ==
    LET n == Len(x)
    IN IF FIsNaN(x) THEN x
       ELSE IF FIsZero(x) THEN FInf(1, n)
       ELSE IF FSign(x) = 1 THEN FNaN(n)
       ELSE IF FIsInf(x) THEN x
       ELSE LET l == RLn(ROfF(x))
            IN RToF(CASE base = 0 -> l [] base = 2 -> RDiv(l, Ln2) [] base = 10 -> RDiv(l, Ln10), n)
ExpLike(f, x) == CASE f \in {"exp", "ListExp"} -> ExpF(x)
                   [] f \in {"log", "ListLog"} -> LogF(x, 0)
                   [] f \in {"log2", "ListLog2"} -> LogF(x, 2)
                   [] f \in {"log10", "ListLog10"} -> LogF(x, 10)
TrigF(f, x) ==
    LET n == Len(x)
    IN IF ~FIsFinite(x) THEN FNaN(n)
       ELSE LET sc == RSinCos(ROfF(x))
            IN RToF(CASE f = "sin" -> sc[1] [] f = "cos" -> sc[2] [] f = "tan" -> RDiv(sc[1], sc[2]), n)
\* C Annex F pow; y a float of the same width
PowF(x, y) ==
    LET n == Len(x)
        one == FOfInt(<<1>>, FALSE, n)
        int == FIsFinite(y) /\ (FIsZero(y) \/ FIsIntegral(y))
        odd == int /\ ~FIsZero(y) /\ BBit(FTruncMag(y), 0) = 1
        neg == FSign(y) = 1
        sgn == IF odd THEN FSign(x) ELSE 0
        c1 == FCmp(FAbs(x), one)
    IN IF FIsZero(y) \/ x = one THEN one
       ELSE IF FIsNaN(x) \/ FIsNaN(y) THEN FNaN(n)
       ELSE IF FIsZero(x) THEN (IF neg THEN FInf(sgn, n) ELSE FZero(sgn, n))
       ELSE IF FIsInf(y) THEN (IF c1 = 0 THEN one ELSE IF (c1 = 1) = neg THEN FZero(0, n) ELSE FInf(0, n))
       ELSE IF FIsInf(x) THEN (IF neg THEN FZero(sgn, n) ELSE FInf(sgn, n))
       ELSE IF FSign(x) = 1 /\ ~int THEN FNaN(n)
       ELSE LET z == RMul(ROfF(y), RLn(RAbs(ROfF(x))))
                r == RExp(z)
            IN IF ~RIsZero(z) /\ RTop(z) > 10 THEN (IF z.s = 0 THEN FInf(sgn, n) ELSE FZero(sgn, n))
               ELSE RToF([r EXCEPT !.s = sgn], n)

-----------------------------------------------------------------------------
(* Strings *)
DropTo(s, i) == SubSeq(s, i, Len(s))
StartsWithAt(h, x, i) == i + Len(x) - 1 <= Len(h) /\ \A j \in 1..Len(x) : h[i + j - 1] = x[j]
Contains(h, x) == \E i \in 1..(Len(h) + 1) : StartsWithAt(h, x, i)
IsDigit(b) == b >= 48 /\ b <= 57
\* the value of the longest digit prefix from position i: <<big, next position>>
RECURSIVE Digits(_, _, _)
Digits(s, i, acc) ==
    IF i > Len(s) \/ ~IsDigit(s[i]) THEN <<BNorm(acc), i>>
    ELSE Digits(s, i + 1, TLCEval(BAdd(BMul(acc, <<10>>), BFromNat(s[i] - 48))))
\* text to integer: optional minus for signed types, then digits; anything that does
\* not begin so, or does not fit, gives 0
TextToInt(s, t) ==
    LET n == Size(t)
        neg == IsSigned(t) /\ s # <<>> /\ s[1] = 45
        st == IF neg THEN 2 ELSE 1
        d == Digits(s, st, <<>>)
        limit == IF ~IsSigned(t) THEN BSub(BPow2(8 * n), <<1>>)
                 ELSE IF neg THEN BPow2(8 * n - 1) ELSE BSub(BPow2(8 * n - 1), <<1>>)
    IN IF d[2] = st \/ BCmp(d[1], limit) = 1 THEN WZero(n)
       ELSE IF neg THEN WNegate(BFit(d[1], n)) ELSE BFit(d[1], n)

-----------------------------------------------------------------------------
(* Lists *)
MapSeq(l, F(_)) == TLCEval([i \in 1..Len(l) |-> F(l[i])])
Zip(l, m, F(_, _)) == TLCEval([i \in 1..Len(l) |-> F(l[i], m[i])])
RECURSIVE ConcatAll(_, _, _)
ConcatAll(l, i, acc) == IF i > Len(l) THEN acc ELSE ConcatAll(l, i + 1, TLCEval(acc \o l[i]))
ElemEq(a, b, t) == IF t \in FloatTypes THEN FCmp(a, b) = 0 ELSE a = b
\* position (from 0) of the first element equal to x, or -1
FirstPos(l, x, t) ==
    LET s == {i \in 1..Len(l) : ElemEq(l[i], x, t)}
    IN IF s = {} THEN -1 ELSE (CHOOSE i \in s : \A j \in s : i <= j) - 1
Miss == <<255, 255, 255, 255>>
Pos32(k) == IF k < 0 THEN Miss ELSE WOfNat(k, 4)
\* indexes (from 1) of the elements that are the first of their kind
Firsts(l, t) == LET fp == TLCEval([i \in 1..Len(l) |-> FirstPos(l, l[i], t)])
                IN SelectSeq([i \in 1..Len(l) |-> i], LAMBDA i : fp[i] = i - 1)
GroupIds(l, t) ==
    LET fs == Firsts(l, t)
        rank(p) == CHOOSE k \in 1..Len(fs) : fs[k] = p
    IN TLCEval([i \in 1..Len(l) |-> rank(FirstPos(l, l[i], t) + 1) - 1])
SumAcc(v, t) == Conv(v, t, SumType(t))
SumList(l, t) == FoldL(l, Zero(SumType(t)), LAMBDA a, x : NumAdd(a, SumAcc(x, t), SumType(t)))
SumF64(l, t) == FoldL(l, Zero("f64"), LAMBDA a, x : FAdd(a, Conv(x, t, "f64")))
AvgList(l, t) == IF l = <<>> THEN Zero("f64") ELSE FDiv(SumF64(l, t), FOfInt(WOfNat(Len(l), 4), FALSE, 8))
MaxOf(l, t) == FoldL(l, l[1], LAMBDA a, x : IF NumCmp(x, a, t) = 1 THEN x ELSE a)
MinOf(l, t) == FoldL(l, l[1], LAMBDA a, x : IF NumCmp(x, a, t) = -1 THEN x ELSE a)
Sorted(l, t) == SortSeq(l, LAMBDA a, b : NumCmp(a, b, t) = -1)
RevSeq(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
MedianSorted(l, t) ==
    LET n == Len(l)  f(i) == Conv(l[i], t, "f64")  two == FOfInt(<<2>>, FALSE, 8)
    IN IF n = 0 THEN Zero("f64")
       ELSE IF n % 2 = 1 THEN f((n + 1) \div 2)
       ELSE FDiv(FAdd(f(n \div 2), f(n \div 2 + 1)), two)
\* the values of each group, in order
GroupsOf(vals, gi) ==
    LET ids == TLCEval([i \in 1..Len(gi) |-> BToNat(gi[i])])
        k == IF gi = <<>> THEN 0 ELSE 1 + FoldL(ids, 0, LAMBDA a, x : MaxI(a, x))
    IN TLCEval([g \in 1..k |->
           LET ix == SelectSeq([i \in 1..Len(gi) |-> i], LAMBDA i : ids[i] = g - 1)
           IN [j \in 1..Len(ix) |-> vals[ix[j]]]])

CmpHolds(f, c) ==      \* c = the three-way comparison, 2 = unordered
    CASE f \in {"GenLargeBitmap", "IfLarge"} -> c = 1
      [] f \in {"GenLargeEqualBitmap", "IfLargeEqual"} -> c \in {0, 1}
      [] f \in {"GenEqualBitmap", "IfEqual"} -> c = 0
      [] f \in {"GenLessBitmap", "IfLess"} -> c = -1
      [] f \in {"GenLessEqualBitmap", "IfLessEqual"} -> c \in {-1, 0}
      [] f \in {"GenNotEqualBitmap", "IfNotEqual"} -> c # 0
\* bitmaps: element i is bit i % 8 of byte i / 8; unused bits are zero
ToBitmap(bs) ==
    LET b(i) == IF i <= Len(bs) /\ bs[i] THEN 1 ELSE 0
    IN TLCEval([k \in 1..((Len(bs) + 7) \div 8) |->
        LET o == 8 * (k - 1)
        IN <<b(o + 1) + 2 * b(o + 2) + 4 * b(o + 3) + 8 * b(o + 4) + 16 * b(o + 5) + 32 * b(o + 6) + 64 * b(o + 7) + 128 * b(o + 8)>>])
BitOf(bm, i) == (bm[((i - 1) \div 8) + 1][1] \div P2((i - 1) % 8)) % 2 = 1      \* i from 1
BitsAbove(bm, n) == \E i \in (n + 1)..(8 * Len(bm)) : BitOf(bm, i)

\* MurmurHash3_x86_32
Rotl(a, k) == BOr(WShl(a, k), WShrL(a, 32 - k))
MC1 == <<81, 45, 158, 204>>  MC2 == <<147, 53, 135, 27>>
MMix(k) == WMul(Rotl(WMul(k, MC1), 15), MC2)
RECURSIVE MBody(_, _, _)
MBody(d, i, h) ==
    IF i + 3 > Len(d) THEN h
    ELSE MBody(d, i + 4, TLCEval(WAdd(WMul(Rotl(BXor(h, MMix(SubSeq(d, i, i + 3))), 13), <<5, 0, 0, 0>>), <<100, 107, 84, 230>>)))
Murmur(d, seed) ==
    LET nb == 4 * (Len(d) \div 4)
        h1 == MBody(d, 1, seed)
        tail == SubSeq(d, nb + 1, Len(d))
        h2 == IF tail = <<>> THEN h1 ELSE BXor(h1, MMix(BFit(tail, 4)))
        h3 == BXor(h2, WOfNat(Len(d), 4))
        f1 == TLCEval(WMul(BXor(h3, WShrL(h3, 16)), <<107, 202, 235, 133>>))
        f2 == TLCEval(WMul(BXor(f1, WShrL(f1, 13)), <<53, 174, 178, 194>>))
    IN BXor(f2, WShrL(f2, 16))

-----------------------------------------------------------------------------
Ap(t, v, k) == [t |-> t, v |-> v, ap |-> k]
TolOf(t) == IF t \in {"f32", "f32list"} THEN 20 ELSE 45
FnErr(rt) == [v |-> Val(rt, <<>>), log |-> <<>>, err |-> <<"*">>, fail |-> FALSE]
ToF64(v, t) == IF t \in FloatTypes THEN v ELSE Conv(v, t, "f64")
RoundFn(f, x) == CASE f \in {"ceil", "ListCeil"} -> FCeil(x) [] f \in {"floor", "ListFloor"} -> FFloor(x)
                   [] f = "trunc" -> FTrunc(x) [] f \in {"round", "ListRound"} -> FRoundAway(x)
Text(v, t) == IF t \in IntTypes THEN WDec(v, IsSigned(t)) ELSE <<>>
BinElem(f, x, y, t) ==
    CASE f = "ListAdd" -> NumAdd(x, y, t) [] f = "ListSub" -> NumSub(x, y, t) [] f = "ListMul" -> NumMul(x, y, t)
      [] f = "ListDiv" -> NumDiv(x, y, t) [] f = "ListMod" -> NumMod(x, y, t)
      [] f = "ListBitwiseAnd" -> BAnd(x, y) [] f = "ListBitwiseOr" -> BOr(x, y) [] f = "ListBitwiseXor" -> BXor(x, y)
MinMax(f, x, y, t) == IF (f \in {"min", "ListMin"}) = (NumCmp(x, y, t) = -1) THEN x ELSE y

Eval1(f, a, rt) ==
    LET v == a.v  t == a.t  el == IF t \in ListTypes THEN ElemOf(t) ELSE "void"
    IN CASE f \in ExpFns -> Ap(rt, ExpLike(f, ToF64(v, t)), TolOf(rt))
         [] f \in {"sin", "cos", "tan"} -> Ap(rt, TrigF(f, v), TolOf(rt))
         [] f = "sqrt" -> Val(rt, FSqrt(v))
         [] f = "frac" -> Ap(rt, FSub(v, FTrunc(v)), -1)
         [] f \in {"ceil", "floor", "trunc", "round"} -> Val(rt, RoundFn(f, v))
         [] f = "abs" -> Val(rt, IF t \in FloatTypes THEN (IF FIsNaN(v) THEN v ELSE FAbs(v)) ELSE WAbs(v))
         [] f \in Range1(CastN) -> Val(rt, IF t = "string" THEN TextToInt(v, rt) ELSE Conv(v, t, rt))
         [] f = "CastString" -> IF t \in IntTypes THEN Val(rt, Text(v, t)) ELSE [t |-> rt, v |-> <<>>, rd |-> v]
         [] f = "StringLen" -> U32(Len(v))
         [] f = "Len" -> U32(Len(v))
         [] f = "Sum" -> Val(rt, SumList(v, el))
         [] f = "Max" -> Ap(rt, IF v = <<>> THEN Zero(el) ELSE MaxOf(v, el), IF el \in FloatTypes THEN -1 ELSE 0)
         [] f = "Min" -> Ap(rt, IF v = <<>> THEN Zero(el) ELSE MinOf(v, el), IF el \in FloatTypes THEN -1 ELSE 0)
         [] f = "CountDistinct" -> U32(Len(Firsts(v, el)))
         [] f = "Avg" -> Val(rt, AvgList(v, el))
         [] f = "Median" -> Val(rt, MedianSorted(Sorted(v, el), el))
         [] f = "SortedMedian" -> Val(rt, MedianSorted(v, el))
         [] f = "GroupIndex" -> Val(rt, LET g == GroupIds(v, el) IN MapSeq(g, LAMBDA k : WOfNat(k, 4)))
         [] f = "GroupCount" -> U32(Len(GroupsOf(v, v)))
         [] f = "Unique" -> Val(rt, LET fs == Firsts(v, el) IN MapSeq(fs, LAMBDA i : v[i]))
         [] f = "SortAsc" -> Val(rt, Sorted(v, el))
         [] f = "SortDesc" -> Val(rt, RevSeq(Sorted(v, el)))
         [] f \in ListExpFns -> Ap(rt, MapSeq(v, LAMBDA x : ExpLike(f, ToF64(x, el))), TolOf(rt))
         [] f \in {"ListCeil", "ListFloor", "ListRound"} -> Val(rt, MapSeq(v, LAMBDA x : RoundFn(f, x)))
         [] f = "CountBits" -> U32(FoldL(v, 0, LAMBDA n, x : n + WPop(x)))
         [] f = "MurmurHash3X8632" -> Val(rt, Murmur(ConcatAll(v, 1, <<>>), <<140, 178, 71, 151>>))
         [] f = "CastStringList" ->
                IF el \in IntTypes THEN Val(rt, MapSeq(v, LAMBDA x : Text(x, el))) ELSE [t |-> rt, v |-> <<>>, rd |-> v]
         [] f \in Range1(CastListN) ->
                Val(rt, MapSeq(v, LAMBDA x : IF el = "string" THEN TextToInt(x, ElemOf(rt)) ELSE Conv(x, el, ElemOf(rt))))
         [] f = "ListCompactIndex" -> Val(rt, SelectSeq(v, LAMBDA x : x # Miss))
         [] f = "ListCompactPositions" ->
                Val(rt, LET ix == SelectSeq([i \in 1..Len(v) |-> i], LAMBDA i : v[i] # Miss)
                        IN MapSeq(ix, LAMBDA i : WOfNat(i - 1, 4)))

\* the value, or <<>> for a run-time error
Eval2(f, a, b, rt) ==
    LET v == a.v  t == a.t  w == b.v  el == IF t \in ListTypes THEN ElemOf(t) ELSE t
        both == b.t = t
        x2(i) == IF b.t = t THEN w[i] ELSE w          \* the second operand of element i
        ix == 1..Len(v)
        mis == b.t \in ListTypes /\ Len(v) # Len(w)
        k == IF b.t = "u32" THEN w ELSE <<>>
    IN CASE f = "pow" -> LET x == ToF64(v, t)
                             y == IF b.t = "i32" THEN FOfInt(w, TRUE, Len(x)) ELSE w
                         IN Ap(rt, PowF(x, y),
                               IF b.t = "i32" THEN TolOf(rt) + 3 - BBits(WAbs(w)) ELSE TolOf(rt))
         [] f \in {"min", "max"} -> Ap(rt, MinMax(f, v, w, t), IF t \in FloatTypes THEN -1 ELSE 0)
         [] f = "StringConcat" -> Val(rt, v \o w)
         [] f = "StringCmp" -> Val(rt, WOfInt(StrCmp(v, w), 4))
         [] f = "StringContains" -> Bool(Contains(v, w))
         [] f = "ListConcat" -> Val(rt, v \o w)
         [] f = "in" -> Bool(FirstPos(w, v, t) >= 0)
         [] f = "GroupKeys" -> IF mis THEN <<>> ELSE LET g == GroupsOf(v, w) IN Val(rt, MapSeq(g, LAMBDA l : l[1]))
         [] f = "GroupSum" -> IF mis THEN <<>> ELSE LET g == GroupsOf(v, w) IN Val(rt, MapSeq(g, LAMBDA l : SumList(l, el)))
         [] f = "GroupMax" -> IF mis THEN <<>> ELSE LET g == GroupsOf(v, w) IN Ap(rt, MapSeq(g, LAMBDA l : MaxOf(l, el)), IF el \in FloatTypes THEN -1 ELSE 0)
         [] f = "GroupMin" -> IF mis THEN <<>> ELSE LET g == GroupsOf(v, w) IN Ap(rt, MapSeq(g, LAMBDA l : MinOf(l, el)), IF el \in FloatTypes THEN -1 ELSE 0)
         [] f = "GroupAvg" -> IF mis THEN <<>> ELSE LET g == GroupsOf(v, w) IN Val(rt, MapSeq(g, LAMBDA l : AvgList(l, el)))
         [] f = "GetAt" -> Val(rt, IF BSmall(k) /\ BToNat(k) < Len(v) THEN v[BToNat(k) + 1] ELSE Zero(el))
         [] f = "Truncate" -> Val(rt, IF BSmall(k) /\ BToNat(k) < Len(v) THEN SubSeq(v, 1, BToNat(k)) ELSE v)
         [] f \in ArithFns \cup IntListFns ->
                IF mis THEN <<>> ELSE Val(rt, TLCEval([i \in ix |-> BinElem(f, v[i], x2(i), el)]))
         [] f \in {"ListMin", "ListMax"} -> Ap(rt, TLCEval([i \in ix |-> MinMax(f, v[i], w, el)]), IF el \in FloatTypes THEN -1 ELSE 0)
         [] f \in GenFns -> IF mis THEN <<>>
                            ELSE Val(rt, ToBitmap(TLCEval([i \in ix |-> CmpHolds(f, NumCmp(v[i], x2(i), el))])))
         [] f = "FilterByBitmap" ->
                IF Len(w) # (Len(v) + 7) \div 8 \/ BitsAbove(w, Len(v)) THEN <<>>
                ELSE LET on == SelectSeq([i \in ix |-> i], LAMBDA i : BitOf(w, i)) IN Val(rt, MapSeq(on, LAMBDA i : v[i]))
         [] f = "ListLookupIndex" -> Val(rt, MapSeq(v, LAMBDA x : Pos32(FirstPos(w, x, el))))
         [] f \in {"Find", "FindSorted"} -> Val(rt, Pos32(FirstPos(v, w, el)))
         [] f = "Bucketize" ->
                Val(rt, MapSeq(v, LAMBDA x : WOfNat(Len(SelectSeq(w, LAMBDA y : NumCmp(x, y, el) # -1)), 4)))

Eval3(f, a, b, c, rt) ==
    CASE f = "CrossJoin" ->
            LET n == Len(b.v)
            IN Val(rt, TLCEval([i \in 1..(Len(a.v) * n) |-> a.v[((i - 1) \div n) + 1] \o c.v \o b.v[((i - 1) % n) + 1]]))
      [] f = "ZipConcat" ->
            IF Len(a.v) # Len(b.v) THEN <<>> ELSE Val(rt, Zip(a.v, b.v, LAMBDA x, y : x \o c.v \o y))
      [] f \in IfFns ->
            Val(rt, MapSeq(a.v, LAMBDA x : IF CmpHolds(f, NumCmp(x, b.v, b.t)) THEN c.v ELSE x))
      [] f = "IfByBitmap" ->
            LET bl == b.t \in ListTypes  cl == c.t \in ListTypes
                n == IF bl THEN Len(b.v) ELSE Len(c.v)
            IN IF (bl /\ cl /\ Len(b.v) # Len(c.v)) \/ 8 * Len(a.v) < n THEN <<>>
               ELSE Val(rt, TLCEval([i \in 1..n |-> IF BitOf(a.v, i) THEN (IF bl THEN b.v[i] ELSE b.v)
                                                    ELSE (IF cl THEN c.v[i] ELSE c.v)]))
      [] f = "ListGather" ->
            Val(rt, MapSeq(b.v, LAMBDA k : IF BSmall(k) /\ BToNat(k) < Len(a.v) THEN a.v[BToNat(k) + 1] ELSE c.v))

FnEval(n, vs, in, rt) ==
    IF n \in UserNames THEN UserEval(n, vs, in)
    ELSE LET r == TLCEval(CASE Len(vs) = 0 -> Val("u32", Miss)
                            [] Len(vs) = 1 -> Eval1(n, vs[1], rt)
                            [] Len(vs) = 2 -> Eval2(n, vs[1], vs[2], rt)
                            [] Len(vs) = 3 -> Eval3(n, vs[1], vs[2], vs[3], rt))
         IN IF r = <<>> THEN FnErr(rt) ELSE FnOk(r)
=============================================================================
