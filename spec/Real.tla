-------------------------------- MODULE Real ---------------------------------
(***************************************************************************)
(* Real numbers to about 115 bits of relative precision, for the functions *)
(* whose floating-point results are only specified up to a tolerance.      *)
(* A real is (-1)^s * m * 2^e with m a big of at most 16 bytes.            *)
(***************************************************************************)
EXTENDS Ieee

RZero == [s |-> 0, m |-> <<>>, e |-> 0]
RMk(s, m0, e) ==
    LET m == BNorm(m0)  n == Len(m)
    IN IF n = 0 THEN RZero
       ELSE IF n <= 16 THEN [s |-> s, m |-> m, e |-> e]
       ELSE [s |-> s, m |-> SubSeq(m, n - 15, n), e |-> e + 8 * (n - 16)]
RIsZero(a) == a.m = <<>>
RNeg(a) == IF RIsZero(a) THEN a ELSE [a EXCEPT !.s = 1 - @]
RAbs(a) == [a EXCEPT !.s = 0]
ROfNat(k) == RMk(0, BFromNat(k), 0)
ROfInt(k) == IF k < 0 THEN RMk(1, BFromNat(-k), 0) ELSE ROfNat(k)
ROfF(a) == RMk(FSign(a), FMant(a), FExp(a))                \* a finite float
RScale(a, k) == IF RIsZero(a) THEN a ELSE [a EXCEPT !.e = @ + k]
\* exponent of the leading bit
RTop(a) == BBits(a.m) + a.e
RAddX(a, b) ==      \* untrimmed sum
    IF RIsZero(a) THEN b ELSE IF RIsZero(b) THEN a
    ELSE LET e == MinI(a.e, b.e)
             x == BShl(a.m, a.e - e)
             y == BShl(b.m, b.e - e)
         IN IF a.s = b.s THEN [s |-> a.s, m |-> BNorm(BAdd(x, y)), e |-> e]
            ELSE LET c == BCmp(x, y)
                 IN IF c = 0 THEN RZero
                    ELSE IF c = 1 THEN [s |-> a.s, m |-> BNorm(BSub(x, y)), e |-> e]
                    ELSE [s |-> b.s, m |-> BNorm(BSub(y, x)), e |-> e]
RTrim(a) == RMk(a.s, a.m, a.e)
RAdd(a, b) ==
    IF RIsZero(a) THEN b ELSE IF RIsZero(b) THEN a
    ELSE IF RTop(a) > RTop(b) + 160 THEN a ELSE IF RTop(b) > RTop(a) + 160 THEN b
    ELSE RTrim(RAddX(a, b))
RSub(a, b) == RAdd(a, RNeg(b))
RMulX(a, b) == [s |-> (a.s + b.s) % 2, m |-> BNorm(BMul(a.m, b.m)), e |-> a.e + b.e]
RMul(a, b) == IF RIsZero(a) \/ RIsZero(b) THEN RZero ELSE RTrim(RMulX(a, b))
\* quotient; b # 0
RDiv(a, b) ==
    IF RIsZero(a) THEN RZero
    ELSE LET k == MaxI(0, 128 - (BBits(a.m) - BBits(b.m)))
         IN RMk((a.s + b.s) % 2, BDivMod(BShl(a.m, k), b.m)[1], a.e - b.e - k)
\* by a small positive integer
RDivI(a, k) ==
    IF RIsZero(a) THEN a ELSE RMk(a.s, BDivSmallR(BZeros(4) \o a.m, k, Len(a.m) + 4, 0, <<>>)[1], a.e - 32)
RCmpAbs(a, b) ==
    IF RIsZero(a) \/ RIsZero(b) THEN (IF RIsZero(a) THEN (IF RIsZero(b) THEN 0 ELSE -1) ELSE 1)
    ELSE IF RTop(a) # RTop(b) THEN (IF RTop(a) > RTop(b) THEN 1 ELSE -1)
    ELSE LET e == MinI(a.e, b.e) IN BCmp(BShl(a.m, a.e - e), BShl(b.m, b.e - e))
\* nearest integer of a real of magnitude below 2^29
RNearest(a) ==
    LET h == RAdd(RAbs(a), RMk(0, <<1>>, -1))
        n == IF RIsZero(h) \/ RTop(h) <= 0 THEN 0
             ELSE BToNat(IF h.e >= 0 THEN BShl(h.m, h.e) ELSE BShr(h.m, -h.e))
    IN IF a.s = 1 THEN -n ELSE n
\* the float of n bytes nearest to a real
RToF(a, n) == IF RIsZero(a) THEN FZero(0, n) ELSE FRound(a.s, a.m, a.e, FALSE, n)

Ln2 == [s |-> 0, e |-> -192, m |-> <<45, 182, 152, 114, 38, 67, 243, 64, 175, 246, 242, 3, 152, 179, 227, 201, 171, 121, 207, 209, 247, 23, 114, 177>>]
Ln10 == [s |-> 0, e |-> -192, m |-> <<58, 228, 119, 105, 231, 179, 63, 138, 163, 40, 76, 11, 174, 88, 91, 169, 91, 176, 162, 170, 118, 55, 118, 77, 2>>]
HalfPi == [s |-> 0, e |-> -384, m |-> <<54, 134, 116, 154, 103, 51, 42, 223, 187, 9, 104, 28, 243, 16, 148, 162, 68, 54, 39, 118, 76, 125, 23, 4, 232, 152, 207, 20, 17, 156, 4, 82, 162, 57, 184, 1, 23, 197, 140, 137, 105, 132, 209, 66, 68, 181, 31, 146, 1>>]

-----------------------------------------------------------------------------
(* e^x for |x| < 2000 *)
RECURSIVE RExpR(_, _, _, _)
RExpR(r, i, term, sum) ==
    IF i > 13 THEN sum
    ELSE LET t == TLCEval(RDivI(RMul(term, r), i)) IN RExpR(r, i + 1, t, TLCEval(RAdd(sum, t)))
RECURSIVE RSquare(_, _)
RSquare(a, k) == IF k = 0 THEN a ELSE RSquare(TLCEval(RMul(a, a)), k - 1)
RExp(x) ==
    LET k == RNearest(RDiv(x, Ln2))
        r == RTrim(RAddX(x, RNeg(RMulX(ROfInt(k), Ln2))))
        q == RScale(r, -6)
    IN IF k = 0 /\ RIsZero(x) THEN ROfNat(1)
       ELSE RScale(RSquare(RExpR(q, 1, ROfNat(1), ROfNat(1)), 6), k)

(* ln x for x > 0 *)
RECURSIVE RAtanhR(_, _, _, _)
RAtanhR(z2, i, pw, sum) ==        \* pw = z^(2i-1)
    IF i > 24 THEN sum
    ELSE LET p == TLCEval(RMul(pw, z2)) IN RAtanhR(z2, i + 1, p, TLCEval(RAdd(sum, RDivI(p, 2 * i + 1))))
RLn(x) ==
    LET b == RTop(x)                      \* x in [2^(b-1), 2^b)
        m0 == RScale(x, -b)               \* in [1/2, 1)
        low == RCmpAbs(m0, RDivI(ROfNat(2), 3)) < 0
        m == IF low THEN RScale(m0, 1) ELSE m0
        k == IF low THEN b - 1 ELSE b
        z == RDiv(RSub(m, ROfNat(1)), RAdd(m, ROfNat(1)))
        l == IF RIsZero(z) THEN RZero ELSE RScale(RAtanhR(RMul(z, z), 1, z, z), 1)
    IN RTrim(RAddX(l, RTrim(RMulX(ROfInt(k), Ln2))))

(* sine and cosine of a real below 2^28 in magnitude *)
RECURSIVE RTrigR(_, _, _, _)
RTrigR(x2, i, term, sum) ==           \* next term is -term * x^2 / (i (i+1))
    IF i > 32 THEN sum
    ELSE LET t == TLCEval(RNeg(RDivI(RMul(term, x2), i * (i + 1)))) IN RTrigR(x2, i + 2, t, TLCEval(RAdd(sum, t)))
\* <<sin, cos>>
RSinCos(x) ==
    LET k == RNearest(RDiv(x, RTrim(HalfPi)))
        r == RTrim(RAddX(x, RNeg(RMulX(ROfInt(k), HalfPi))))
        x2 == RMul(r, r)
        sn == RTrigR(x2, 2, r, r)
        cs == RTrigR(x2, 1, ROfNat(1), ROfNat(1))
        q == ((k % 4) + 4) % 4
    IN CASE q = 0 -> <<sn, cs>>
         [] q = 1 -> <<cs, RNeg(sn)>>
         [] q = 2 -> <<RNeg(sn), RNeg(cs)>>
         [] q = 3 -> <<RNeg(cs), sn>>

-----------------------------------------------------------------------------
(* Is the float a the real r up to a relative error of 2^-k (and a few of  *)
(* the least subnormals)?                                                  *)
RNear(a, r, k) ==
    LET n == Len(a)
        maxf == RMk(0, BSub(BPow2(FP(n)), <<1>>), FEMax(n))
        slack(x) == RAdd(RScale(RAbs(x), -k), RMk(0, <<1>>, FEMin(n) + 2))
    IN IF FIsNaN(a) THEN FALSE
       ELSE IF FIsInf(a) THEN FSign(a) = r.s /\ RCmpAbs(RAdd(RAbs(r), slack(r)), maxf) > 0
       ELSE RCmpAbs(RSub(ROfF(a), r), slack(r)) <= 0

-----------------------------------------------------------------------------
(* The float of n bytes nearest to digits * 10^x, digits a big.             *)
RECURSIVE BPow10(_)
BPow10(k) == IF k = 0 THEN <<1>>
             ELSE IF k >= 4 THEN LET q == TLCEval(BPow10(k - 4)) IN TLCEval(BMul(q, <<16, 39>>))
             ELSE LET q == TLCEval(BPow10(k - 1)) IN TLCEval(BMul(q, <<10>>))
FOfDec(s, digits, x, n) ==
    IF BIsZero(digits) THEN FZero(s, n)
    ELSE IF x > 400 THEN FInf(s, n)
    ELSE IF x >= 0 THEN FRound(s, BNorm(BMul(BNorm(digits), BNorm(BPow10(x)))), 0, FALSE, n)
    ELSE LET d == TLCEval(BNorm(BPow10(-x)))
             k == MaxI(0, FP(n) + 4 + BBits(d) - BBits(digits))
             qr == TLCEval(BDivMod(TLCEval(BShl(digits, k)), d))
         IN FRound(s, qr[1], -k, ~BIsZero(qr[2]), n)
=============================================================================
