-------------------------------- MODULE Ieee ---------------------------------
(***************************************************************************)
(* Exact IEEE-754 binary32/binary64 arithmetic, round-to-nearest-even, on  *)
(* bit patterns (little-endian byte sequences).  A finite number is        *)
(* (-1)^s * m * 2^e with m a big natural.                                  *)
(***************************************************************************)
EXTENDS Word

\* n = number of bytes: 4 or 8
FP(n)    == IF n = 4 THEN 24 ELSE 53          \* precision in bits
FEMin(n) == IF n = 4 THEN -149 ELSE -1074     \* exponent of the least subnormal
FEMax(n) == IF n = 4 THEN 104 ELSE 971        \* exponent of the last place of the greatest binade
FBiasE(n) == IF n = 4 THEN 255 ELSE 2047

FSign(a) == a[Len(a)] \div 128
FExpField(a) == IF Len(a) = 4 THEN (a[4] % 128) * 2 + a[3] \div 128
                ELSE (a[8] % 128) * 16 + a[7] \div 16
FFrac(a) == IF Len(a) = 4 THEN <<a[1], a[2], a[3] % 128>>
            ELSE <<a[1], a[2], a[3], a[4], a[5], a[6], a[7] % 16>>
FIsNaN(a) == FExpField(a) = FBiasE(Len(a)) /\ ~BIsZero(FFrac(a))
FIsInf(a) == FExpField(a) = FBiasE(Len(a)) /\ BIsZero(FFrac(a))
FIsZero(a) == FExpField(a) = 0 /\ BIsZero(FFrac(a))
FIsFinite(a) == FExpField(a) # FBiasE(Len(a))
\* mantissa and exponent of a finite number
FMant(a) == LET f == FFrac(a)
            IN IF FExpField(a) = 0 THEN BNorm(f)
               ELSE IF Len(a) = 4 THEN [f EXCEPT ![3] = @ + 128] ELSE [f EXCEPT ![7] = @ + 16]
FExp(a) == IF FExpField(a) = 0 THEN FEMin(Len(a)) ELSE FExpField(a) - 1 + FEMin(Len(a))

FNaN(n) == IF n = 4 THEN <<0, 0, 192, 127>> ELSE <<0, 0, 0, 0, 0, 0, 248, 127>>
FInf(s, n) == IF n = 4 THEN <<0, 0, 128, 127 + 128 * s>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127 + 128 * s>>
FZero(s, n) == BZeros(n - 1) \o <<128 * s>>
FNeg(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
FAbs(a) == [a EXCEPT ![Len(a)] = @ % 128]

\* assemble from sign, mantissa < 2^p (exact) and exponent e >= FEMin of its last place
FPack(s, m0, e, n) ==
    LET m == BFit(m0, n - 1)
        hid == BBits(m) = FP(n)
        ef == IF hid THEN e - FEMin(n) + 1 ELSE 0
    IN IF n = 4 THEN <<m[1], m[2], (m[3] % 128) + (ef % 2) * 128, (ef \div 2) + 128 * s>>
       ELSE <<m[1], m[2], m[3], m[4], m[5], m[6], (m[7] % 16) + (ef % 16) * 16, (ef \div 16) + 128 * s>>

\* round (-1)^s * (m + sticky*epsilon) * 2^e to n bytes, nearest even
FRound(s, m, e, sticky, n) ==
    IF BIsZero(m) THEN FZero(s, n)
    ELSE LET bits == BBits(m)
             \* exponent of the last place of the result
             le == MaxI(FEMin(n), e + bits - FP(n))
             d == le - e                       \* bits to drop (or add when negative)
         IN IF d <= 0
            THEN \* exact (sticky with d <= 0 never happens: callers keep 2 extra bits)
                 IF le > FEMax(n) THEN FInf(s, n)
                 ELSE FPack(s, BShl(m, -d), le, n)
            ELSE LET q == BShr(m, d)
                     half == BBit(m, d - 1) = 1
                     rest == sticky \/ ~BLowZero(m, d - 1)
                     up == half /\ (rest \/ BBit(q, 0) = 1)
                     q2 == IF up THEN BAdd(q, <<1>>) ELSE q
                     big == BBits(q2) > FP(n)
                     q3 == IF big THEN BShr(q2, 1) ELSE q2
                     le2 == IF big THEN le + 1 ELSE le
                 IN IF le2 > FEMax(n) THEN FInf(s, n)
                    ELSE IF BIsZero(q3) THEN FZero(s, n) ELSE FPack(s, q3, le2, n)

FCanonNaN(a) == IF FIsNaN(a) THEN FNaN(Len(a)) ELSE a

\* |a| < |b| etc. for finite numbers: compare as bit patterns
FAbsCmp(a, b) == BCmp(FAbs(a), FAbs(b))

FAddFinite(a, b) ==
    LET n == Len(a)
        hi == IF FAbsCmp(a, b) >= 0 THEN a ELSE b
        lo == IF FAbsCmp(a, b) >= 0 THEN b ELSE a
        d == FExp(hi) - FExp(lo)
        ss == FSign(hi) = FSign(lo)
    IN IF FIsZero(hi) THEN (IF FSign(a) = 1 /\ FSign(b) = 1 THEN FZero(1, n) ELSE FZero(0, n))
       ELSE IF FIsZero(lo) THEN hi
       ELSE LET big == d > FP(n) + 3
                \* when the gap is large the small operand only leaves a sticky trace
                sh == IF big THEN FP(n) + 3 ELSE d
                mh == BShl(FMant(hi), sh)
                ml == IF big THEN <<1>> ELSE FMant(lo)
                m == IF ss THEN BAdd(mh, ml) ELSE BNorm(BSub(mh, ml))
            IN IF BIsZero(m) THEN FZero(0, n)
               ELSE FRound(FSign(hi), m, FExp(hi) - sh, FALSE, n)

FAdd(a, b) ==
    LET n == Len(a)
    IN IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN(n)
       ELSE IF FIsInf(a) THEN (IF FIsInf(b) /\ FSign(a) # FSign(b) THEN FNaN(n) ELSE a)
       ELSE IF FIsInf(b) THEN b
       ELSE FAddFinite(a, b)
FSub(a, b) == IF FIsNaN(b) THEN FNaN(Len(a)) ELSE FAdd(a, FNeg(b))

FMul(a, b) ==
    LET n == Len(a)
        s == (FSign(a) + FSign(b)) % 2
    IN IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN(n)
       ELSE IF FIsInf(a) \/ FIsInf(b) THEN (IF FIsZero(a) \/ FIsZero(b) THEN FNaN(n) ELSE FInf(s, n))
       ELSE IF FIsZero(a) \/ FIsZero(b) THEN FZero(s, n)
       ELSE FRound(s, BNorm(BMul(FMant(a), FMant(b))), FExp(a) + FExp(b), FALSE, n)

FDiv(a, b) ==
    LET n == Len(a)
        s == (FSign(a) + FSign(b)) % 2
    IN IF FIsNaN(a) \/ FIsNaN(b) THEN FNaN(n)
       ELSE IF FIsInf(a) THEN (IF FIsInf(b) THEN FNaN(n) ELSE FInf(s, n))
       ELSE IF FIsInf(b) THEN FZero(s, n)
       ELSE IF FIsZero(b) THEN (IF FIsZero(a) THEN FNaN(n) ELSE FInf(s, n))
       ELSE IF FIsZero(a) THEN FZero(s, n)
       ELSE LET ma == FMant(a)  mb == FMant(b)
                k == MaxI(0, FP(n) + 3 - (BBits(ma) - BBits(mb)))
                qr == BDivMod(BShl(ma, k), mb)
            IN FRound(s, qr[1], FExp(a) - FExp(b) - k, ~BIsZero(qr[2]), n)

\* C fmod: exact remainder with the sign of a
RECURSIVE FModShift(_, _, _)
FModShift(r, b, k) ==           \* (r * 2^k) mod b, 40 bits at a time
    IF k = 0 THEN BDivMod(r, b)[2]
    ELSE LET t == MinI(k, 40) IN FModShift(TLCEval(BDivMod(BShl(r, t), b)[2]), b, k - t)
FRem(a, b) ==
    LET n == Len(a)
    IN IF FIsNaN(a) \/ FIsNaN(b) \/ FIsInf(a) \/ FIsZero(b) THEN FNaN(n)
       ELSE IF FIsInf(b) \/ FIsZero(a) THEN a
       ELSE IF FAbsCmp(a, b) < 0 THEN a
       ELSE LET d == FExp(a) - FExp(b)            \* >= 0 because |a| >= |b|
                r == FModShift(BDivMod(FMant(a), FMant(b))[2], FMant(b), MaxI(d, 0))
            IN IF d >= 0 THEN FRound(FSign(a), BNorm(r), FExp(b), FALSE, n)
               ELSE a   \* unreachable

\* -1, 0, 1, or 2 when unordered
FCmp(a, b) ==
    IF FIsNaN(a) \/ FIsNaN(b) THEN 2
    ELSE IF FIsZero(a) /\ FIsZero(b) THEN 0
    ELSE IF FSign(a) # FSign(b) THEN (IF FSign(a) = 1 THEN -1 ELSE 1)
    ELSE IF FSign(a) = 0 THEN FAbsCmp(a, b) ELSE -FAbsCmp(a, b)

\* integer word -> float of n bytes
FOfInt(w, signed, n) ==
    LET neg == signed /\ WNeg(w) IN FRound(IF neg THEN 1 ELSE 0, BNorm(IF neg THEN WNegate(w) ELSE w), 0, FALSE, n)
\* float -> float of n bytes
FConv(a, n) ==
    IF n = Len(a) THEN a
    ELSE IF FIsNaN(a) THEN FNaN(n)
    ELSE IF FIsInf(a) THEN FInf(FSign(a), n)
    ELSE IF FIsZero(a) THEN FZero(FSign(a), n)
    ELSE FRound(FSign(a), FMant(a), FExp(a), FALSE, n)
\* magnitude of a finite float truncated towards zero (a big)
FTruncMag(a) == IF FExp(a) >= 0 THEN BShl(FMant(a), FExp(a)) ELSE BShr(FMant(a), -FExp(a))
FIsIntegral(a) == FExp(a) >= 0 \/ BLowZero(FMant(a), -FExp(a))
\* does the truncated value fit an integer type of n bytes?
FFitsInt(a, signed, n) ==
    /\ FIsFinite(a)
    /\ \/ FExp(a) <= 64
    /\ LET m == BNorm(FTruncMag(a))
       IN IF ~signed THEN (FSign(a) = 0 \/ BIsZero(m)) /\ BBits(m) <= 8 * n
          ELSE \/ BBits(m) < 8 * n
               \/ FSign(a) = 1 /\ m = BPow2(8 * n - 1)
FToInt(a, signed, n) ==
    LET m == BFit(FTruncMag(a), n) IN IF FSign(a) = 1 THEN WNegate(m) ELSE m

\* rounding to integral values
FFromMag(s, m, n) == IF BIsZero(m) THEN FZero(s, n) ELSE FRound(s, m, 0, FALSE, n)
FFloor(a) ==
    IF ~FIsFinite(a) THEN FCanonNaN(a) ELSE IF FIsIntegral(a) THEN a
    ELSE LET m == BNorm(FTruncMag(a)) IN FFromMag(FSign(a), IF FSign(a) = 1 THEN BAdd(m, <<1>>) ELSE m, Len(a))
FCeil(a) == IF ~FIsFinite(a) THEN FCanonNaN(a) ELSE FNeg(FFloor(FNeg(a)))
FTrunc(a) == IF ~FIsFinite(a) THEN FCanonNaN(a) ELSE IF FIsIntegral(a) THEN a
             ELSE FFromMag(FSign(a), BNorm(FTruncMag(a)), Len(a))
\* half away from zero (C round)
FRoundAway(a) ==
    IF ~FIsFinite(a) THEN FCanonNaN(a) ELSE IF FIsIntegral(a) THEN a
    ELSE LET m == BNorm(FTruncMag(a))
             half == BBit(FMant(a), -FExp(a) - 1) = 1
         IN FFromMag(FSign(a), IF half THEN BAdd(m, <<1>>) ELSE m, Len(a))
\* integer square root by bisection on bits, then exact rounding of sqrt
RECURSIVE BSqrtR(_, _, _)
BSqrtR(a, k, r) == IF k < 0 THEN r
                   ELSE LET t == BOr(r, BPow2(k)) IN BSqrtR(a, k - 1, TLCEval(IF BLe(BMul(t, t), a) THEN t ELSE r))
BSqrt(a) == BNorm(BSqrtR(a, (BBits(a) + 1) \div 2, <<>>))
FSqrt(a) ==
    LET n == Len(a)
    IN IF FIsNaN(a) THEN FNaN(n) ELSE IF FIsZero(a) THEN a
       ELSE IF FSign(a) = 1 THEN FNaN(n) ELSE IF FIsInf(a) THEN a
       ELSE LET want == 2 * FP(n) + 4
                k0 == MaxI(0, want - BBits(FMant(a)))
                k == IF (FExp(a) - k0) % 2 = 0 THEN k0 ELSE k0 + 1
                m == BShl(FMant(a), k)
                r == BSqrt(m)
            IN FRound(0, r, (FExp(a) - k) \div 2, ~BEq(BMul(r, r), m), n)
=============================================================================
