-------------------------------- MODULE Word ---------------------------------
(***************************************************************************)
(* Two's-complement machine words of 1, 2, 4 or 8 bytes (little-endian).   *)
(***************************************************************************)
EXTENDS Big

WNeg(a) == IF Len(a) = 0 THEN a ELSE a[Len(a)] >= 128          \* sign bit
WZero(n) == BZeros(n)
WIsZero(a) == BIsZero(a)
WOfNat(k, n) == BFit(BFromNat(k), n)
WAdd(a, b) == BFit(BAdd(a, b), Len(a))
WSub(a, b) == BFit(BSub(a, b), Len(a))
WNegate(a) == WSub(WZero(Len(a)), a)
WOfInt(k, n) == IF k >= 0 THEN WOfNat(k, n) ELSE WNegate(WOfNat(-k, n))
WMul(a, b) == BMulTrunc(a, b, Len(a))
WAbs(a) == IF WNeg(a) THEN WNegate(a) ELSE a                    \* as an unsigned word
\* extension / truncation from a word of the given signedness to n bytes
WExt(a, signed, n) ==
    IF n <= Len(a) THEN SubSeq(a, 1, n)
    ELSE a \o (IF signed /\ WNeg(a) THEN TLCEval([i \in 1..(n - Len(a)) |-> 255]) ELSE BZeros(n - Len(a)))
WCmpU(a, b) == BCmp(a, b)
WCmpS(a, b) == IF WNeg(a) # WNeg(b) THEN (IF WNeg(a) THEN -1 ELSE 1) ELSE BCmp(a, b)
WCmp(a, b, signed) == IF signed THEN WCmpS(a, b) ELSE WCmpU(a, b)
\* division truncates towards zero; the remainder has the dividend's sign
WDivU(a, b) == BFit(BDivMod(a, b)[1], Len(a))
WModU(a, b) == BFit(BDivMod(a, b)[2], Len(a))
WDivS(a, b) == LET q == WDivU(WAbs(a), WAbs(b)) IN IF WNeg(a) # WNeg(b) THEN WNegate(q) ELSE q
WModS(a, b) == LET r == WModU(WAbs(a), WAbs(b)) IN IF WNeg(a) THEN WNegate(r) ELSE r
WShl(a, k) == BFit(BShl(a, k), Len(a))
WShrL(a, k) == BFit(BShr(a, k), Len(a))
WShrA(a, k) == IF WNeg(a) THEN BNot(WShrL(BNot(a), k)) ELSE WShrL(a, k)
\* as a TLC integer; only for values inside the 32-bit range
WToInt(a, signed) == IF signed /\ WNeg(a) THEN -BToNat(WNegate(a)) ELSE BToNat(a)
WMinS(n) == BZeros(n - 1) \o <<128>>
\* decimal rendering
WDec(a, signed) == IF signed /\ WNeg(a) THEN <<45>> \o BDec(WNegate(a)) ELSE BDec(a)
RECURSIVE BytePop(_)
BytePop(x) == IF x = 0 THEN 0 ELSE (x % 2) + BytePop(x \div 2)
RECURSIVE WPopR(_, _)
WPopR(a, i) == IF i > Len(a) THEN 0 ELSE BytePop(a[i]) + WPopR(a, i + 1)
WPop(a) == WPopR(a, 1)
=============================================================================
