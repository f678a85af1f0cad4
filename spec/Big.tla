--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Natural numbers of any size as little-endian sequences of bytes.        *)
(* TLC's own integers have 32 bits, the machine words of jitfusion up to   *)
(* 64, and exact IEEE-754 arithmetic needs more than that in between.      *)
(* A "big" may carry leading zeros (at its end); BNorm removes them.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
SX == INSTANCE SequencesExt
\* TLC evaluates a fold step by step, without the stack of a recursion
FoldL(l, acc, F(_, _)) == SX!FoldLeft(F, acc, l)

LOCAL INSTANCE Bitwise

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

Pow2Tab == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192,
             16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152,
             4194304, 8388608, 16777216, 33554432, 67108864, 134217728,
             268435456, 536870912, 1073741824>>
P2(n) == Pow2Tab[n + 1]                     \* 2^n for 0 <= n <= 30

BAt(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE BNormLen(_, _)
BNormLen(a, n) == IF n = 0 THEN 0 ELSE IF a[n] # 0 THEN n ELSE BNormLen(a, n - 1)
BNorm(a) == LET n == BNormLen(a, Len(a)) IN IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)
BIsZero(a) == BNormLen(a, Len(a)) = 0

BZeros(n) == IF n <= 0 THEN <<>> ELSE TLCEval([i \in 1..n |-> 0])
BFit(a, n) ==                                \* exactly n bytes, i.e. mod 256^n
    IF Len(a) = n THEN a
    ELSE IF Len(a) > n THEN SubSeq(a, 1, n) ELSE a \o BZeros(n - Len(a))

RECURSIVE BFromNat(_)
BFromNat(k) == IF k = 0 THEN <<>> ELSE <<k % 256>> \o BFromNat(k \div 256)
\* only for values below 2^31
RECURSIVE BToNatR(_, _)
BToNatR(a, i) == IF i > Len(a) THEN 0 ELSE a[i] + 256 * BToNatR(a, i + 1)
BToNat(a) == BToNatR(BNorm(a), 1)
\* TRUE iff the value is below 2^30
BSmall(a) == LET n == BNormLen(a, Len(a)) IN n < 4 \/ (n = 4 /\ a[4] < 64)

RECURSIVE BCmpR(_, _, _)
BCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE LET x == BAt(a, i) y == BAt(b, i)
                       IN IF x < y THEN -1 ELSE IF x > y THEN 1 ELSE BCmpR(a, b, i - 1)
BCmp(a, b) == BCmpR(a, b, MaxI(Len(a), Len(b)))       \* -1, 0, 1
BLt(a, b) == BCmp(a, b) = -1
BLe(a, b) == BCmp(a, b) # 1
BEq(a, b) == BCmp(a, b) = 0

RECURSIVE BAddR(_, _, _, _, _, _)
BAddR(a, b, i, n, c, acc) ==
    IF i > n THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == BAt(a, i) + BAt(b, i) + c
         IN BAddR(a, b, i + 1, n, s \div 256, Append(acc, s % 256))
BAdd(a, b) == BAddR(a, b, 1, MaxI(Len(a), Len(b)), 0, <<>>)

\* a - b modulo 256^n where n = max length; exact when a >= b
RECURSIVE BSubR(_, _, _, _, _, _)
BSubR(a, b, i, n, c, acc) ==
    IF i > n THEN acc
    ELSE LET s == BAt(a, i) - BAt(b, i) - c
         IN IF s < 0 THEN BSubR(a, b, i + 1, n, 1, Append(acc, s + 256))
            ELSE BSubR(a, b, i + 1, n, 0, Append(acc, s))
BSub(a, b) == BSubR(a, b, 1, MaxI(Len(a), Len(b)), 0, <<>>)

\* product column by column: column k sums a[i]*b[k-i+1], at most 2^16 * length
RECURSIVE BColR(_, _, _, _, _)
BColR(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k - i + 1] + BColR(a, b, k, i + 1, hi)
RECURSIVE BMulR(_, _, _, _, _, _)
BMulR(a, b, k, n, c, acc) ==
    IF k > n THEN acc
    ELSE LET s == c + BColR(a, b, k, MaxI(1, k - Len(b) + 1), MinI(k, Len(a)))
         IN BMulR(a, b, k + 1, n, s \div 256, Append(acc, s % 256))
BMul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN <<>>
              ELSE BMulR(a, b, 1, Len(a) + Len(b), 0, <<>>)
BMulTrunc(a, b, n) == IF Len(a) = 0 \/ Len(b) = 0 THEN BZeros(n)
              ELSE BFit(BMulR(a, b, 1, MinI(n, Len(a) + Len(b)), 0, <<>>), n)

BPow2(k) == BZeros(k \div 8) \o <<P2(k % 8)>>
\* a * 2^k
RECURSIVE BShlR(_, _, _, _, _)
BShlR(a, m, i, c, acc) ==
    IF i > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
    ELSE LET s == a[i] * m + c IN BShlR(a, m, i + 1, s \div 256, Append(acc, s % 256))
BShl(a, k) == IF k = 0 THEN a
              ELSE BZeros(k \div 8) \o (IF k % 8 = 0 THEN a ELSE BShlR(a, P2(k % 8), 1, 0, <<>>))
\* floor(a / 2^k)
BShr(a, k) ==
    LET w == k \div 8  r == k % 8  n == Len(a) - w
    IN IF n <= 0 THEN <<>>
       ELSE IF r = 0 THEN SubSeq(a, w + 1, Len(a))
       ELSE TLCEval([i \in 1..n |-> (a[i + w] \div P2(r)) + ((BAt(a, i + w + 1) * P2(8 - r)) % 256)])
\* bit k (from 0) of a
BBit(a, k) == LET i == (k \div 8) + 1 IN IF i > Len(a) THEN 0 ELSE (a[i] \div P2(k % 8)) % 2
ByteBits(x) == IF x >= 128 THEN 8 ELSE IF x >= 64 THEN 7 ELSE IF x >= 32 THEN 6 ELSE IF x >= 16 THEN 5
               ELSE IF x >= 8 THEN 4 ELSE IF x >= 4 THEN 3 ELSE IF x >= 2 THEN 2 ELSE IF x >= 1 THEN 1 ELSE 0
BBits(a) == LET n == BNormLen(a, Len(a)) IN IF n = 0 THEN 0 ELSE (n - 1) * 8 + ByteBits(a[n])
\* are the low k bits of a all zero?
RECURSIVE BAllZeroTo(_, _)
BAllZeroTo(a, n) == IF n = 0 THEN TRUE ELSE a[n] = 0 /\ BAllZeroTo(a, n - 1)
BLowZero(a, k) == LET w == MinI(k \div 8, Len(a))
                  IN BAllZeroTo(a, w)
                     /\ (IF w < Len(a) /\ k \div 8 = w THEN a[w + 1] % P2(k % 8) = 0 ELSE TRUE)

\* division by a small number d < 2^22
RECURSIVE BDivSmallR(_, _, _, _, _)
BDivSmallR(a, d, i, r, acc) ==
    IF i = 0 THEN <<acc, r>>
    ELSE LET s == r * 256 + a[i] IN BDivSmallR(a, d, i - 1, s % d, <<s \div d>> \o acc)
\* schoolbook long division, one bit at a time: <<quotient, remainder>>, b # 0
RECURSIVE BDivR(_, _, _, _, _)
BDivR(a, b, k, r, q) ==     \* q: bits so far collected as a sequence of quotient bits, high first
    IF k < 0 THEN <<q, r>>
    ELSE LET r2 == LET s == BShlR(r, 2, 1, BBit(a, k), <<>>) IN s
         IN IF BLe(b, r2) THEN BDivR(a, b, k - 1, TLCEval(BNorm(BSub(r2, b))), TLCEval(Append(q, 1)))
            ELSE BDivR(a, b, k - 1, TLCEval(r2), TLCEval(Append(q, 0)))
\* bits, high first -> big
BFromBits(bits) ==
    LET n == Len(bits)
        bit(k) == IF k < n THEN bits[n - k] ELSE 0
    IN TLCEval([i \in 1..((n + 7) \div 8) |->
            LET o == 8 * (i - 1) IN bit(o) + 2 * bit(o + 1) + 4 * bit(o + 2) + 8 * bit(o + 3)
                + 16 * bit(o + 4) + 32 * bit(o + 5) + 64 * bit(o + 6) + 128 * bit(o + 7)])
BDivMod(a0, b0) ==
    LET a == BNorm(a0)  b == BNorm(b0)
    IN IF BLt(a, b) THEN <<(<<>>), a>>
       ELSE IF Len(b) <= 2
       THEN LET r == BDivSmallR(a, BToNat(b), Len(a), 0, <<>>) IN <<BNorm(r[1]), BFromNat(r[2])>>
       ELSE LET sh == BBits(a) - BBits(b) + 1
                r == BDivR(a, b, sh - 1, BShr(a, sh), <<>>)
            IN <<BNorm(BFromBits(r[1])), BNorm(r[2])>>

BAnd(a, b) == TLCEval([i \in 1..MaxI(Len(a), Len(b)) |-> BAt(a, i) & BAt(b, i)])
BOr(a, b)  == TLCEval([i \in 1..MaxI(Len(a), Len(b)) |-> BAt(a, i) | BAt(b, i)])
BXor(a, b) == TLCEval([i \in 1..MaxI(Len(a), Len(b)) |-> BAt(a, i) ^^ BAt(b, i)])
BNot(a)    == TLCEval([i \in 1..Len(a) |-> 255 - a[i]])

\* decimal digits (ASCII) of a big
RECURSIVE BDecR(_, _)
BDecR(a, acc) == IF BIsZero(a) THEN acc
                 ELSE LET r == BDivSmallR(a, 10, Len(a), 0, <<>>) IN BDecR(BNorm(r[1]), <<48 + r[2]>> \o acc)
BDec(a) == IF BIsZero(a) THEN <<48>> ELSE BDecR(BNorm(a), <<>>)
\* a * m + c for a small m
RECURSIVE BMulAddSmall(_, _, _, _, _)
BMulAddSmall(a, m, c, i, acc) ==
    IF i > Len(a) THEN (IF c = 0 THEN acc ELSE IF c < 256 THEN Append(acc, c) ELSE acc \o <<c % 256, c \div 256>>)
    ELSE LET s == a[i] * m + c IN BMulAddSmall(a, m, TLCEval(s \div 256), i + 1, TLCEval(Append(acc, s % 256)))
\* value of a sequence of ASCII decimal digits
RECURSIVE BParseR(_, _, _)
BParseR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF i + 3 <= Len(s)
    THEN BParseR(s, i + 4, TLCEval(BMulAddSmall(acc, 10000, (s[i] - 48) * 1000 + (s[i+1] - 48) * 100 + (s[i+2] - 48) * 10 + s[i+3] - 48, 1, <<>>)))
    ELSE BParseR(s, i + 1, TLCEval(BMulAddSmall(acc, 10, s[i] - 48, 1, <<>>)))
BParse(s) == BNorm(BParseR(s, 1, <<>>))
=============================================================================
