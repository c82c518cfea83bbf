------------------------------ MODULE Float32 ------------------------------
(* IEEE-754 binary32, round to nearest even, on bit patterns.              *)
(* A float is the value <<2, hi, lo>> of NanoValues: the two 16 bit halves. *)
(* All arithmetic is exact integer arithmetic on mantissas below 2^31.      *)
EXTENDS Int32

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384,
        32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304,
        8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>
Pow2(k) == P2[k + 1]                                 \* 0 <= k <= 30

RECURSIVE BitLenR(_, _)
BitLenR(n, k) == IF k > 30 \/ n < Pow2(k) THEN k ELSE BitLenR(n, k + 1)
BitLen(n) == IF n >= 65536 THEN BitLenR(n, 16) ELSE BitLenR(n, 0)  \* 0..31

Mk(s, e, m) == <<2, s * 32768 + e * 128 + m \div 65536, (m % 65536)>>
FSign(x) == x[2] \div 32768
FExp(x)  == ((x[2] \div 128) % 256)
FMan(x)  == (x[2] % 128) * 65536 + x[3]

FInf(s)  == Mk(s, 255, 0)
FZero(s) == Mk(s, 0, 0)
FNaN     == <<2, 32704, 0>>                  \* canonical NaN of the model

IsNaN(x)  == FExp(x) = 255 /\ FMan(x) # 0
IsInf(x)  == FExp(x) = 255 /\ FMan(x) = 0
IsZero(x) == FExp(x) = 0 /\ FMan(x) = 0
Canon(x)  == IF IsNaN(x) THEN FNaN ELSE x

\* finite x = (-1)^s * M(x) * 2^Q(x)
M(x) == IF FExp(x) = 0 THEN FMan(x) ELSE FMan(x) + 8388608
Q(x) == IF FExp(x) = 0 THEN -149 ELSE FExp(x) - 150

\* (-1)^s * (m + fraction) * 2^q rounded, 0 < m < 2^31, sticky iff fraction > 0
\* (a sticky m must have at least 26 significant bits or q be below -149)
RoundPack(s, m, q, sticky) ==
  IF m = 0 THEN FZero(s) ELSE
  LET t0 == q + BitLen(m) - 24
      t  == IF t0 < -149 THEN -149 ELSE t0
      sh == t - q
      r  == IF sh <= 0 THEN m * Pow2(-sh)
            ELSE IF sh > 31 THEN 0
            ELSE IF sh = 31 THEN
                   (IF m > 1073741824 \/ (m = 1073741824 /\ sticky) THEN 1 ELSE 0)
            ELSE LET d == m \div Pow2(sh)
                     f == (m % Pow2(sh))
                     h == Pow2(sh - 1)
                 IN IF f > h \/ (f = h /\ (sticky \/ (d % 2) = 1)) THEN d + 1 ELSE d
      r2 == IF r = 16777216 THEN 8388608 ELSE r
      t2 == IF r = 16777216 THEN t + 1 ELSE t
  IN IF r2 < 8388608 THEN Mk(s, 0, r2)
     ELSE IF t2 + 150 >= 255 THEN FInf(s)
     ELSE Mk(s, t2 + 150, r2 - 8388608)

FFromInt(v) ==
  IF v = 0 THEN FZero(0)
  ELSE IF v = MinI THEN RoundPack(1, 8388608, 8, FALSE)
  ELSE IF v < 0 THEN RoundPack(1, -v, 0, FALSE) ELSE RoundPack(0, v, 0, FALSE)

FNeg(x) == IF x[2] >= 32768 THEN <<2, x[2] - 32768, x[3]>>
           ELSE <<2, x[2] + 32768, x[3]>>
FNegC(x) == IF IsNaN(x) THEN FNaN ELSE FNeg(x)

\* |x| + |y| or |x| - |y| for finite non zero x, y with Q(x) >= Q(y)
FAddFin(x, y) ==
  LET d  == Q(x) - Q(y)
      mx == M(x) * 32
      my == M(y) * 32
      yy == IF d > 29 THEN 0 ELSE my \div Pow2(d)
      st == IF d > 29 THEN TRUE ELSE (my % Pow2(d)) # 0
      sx == FSign(x)
      sy == FSign(y)
  IN IF sx = sy THEN RoundPack(sx, mx + yy, Q(x) - 5, st)
     ELSE LET r == IF st THEN mx - yy - 1 ELSE mx - yy IN
          IF r = 0 /\ ~st THEN FZero(0)
          ELSE IF r >= 0 THEN RoundPack(sx, r, Q(x) - 5, st)
          ELSE RoundPack(sy, -r, Q(x) - 5, FALSE)

FAdd(x, y) ==
  IF IsNaN(x) \/ IsNaN(y) THEN FNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) /\ FSign(x) # FSign(y) THEN FNaN ELSE x)
  ELSE IF IsInf(y) THEN y
  ELSE IF IsZero(x) /\ IsZero(y) THEN
         (IF FSign(x) = 1 /\ FSign(y) = 1 THEN FZero(1) ELSE FZero(0))
  ELSE IF IsZero(x) THEN y
  ELSE IF IsZero(y) THEN x
  ELSE IF Q(x) >= Q(y) THEN FAddFin(x, y) ELSE FAddFin(y, x)

FSub(x, y) == IF IsNaN(y) THEN FNaN ELSE FAdd(x, FNeg(y))

\* normalised mantissa (24 bits) and exponent
NormSh(x) == 24 - BitLen(M(x))
NM(x) == M(x) * Pow2(NormSh(x))
NQ(x) == Q(x) - NormSh(x)

SignXor(a, b) == IF a = b THEN 0 ELSE 1

FMul(x, y) ==
  LET s == SignXor(FSign(x), FSign(y)) IN
  IF IsNaN(x) \/ IsNaN(y) THEN FNaN
  ELSE IF IsInf(x) \/ IsInf(y) THEN
         (IF IsZero(x) \/ IsZero(y) THEN FNaN ELSE FInf(s))
  ELSE IF IsZero(x) \/ IsZero(y) THEN FZero(s)
  ELSE LET a == NM(x)   b == NM(y)
           a1 == a \div 4096   a0 == (a % 4096)
           b1 == b \div 4096   b0 == (b % 4096)
           mid == a1 * b0 + a0 * b1
           t   == a0 * b0 + (mid % 4096) * 4096
           hi  == a1 * b1 + mid \div 4096 + t \div 16777216
           lo  == (t % 16777216)
       IN RoundPack(s, hi * 64 + lo \div 262144, NQ(x) + NQ(y) + 18,
                    (lo % 262144) # 0)

\* n quotient bits of r / d, r < 2 * d: <<quotient, remainder>>
RECURSIVE DivBits(_, _, _, _)
DivBits(r, d, n, q) ==
  IF n = 0 THEN <<q, r>>
  ELSE IF r >= d THEN DivBits((r - d) * 2, d, n - 1, q * 2 + 1)
  ELSE DivBits(r * 2, d, n - 1, q * 2)

FDiv(x, y) ==
  LET s == SignXor(FSign(x), FSign(y)) IN
  IF IsNaN(x) \/ IsNaN(y) THEN FNaN
  ELSE IF IsInf(x) THEN (IF IsInf(y) THEN FNaN ELSE FInf(s))
  ELSE IF IsInf(y) THEN FZero(s)
  ELSE IF IsZero(y) THEN (IF IsZero(x) THEN FNaN ELSE FInf(s))
  ELSE IF IsZero(x) THEN FZero(s)
  ELSE LET r == DivBits(NM(x), NM(y), 28, 0) IN
       RoundPack(s, r[1], NQ(x) - NQ(y) - 27, r[2] # 0)

\* comparisons (false for NaN)
FOrd(x) == \* sign, then magnitude, as a pair of comparable integers
  IF IsZero(x) THEN <<0, 0>>
  ELSE IF FSign(x) = 1 THEN <<-(x[2] - 32768) , -x[3]>> ELSE <<x[2], x[3]>>
FLt(x, y) == /\ ~IsNaN(x) /\ ~IsNaN(y)
             /\ LET a == FOrd(x)  b == FOrd(y) IN
                a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
FEq(x, y) == ~IsNaN(x) /\ ~IsNaN(y) /\ FOrd(x) = FOrd(y)
FLe(x, y) == FLt(x, y) \/ FEq(x, y)

\* rounding to integral values; mode "f" floor, "c" ceil, "r" half away
FIntegral(x, mode) ==
  IF FExp(x) = 255 \/ Q(x) >= 0 \/ IsZero(x) THEN Canon(x)
  ELSE LET s  == FSign(x)
           k  == -Q(x)
           d  == IF k > 24 THEN 0 ELSE M(x) \div Pow2(k)
           f  == IF k > 24 THEN TRUE ELSE (M(x) % Pow2(k)) # 0
           h  == IF k > 24 THEN FALSE ELSE (M(x) % Pow2(k)) >= Pow2(k - 1)
           up == CASE mode = "f" -> f /\ s = 1
                   [] mode = "c" -> f /\ s = 0
                   [] mode = "r" -> h
           n  == IF up THEN d + 1 ELSE d
       IN IF n = 0 THEN FZero(s) ELSE RoundPack(s, n, 0, FALSE)

\* float to int, truncating; defined for |x| < 2^31 only
FTruncOk(x) == FExp(x) < 158
FTrunc(x) ==
  LET k == -Q(x)
      d == IF k >= 0 THEN (IF k > 24 THEN 0 ELSE M(x) \div Pow2(k))
           ELSE M(x) * Pow2(-k)
  IN IF FSign(x) = 1 THEN -d ELSE d

\* square root: integer root by bits
RECURSIVE RootBits(_, _, _, _, _)
\* r remainder, q root, m radicand (pairs of bits from the top), n pairs left
RootBits(r, q, m, n, done) ==
  IF n = 0 THEN <<q, r>>
  ELSE LET sh == 2 * (done - 1)
           pair == IF done > 0 THEN (m \div Pow2(sh)) % 4 ELSE 0
           r2 == r * 4 + pair
           t  == q * 4 + 1
       IN IF r2 >= t THEN RootBits(r2 - t, q * 2 + 1, m, n - 1, IF done > 0 THEN done - 1 ELSE 0)
          ELSE RootBits(r2, q * 2, m, n - 1, IF done > 0 THEN done - 1 ELSE 0)

FSqrt(x) ==
  IF IsNaN(x) THEN FNaN
  ELSE IF IsZero(x) THEN x
  ELSE IF FSign(x) = 1 THEN FNaN
  ELSE IF IsInf(x) THEN x
  ELSE LET m0 == NM(x)   q0 == NQ(x)
           m  == IF (q0 % 2) = 0 THEN m0 ELSE m0 * 2      \* < 2^25
           q  == IF (q0 % 2) = 0 THEN q0 ELSE q0 - 1
           \* root of m * 2^26 : 13 pairs of m, then 13 zero pairs
           r  == RootBits(0, 0, m, 26, 13)
       IN RoundPack(0, r[1], q \div 2 - 13, r[2] # 0)

-----------------------------------------------------------------------------
(* Big naturals, little endian limbs in base 10^4                            *)
RECURSIVE BMul(_, _, _, _)
BMul(b, k, i, c) ==                 \* b * k + c, k < 2^13 * ...
  IF i > Len(b) THEN (IF c = 0 THEN <<>> ELSE <<(c % 10000)>> \o BMul(<<>>, 0, 1, c \div 10000))
  ELSE LET t == b[i] * k + c IN <<(t % 10000)>> \o BMul(b, k, i + 1, t \div 10000)
BigMul(b, k) == BMul(b, k, 1, 0)
BigAdd1(b) == BMul(b, 1, 1, 1)
BigFromInt(n) == BMul(<<>>, 0, 1, n)

\* division by a small number, from the most significant limb
RECURSIVE BDiv(_, _, _, _)
BDiv(b, k, i, r) ==
  IF i = 0 THEN [q |-> <<>>, r |-> r]
  ELSE LET t == r * 10000 + b[i]
           rest == BDiv(b, k, i - 1, (t % k))
       IN [q |-> rest.q \o <<t \div k>>, r |-> rest.r]
RECURSIVE BTrim(_)
BTrim(b) == IF Len(b) > 0 /\ b[Len(b)] = 0 THEN BTrim(SubSeq(b, 1, Len(b) - 1)) ELSE b
BigDiv(b, k) == LET d == BDiv(b, k, Len(b), 0) IN [q |-> BTrim(d.q), r |-> d.r]

RECURSIVE BigShl(_, _)
BigShl(b, k) == IF k = 0 THEN b
                ELSE IF k >= 13 THEN BigShl(BigMul(b, 8192), k - 13)
                ELSE BigMul(b, Pow2(k))
RECURSIVE BigShr(_, _, _)
BigShr(b, k, st) ==
  IF k = 0 \/ b = <<>> THEN [q |-> b, st |-> st]
  ELSE LET j == IF k >= 13 THEN 13 ELSE k
           d == BigDiv(b, Pow2(j))
       IN BigShr(d.q, k - j, st \/ d.r # 0)

Pad4(n) == <<48 + n \div 1000, 48 + ((n \div 100) % 10), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
RECURSIVE BigTextR(_, _)
BigTextR(b, i) == IF i = 0 THEN <<>> ELSE Pad4(b[i]) \o BigTextR(b, i - 1)
BigText(b) == IF b = <<>> THEN <<48>>
              ELSE Digits(b[Len(b)]) \o BigTextR(b, Len(b) - 1)

RECURSIVE Zeros(_)
Zeros(n) == IF n <= 0 THEN <<>> ELSE <<48>> \o Zeros(n - 1)

\* printf("%f"): six decimals, exact, round half even
FText(x) ==
  LET sg == IF FSign(x) = 1 THEN <<45>> ELSE <<>> IN
  IF IsInf(x) THEN sg \o <<105, 110, 102>>
  ELSE IF Q(x) >= 0 THEN
    sg \o BigText(BigShl(BigFromInt(M(x)), Q(x))) \o <<46>> \o Zeros(6)
  ELSE LET n  == BigMul(BigMul(BigFromInt(M(x)), 1000), 1000)
           h  == BigShr(n, -Q(x) - 1, FALSE)
           d  == BigDiv(h.q, 2)
           odd == d.q # <<>> /\ (d.q[1] % 2) = 1
           v  == IF d.r = 1 /\ (h.st \/ odd) THEN BigAdd1(d.q) ELSE d.q
           t  == BigText(v)
           tt == Zeros(7 - Len(t)) \o t
       IN sg \o SubSeq(tt, 1, Len(tt) - 6) \o <<46>> \o SubSeq(tt, Len(tt) - 5, Len(tt))

\* decimal literal: digits before and after the point (codes), correctly rounded
RECURSIVE BigOfDigits(_, _, _)
BigOfDigits(ds, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE BigOfDigits(ds, i + 1, BTrim(BMul(acc, 10, 1, ds[i] - 48)))
RECURSIVE BigPow10(_)
BigPow10(k) == IF k = 0 THEN <<1>> ELSE IF k >= 4 THEN <<0>> \o BigPow10(k - 4)
               ELSE BigMul(BigPow10(k - 1), 10)
RECURSIVE BigGeqR(_, _, _)
BigGeqR(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE BigGeqR(a, b, i - 1)
BigGeq(a, b) == IF Len(a) # Len(b) THEN Len(a) > Len(b) ELSE BigGeqR(a, b, Len(a))
RECURSIVE BSub(_, _, _, _)
BSub(a, b, i, c) ==
  IF i > Len(a) THEN <<>>
  ELSE LET t == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - c
       IN <<IF t < 0 THEN t + 10000 ELSE t>> \o BSub(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
BigSub(a, b) == BTrim(BSub(a, b, 1, 0))

\* shift the fraction f/p left until m has 28 bits; m integer part so far
RECURSIVE FracBits(_, _, _, _)
FracBits(m, q, f, p) ==
  IF f = <<>> \/ m >= 134217728 \/ q < -200 THEN RoundPack(0, m, q, f # <<>>)
  ELSE LET g == BigMul(f, 2) IN
       IF BigGeq(g, p) THEN FracBits(m * 2 + 1, q - 1, BigSub(g, p), p)
       ELSE FracBits(m * 2, q - 1, g, p)
\* reduce a big integer part below 2^28
RECURSIVE IntBits(_, _, _, _, _)
IntBits(b, q, st, f, p) ==
  IF Len(b) <= 2 THEN
     LET m == IF Len(b) = 0 THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE b[2] * 10000 + b[1]
     IN IF q = 0 THEN FracBits(m, 0, f, p)
        ELSE RoundPack(0, m, q, st \/ f # <<>>)
  ELSE IF q > 200 THEN FInf(0)
  ELSE LET d == BigDiv(b, 2) IN IntBits(d.q, q + 1, st \/ d.r # 0, f, p)
FLiteral(ds, fs) ==
  LET b == BTrim(BigOfDigits(ds, 1, <<>>)) IN
  IF Len(b) > 2 THEN IntBits(b, 0, FALSE, BTrim(BigOfDigits(fs, 1, <<>>)), BigPow10(Len(fs)))
  ELSE IntBits(b, 0, FALSE, BTrim(BigOfDigits(fs, 1, <<>>)), BigPow10(Len(fs)))
=============================================================================
