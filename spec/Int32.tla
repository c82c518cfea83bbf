------------------------------- MODULE Int32 -------------------------------
(* 32 bit two's complement arithmetic of the script integers.              *)
(* TLC's own integers are 32 bit and trap on overflow, so every operator    *)
(* is written such that no intermediate result leaves the range.            *)
EXTENDS Integers, Sequences, Bitwise

MaxI == 2147483647
MinI == -2147483647 - 1

Add32(a, b) ==
  IF a > 0 /\ b > MaxI - a THEN (a + MinI) + (b + MinI)
  ELSE IF a < 0 /\ b < MinI - a THEN (a - MinI) + (b - MinI)
  ELSE a + b

Neg32(a) == IF a = MinI THEN MinI ELSE -a

Sub32(a, b) == IF b = MinI THEN Add32(Add32(a, MaxI), 1) ELSE Add32(a, -b)

\* unsigned 16 bit halves
Hi16(a) == ((a \div 65536) % 65536)
Lo16(a) == (a % 65536)

FromHalves(h, l) == IF h < 32768 THEN h * 65536 + l
                    ELSE (h - 65536) * 65536 + l

MulMod16(x, y) == (x * (y % 256) + ((x * (y \div 256)) % 256) * 256) % 65536

Mul32(a, b) ==
  LET ah == Hi16(a)  al == Lo16(a)  bh == Hi16(b)  bl == Lo16(b)
      p0 == al * (bl % 256)
      p1 == al * (bl \div 256)
      s  == p0 + (p1 % 256) * 256
      lo == (s % 65536)
      c  == s \div 65536 + p1 \div 256
      hi == (c + MulMod16(ah, bl) + MulMod16(al, bh)) % 65536
  IN FromHalves(hi, lo)

\* truncating division, b # 0
DivPos(a, b) == LET q == a \div b IN IF a < 0 /\ (a % b) # 0 THEN q + 1 ELSE q
ModPos(a, b) == LET r == (a % b) IN IF a < 0 /\ r # 0 THEN r - b ELSE r
Div32(a, b) ==
  IF b = MinI THEN (IF a = MinI THEN 1 ELSE 0)
  ELSE IF b < 0 THEN Neg32(DivPos(a, -b)) ELSE DivPos(a, b)
Mod32(a, b) ==
  IF b = MinI THEN (IF a = MinI THEN 0 ELSE a)
  ELSE IF b < 0 THEN ModPos(a, -b) ELSE ModPos(a, b)

And32(a, b) == FromHalves(Hi16(a) & Hi16(b), Lo16(a) & Lo16(b))

\* decimal digits of a non negative integer / of any integer, as codes
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>>
             ELSE LET d == Digits(n \div 10) IN d \o <<48 + (n % 10)>>
IntText(n) ==
  IF n = MinI THEN <<45, 50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
  ELSE IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)

\* value of a digit sequence, wrapping like the lexer of the language
RECURSIVE DigitsVal(_, _, _)
DigitsVal(ds, i, acc) ==
  IF i > Len(ds) THEN acc
  ELSE DigitsVal(ds, i + 1, Add32(Mul32(acc, 10), ds[i] - 48))
=============================================================================
