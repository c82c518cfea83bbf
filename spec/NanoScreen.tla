----------------------------- MODULE NanoScreen -----------------------------
(* The screen of nano_driver_sdl: a picture of w x h colours in rows, which *)
(* scripts draw on and flip shows, the colour that is drawn with, a clock   *)
(* in milliseconds and the sequence of pseudo random numbers.               *)
(*   open   a window could be opened, drawing has an effect                 *)
(*   px     the colours, 0xrrggbb      rgb   the colour of the next drawing *)
(*   now    the clock                  mark  nothing runs until after this  *)
(*   rnd    the last number, as two halves of 16 bits                       *)
(*   wins   how many windows were asked for                                 *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Scr0 == [open |-> FALSE, w |-> 0, h |-> 0, px |-> <<>>, rgb |-> 16777215, now |-> 1, mark |-> 0,
         rnd |-> <<0, 12345>>, wins |-> 0]

\* positions beyond this are not specified (they are outside of every screen)
Far == 16000
Near(x) == x >= -Far /\ x <= Far

Black(s) == [s EXCEPT !.px = [i \in 1..(s.w * s.h) |-> 0]]

\* a refused size has no effect
MaxSide == 4096
SizeOk(w, h) == w > 0 /\ h > 0 /\ w <= MaxSide /\ h <= MaxSide
Video(s, w, h, fails) ==
  IF ~SizeOk(w, h) THEN s
  ELSE Black([s EXCEPT !.w = w, !.h = h, !.wins = @ + 1, !.open = ~fails])

Plot(s, x, y) ==
  IF s.open /\ x >= 0 /\ x < s.w /\ y >= 0 /\ y < s.h THEN [s EXCEPT !.px[y * s.w + x + 1] = s.rgb] ELSE s

\* the positions x0 <= x < x1 of row y
Span(s, x0, x1, y) ==
  IF ~s.open \/ y < 0 \/ y >= s.h THEN s
  ELSE LET a == IF x0 < 0 THEN 0 ELSE x0
           b == IF x1 > s.w THEN s.w ELSE x1 IN
       IF a >= b THEN s
       ELSE [s EXCEPT !.px = SubSeq(@, 1, y * s.w + a) \o [i \in 1..(b - a) |-> s.rgb] \o SubSeq(@, y * s.w + b + 1, Len(@))]

\* a disc, by the midpoint rule
RECURSIVE Disc(_, _, _, _, _, _)
Disc(s, cx, cy, p, x, y) ==
  IF x > y THEN s
  ELSE LET x2 == x + 1
           y2 == IF p < 0 THEN y ELSE y - 1
           p2 == IF p < 0 THEN p + 2 * x2 + 1 ELSE p + 2 * (x2 - y) + 1
           s1 == Span(s, cx - x2, cx + x2, cy + y2)
           s2 == Span(s1, cx - x2, cx + x2, cy - y2)
           s3 == Span(s2, cx - y2, cx + y2, cy + x2)
           s4 == Span(s3, cx - y2, cx + y2, cy - x2)
       IN Disc(s4, cx, cy, p2, x2, y2)
Circle(s, cx, cy, r) == Disc(Span(s, cx - r, cx + r, cy), cx, cy, 1 - r, 0, r)

Magn(x) == IF x < 0 THEN -x ELSE x
Quot(a, b) == IF a >= 0 THEN a \div b ELSE -((-a) \div b)     \* b > 0
\* a line from its first point up to, but without, its last one: one position
\* per step along the longer side, the other side in units of 1/65536
DrawLine(s, x0, y0, x1, y1) ==
  LET dx == x1 - x0  dy == y1 - y0
      steep == Magn(dy) > Magn(dx)
      long == IF steep THEN dy ELSE dx
      short == IF steep THEN dx ELSE dy
      inc == IF long = 0 THEN 0 ELSE Quot(short * 65536, Magn(long))
      sg == IF long < 0 THEN -1 ELSE 1
      At(k) == LET a == sg * k  b == (k * inc) \div 65536 IN IF steep THEN <<x0 + b, y0 + a>> ELSE <<x0 + a, y0 + b>>
  IN FoldLeft(LAMBDA z, k: Plot(z, At(k - 1)[1], At(k - 1)[2]), s, [k \in 1..Magn(long) |-> k])

Color(r, g, b) == (r % 256) * 65536 + (g % 256) * 256 + (b % 256)

\* 32 bits: x ^= x << 13; x ^= x >> 17; x ^= x << 5
NextRandom(v) ==
  LET Mix(a, hi, lo) == <<a[1] ^^ hi, a[2] ^^ lo>>
      a == Mix(v, (v[1] * 8192 + v[2] \div 8) % 65536, (v[2] * 8192) % 65536)
      b == Mix(a, 0, a[1] \div 2)
  IN Mix(b, (b[1] * 32 + b[2] \div 2048) % 65536, (b[2] * 32) % 65536)
RandomValue(v) == (v[1] % 128) * 65536 + v[2]

\* what flip shows
Frame(s) == <<80, s.now, s.w, s.h>> \o s.px
=============================================================================
