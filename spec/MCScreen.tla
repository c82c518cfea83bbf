------------------------------ MODULE MCScreen ------------------------------
(* What the drawing rules themselves guarantee, for every line and disc on  *)
(* and around a small screen.                                                *)
EXTENDS NanoScreen, FiniteSets, TLC

W == 7
H == 5
Blank == Video(Scr0, W, H, FALSE)
Ink == [Blank EXCEPT !.rgb = 5]
Pts == {<<x, y>> : x \in 0..(W - 1), y \in 0..(H - 1)}
Set(s) == {p \in Pts : s.px[p[2] * W + p[1] + 1] # 0}

VARIABLES a, b, c, e
vars == <<a, b, c, e>>
Init == a \in -2..(W + 1) /\ b \in -2..(H + 1) /\ c \in -2..(W + 1) /\ e \in -2..(H + 1)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

In(p) == p \in Pts
Mx(x, y) == IF x > y THEN x ELSE y

\* a line: at most one position per step, its first point, never its last one,
\* within the box of its ends, no gaps along its longer side
LineOk ==
  LET s == Set(DrawLine(Ink, a, b, c, e))
      len == Mx(Magn(c - a), Magn(e - b)) IN
  /\ Cardinality(s) <= len
  /\ (len > 0 /\ In(<<a, b>>)) => <<a, b>> \in s
  /\ <<c, e>> \notin s
  /\ \A p \in s : /\ p[1] >= (IF a < c THEN a ELSE c) - 1 /\ p[1] <= Mx(a, c)
                  /\ p[2] >= (IF b < e THEN b ELSE e) - 1 /\ p[2] <= Mx(b, e)
  /\ (In(<<a, b>>) /\ In(<<c, e>>)) => Cardinality(s) = len
\* a disc: within its box, nothing for a negative radius, more with a larger
\* radius, the same above and below its centre
DiscOk ==
  LET r == c
      D(k) == Set(Circle(Ink, a, b, k)) IN
  /\ r <= 0 => D(r) \subseteq {<<x, b>> : x \in 0..W} \cup {<<x, y>> : x \in {a - 1, a}, y \in {b - 1, b + 1}}
  /\ r < 0 => D(r) = {}
  /\ \A p \in D(r) : Magn(p[1] - a) <= Mx(r, 1) /\ Magn(p[2] - b) <= Mx(r, 1)
  /\ r > 1 => D(r - 1) \subseteq D(r)
  /\ \A p \in D(r) : In(<<p[1], 2 * b - p[2]>>) => <<p[1], 2 * b - p[2]>> \in D(r)
\* drawing without a window, and a window of a refused size
ShutOk ==
  LET s == [Ink EXCEPT !.open = FALSE] IN
  /\ DrawLine(s, a, b, c, e) = s /\ Circle(s, a, b, c) = s /\ Plot(s, a, b) = s
  /\ (a <= 0 \/ b <= 0) => Video(Ink, a, b, FALSE) = Ink
  /\ (a > 0 /\ b > 0) => Len(Video(Ink, a, b, TRUE).px) = a * b
\* colours and pseudo random numbers stay in range
NumOk ==
  /\ Color(a, b, c) \in 0..16777215
  /\ LET v == NextRandom(<<a + 2, b + 3>>) IN RandomValue(v) \in 0..8388607 /\ v # <<0, 0>>
=============================================================================
