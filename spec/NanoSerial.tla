----------------------------- MODULE NanoSerial -----------------------------
(* Saved programs: files that are written, damaged, removed and loaded.     *)
(*                                                                          *)
(* A file is [k, p, len, x]: k is                                           *)
(*   "none"  missing         "ok"    a complete image of program p          *)
(*   "cut"   an image of p that is short of its end                         *)
(*   "left"  what a failed save left behind                                 *)
(* and x the changes made to the bytes of its header.  A slot holds a       *)
(* program that was loaded, 0 is the empty one.                             *)
EXTENDS Integers, Sequences

HeaderSize == 4
NoFile == [k |-> "none", p |-> 0, len |-> 0, x |-> <<>>]
Image(p, len) == [k |-> "ok", p |-> p, len |-> len, x |-> <<>>]

\* bitwise exclusive or of two bytes
RECURSIVE XorB(_, _, _)
XorB(a, b, n) == IF n = 0 THEN 0
                 ELSE ((a + b) % 2) + 2 * XorB(a \div 2, b \div 2, n - 1)

\* x[at] as a change of byte at of the header
ChangeAt(f, at) == IF \E i \in 1..Len(f.x) : f.x[i][1] = at
                   THEN LET i == CHOOSE i \in 1..Len(f.x) : f.x[i][1] = at IN f.x[i][2] ELSE 0
Change(f, at, v) ==
  [f EXCEPT !.x = Append(SelectSeq(@, LAMBDA y: y[1] # at), <<at, XorB(ChangeAt(f, at), v, 8)>>)]
HeaderOk(f) == \A i \in 1..Len(f.x) : f.x[i][2] = 0

\* cutting a file to n bytes, n negative: from its end
Cut(f, n) ==
  LET m == IF n >= 0 THEN n ELSE IF f.len + n < 0 THEN 0 ELSE f.len + n IN
  IF f.k = "none" \/ m >= f.len THEN f ELSE [f EXCEPT !.k = IF @ = "ok" THEN "cut" ELSE @, !.len = m]

\* outcomes <<ok, slot>> of loading file f into a slot that holds s
Loads(f, s, n) ==
  CASE f.k = "none" -> {<<0, s>>, <<0, 0>>}
    [] f.k = "left" -> {<<0, 0>>} \cup {<<1, p>> : p \in 1..n}
    [] f.k = "ok" /\ HeaderOk(f) -> {<<1, f.p>>}
    [] OTHER -> {<<0, 0>>}
=============================================================================
