------------------------------ MODULE MCSerial ------------------------------
(* All histories of saves, damage and loads over a small alphabet of        *)
(* operations: the abstract files of NanoSerial against files of bytes, in  *)
(* which only a complete, unchanged image can be loaded.  The histories are *)
(* printed to be replayed into the real code.                               *)
EXTENDS NanoSerial, TLC, Json, IOUtils, SequencesExt

Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
Depth == atoi(IOEnv.DEPTH)
Progs == 1..2
\* the image of a program: header, then a body of its own
Bytes(p) == <<204, 67, 77, 76>> \o [i \in 1..(2 + p) |-> 10 * p + i]

VARIABLES hist, fs, slots, raw
vars == <<hist, fs, slots, raw>>

Gone == <<-1>>
Init == hist = <<>> /\ fs = NoFile /\ slots = 0 /\ raw = Gone

Flip(b, at, v) == [b EXCEPT ![at + 1] = XorB(@, v, 8)]
CutRaw(b, n) == LET m == IF n >= 0 THEN n ELSE IF Len(b) + n < 0 THEN 0 ELSE Len(b) + n IN
                IF m >= Len(b) THEN b ELSE SubSeq(b, 1, m)

\* what can be read from a file of bytes
LoadRaw(b) == {p \in Progs : b = Bytes(p)}

Do(o) ==
  CASE o.o = 30 -> fs' = Image(o.p, Len(Bytes(o.p))) /\ raw' = Bytes(o.p) /\ UNCHANGED slots
    [] o.o = 36 -> slots # 0 /\ fs' = Image(slots, Len(Bytes(slots))) /\ raw' = Bytes(slots) /\ UNCHANGED slots
    [] o.o = 31 -> /\ \E x \in Loads(fs, slots, 2) :
                        /\ slots' = x[2]
                        /\ IF raw = Gone THEN x[1] = 0
                           ELSE IF LoadRaw(raw) = {} THEN x = <<0, 0>> ELSE x[1] = 1 /\ x[2] \in LoadRaw(raw)
                   /\ UNCHANGED <<fs, raw>>
    [] o.o = 32 -> fs' = Cut(fs, o.n) /\ raw' = (IF raw = Gone THEN raw ELSE CutRaw(raw, o.n)) /\ UNCHANGED slots
    [] o.o = 33 -> /\ IF raw = Gone \/ o.n >= Len(raw) THEN UNCHANGED <<fs, raw>>
                      ELSE fs' = Change(fs, o.n, o.p) /\ raw' = Flip(raw, o.n, o.p)
                   /\ UNCHANGED slots
    [] o.o = 34 -> fs' = NoFile /\ raw' = Gone /\ UNCHANGED slots
    [] o.o = 37 -> \E k \in {0, Len(Bytes(o.p)) - 1} :
                     /\ fs' = [k |-> "left", p |-> o.p, len |-> k, x |-> <<>>]
                     /\ raw' = SubSeq(Bytes(o.p), 1, k) /\ UNCHANGED slots

Next == /\ Len(hist) < Depth
        /\ \E a \in 1..Len(Alphabet) : Do(Alphabet[a]) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars

\* the abstraction is exact
Faithful ==
  /\ raw = Gone <=> fs.k = "none"
  /\ fs.k \in {"ok", "cut"} => Len(raw) = fs.len
  /\ fs.k \in {"ok", "cut"} => ((fs.k = "ok" /\ HeaderOk(fs)) <=> raw = Bytes(fs.p))
\* the specification always has an outcome that the files of bytes allow
CanLoad == raw = Gone \/ \E x \in Loads(fs, slots, 2) :
             IF LoadRaw(raw) = {} THEN x = <<0, 0>> ELSE x[1] = 1 /\ x[2] \in LoadRaw(raw)
NothingInvented == slots \in {0} \cup Progs
Emit == Len(hist) = Depth => PrintT(<<"INFO", 0, hist>>)
=============================================================================
