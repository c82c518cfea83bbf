------------------------------- MODULE MCHost -------------------------------
(* Everything a host can do to running programs, over an alphabet of        *)
(* operations: the compiled programs of the cases are decoded and TLC       *)
(* explores the machine under all histories of operations, state by state.  *)
(* Checked on the way: slices are exact, slicing and debugging change       *)
(* nothing that the program does, a thread stops at the lines it was told   *)
(* to stop at and at no other.  One history for every transition is printed *)
(* to be replayed into the real code.                                       *)
EXTENDS NanoDriver, NanoDecode, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
Depth == atoi(IOEnv.DEPTH)
MaxTh == atoi(IOEnv.MAXTH)

Cfg(c) == [h |-> c.h, inputs |-> c.inputs, dump |-> 0, trig |-> c.trig]
Progs == [i \in 1..Len(Cases) |-> Decode(Cases[i]) @@ [addr |-> <<>>]]

RECURSIVE RunAll(_, _, _, _)
RunAll(P, cfg, ops, d) == IF Finished(ops, d) THEN d ELSE RunAll(P, cfg, ops, Advance(P, cfg, ops, d, 50))
Exec(i, ops, m) == RunAll(Progs[i], Cfg(Cases[i]), ops, [m |-> m, i |-> 1, ctl |-> Idle]).m

Own(log) == SelectSeq(log, LAMBDA e: e[1] < 100)     \* events of the program, not of the host
Clear(m) == [m EXCEPT !.log = <<>>]

Start(i) == Exec(i, Cases[i].ops, Mach0)
\* the run of the last thread that nobody interrupts
Whole == [i \in 1..Len(Cases) |->
            LET m == Exec(i, <<[o |-> 16, t |-> 0, n |-> 0, p |-> 0]>>, Clear(Start(i)))
            IN [out |-> Own(m.log), th |-> m.th[m.host]]]

VARIABLES idx, hist, m, out
vars == <<idx, hist, m, out>>

Init == /\ idx \in 1..Len(Cases)
        /\ hist = <<>> /\ out = <<>>
        /\ m = Clear(Start(idx))

Next == /\ Len(hist) < Depth
        /\ \E a \in 1..Len(Alphabet) :
             /\ Alphabet[a].o = 3 => Len(m.th) < MaxTh
             /\ \E r \in {Exec(idx, <<Alphabet[a]>>, m)} :
                  m' = Clear(r) /\ out' = out \o Own(r.log)
             /\ hist' = Append(hist, a)
             /\ PrintT(<<"INFO", idx, hist'>>)
        /\ UNCHANGED idx
Spec == Init /\ [][Next]_vars
View == <<idx, m>>

-----------------------------------------------------------------------------
Solo == Cases[idx].solo = 1

\* C11: however the run is cut, it is the same run
IsPre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Transparent ==
  Solo => LET w == Whole[idx]  th == m.th[m.host] IN
          /\ IsPre(out, w.out)
          /\ th.cyc <= w.th.cyc
          /\ th.fin => out = w.out /\ th.err = w.th.err /\ th.st = w.th.st /\ th.cyc = w.th.cyc

\* C10: a thread gets its cycles, those and no more
LastOp(h) == Alphabet[h[Len(h)]]
Had(t) == IF t <= Len(m.th) THEN m.th[t].cyc ELSE 0
Exact ==
  LastOp(hist').o = 4 =>
    LET n == LastOp(hist').n
        calm == \A t \in 1..Len(m'.th) : m'.th[t].err = 0 \/ (t <= Len(m.th) /\ m.th[t].err # 0)
    IN \A t \in 1..Len(m'.th) :
       LET ran == m'.th[t].cyc - Had(t)
           able == t <= Len(m.th) /\ Alive(m, t) /\ ~m.th[t].fin /\ m.th[t].waits = 0
       IN /\ ran <= n
          /\ ~able => ran = 0
          /\ able /\ calm /\ ~m'.th[t].fin /\ ~m'.th[t].halt => ran = n
          /\ calm /\ t <= Len(m.th) /\ Alive(m, t) /\ m.th[t].waits > 0 => m'.th[t].waits = m.th[t].waits - 1
          /\ t <= Len(m.th) /\ Alive(m, t) /\ ~m.th[t].fin => Alive(m', t)
\* operations on one thread leave the others alone
Alone ==
  LastOp(hist').o \in {5, 6, 7, 8, 9, 10} =>
    LET t0 == IF LastOp(hist').t = 0 THEN m.host ELSE LastOp(hist').t IN
    \A t \in 1..Len(m.th) : t # t0 => m'.th[t] = m.th[t]

\* C12: the lines at which a thread is, instruction by instruction, until it has run k cycles
RECURSIVE LinesR(_, _, _, _)
LinesR(x, t, k, acc) ==
  IF k = 0 THEN acc
  ELSE LET y == Step(Progs[idx], Cfg(Cases[idx]), x, t) IN
       LinesR(y, t, k - 1, Append(acc, LineAt(Progs[idx], y.th[t].pc)))
Stops ==
  Solo /\ LastOp(hist').o \in {4, 5} =>
    LET t == m.host
        k == m'.th[t].cyc - m.th[t].cyc
        l == LinesR(m, t, k, <<LineAt(Progs[idx], m.th[t].pc)>>)
        bp == m.th[t].bp
    IN /\ \A j \in 2..k : l[j] \in bp => l[j] = l[j - 1]      \* never past a marked line
       /\ Cases[idx].halts = 0 /\ k > 0 /\ m'.th[t].halt => l[k + 1] \in bp
StepProps == [][Exact /\ Alone /\ Stops]_vars
=============================================================================
