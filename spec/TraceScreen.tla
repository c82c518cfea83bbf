---------------------------- MODULE TraceScreen ----------------------------
(* Conformance of nano_driver_sdl: the pictures that a process which was    *)
(* given these sources and keys showed, when it showed them, and how it     *)
(* ended, are what the specification says.                                   *)
(* The clock is a stand-in that only moves while the process sleeps; the    *)
(* user closes the window once nothing is left to run or at time c.until.   *)
EXTENDS NanoCli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Chunk == 250
Fuel == 4000

VARIABLES idx, n, phase, prog, d, verdict
vars == <<idx, n, phase, prog, d, verdict>>

NoProg == <<>>
Good == <<>>
CaseCfg(c) == [h |-> 0, inputs |-> <<>>, dump |-> 0, trig |-> <<>>, stdin |-> <<>>, keys |-> c.keys, nowin |-> c.nowin]

OpOf0(o, f, k) == [o |-> o, f |-> f, a |-> <<>>, n |-> k, t |-> 0, p |-> 0]
Slice == OpOf0(4, <<>>, 1000000)
\* the initialisation, a thread for main, and turns of all threads for as long as needed
ScreenOps == <<OpOf0(1, <<>>, 0), OpOf0(3, TxtMain, 0), Slice>>

Shown(m) == SelectSeq(m.log, LAMBDA e: e[1] = 80)
Broken(m) == \E i \in 1..Len(m.log) : m.log[i][1] \in {101, 103, 104} /\ m.log[i][2] # 1

\* c.status: 0 success, 1 failure, 2 ended by a signal, 3 out of time
Fails(c, frames) ==
  IF c.status # 1 THEN <<"expected a failure, status", c.status>>
  ELSE IF c.out # <<>> THEN <<"output", c.out>>
  ELSE IF c.frames # frames THEN <<"pictures", c.frames, "expected", frames>>
  ELSE Good

Refused(c, line, any, m) ==
  IF Fails(c, <<>>) # Good THEN Fails(c, <<>>)
  ELSE IF ~any /\ c.eline # <<line \div 65536, line % 65536>> THEN <<"error reported at", c.eline, "expected", line>>
  ELSE IF ~any /\ c.etext # Message(m) THEN <<"message", c.etext, "expected", m>>
  ELSE Good

FrontOf(c) ==
  LET r == Roots(c.files, c.roots) IN
  IF c.roots = <<>> \/ ~r.ok THEN [v |-> Fails(c, <<>>), p |-> NoProg]
  ELSE LET f == FrontEndOf(c.files, r.srcs) IN
  IF ~f.ok THEN [v |-> Refused(c, f.line, FALSE, f.m), p |-> NoProg]
  ELSE LET s == Sema(f.ds, 1) IN
  IF ~s.ok THEN [v |-> Refused(c, s.line, s.any, s.m), p |-> NoProg]
  ELSE LET P == Compile(s) IN
  IF FIndex(P, TxtMain) = 0 THEN [v |-> Fails(c, <<>>), p |-> NoProg]
  ELSE [v |-> Good, p |-> P @@ [addr |-> <<>>]]

Init ==
  /\ idx \in 1..Len(Cases)
  /\ n = 0 /\ phase = "front" /\ prog = NoProg /\ d = Drv0 /\ verdict = Good

StepFront ==
  /\ phase = "front"
  /\ \E c \in {Cases[idx]} : \E r \in {FrontOf(c)} :
       /\ phase' = IF r.p # NoProg THEN "run" ELSE "done"
       /\ verdict' = r.v
       /\ prog' = r.p
  /\ n' = n + 1
  /\ UNCHANGED <<idx, d>>

\* the threads wait for the clock
Asleep(x) == x.m.scr.now <= x.m.scr.mark
\* between two turns, after main was started
Turn(x) == x.ctl = Idle /\ x.i >= 3
Closed(c, x) == Turn(x) /\ (x.m.list = <<>> \/ (Asleep(x) /\ x.m.scr.mark + 1 >= c.until))
ScreenEnd(c, x) == x.m.un \/ (x.ctl = Idle /\ Broken(x.m)) \/ Closed(c, x)

Go(P, c, x) ==
  IF ScreenEnd(c, x) THEN x
  ELSE IF Turn(x) THEN
    Micro(P, CaseCfg(c), ScreenOps, [x EXCEPT !.i = 3, !.m.scr.now = IF Asleep(x) THEN x.m.scr.mark + 1 ELSE @])
  ELSE Micro(P, CaseCfg(c), ScreenOps, x)

EndVerdict(c, m) ==
  IF m.un THEN (IF c.status = 2 /\ ~m.big THEN <<"crash">> ELSE Good)
  ELSE IF Broken(m) THEN Fails(c, Shown(m))
  ELSE IF c.frames # Shown(m) THEN <<"pictures", c.frames, "expected", Shown(m)>>
  ELSE IF c.status # 0 THEN <<"failed to run a correct program, status", c.status>>
  ELSE IF c.out # TxtExit \o <<48, 10>> THEN <<"output", c.out>>
  ELSE Good

StepRun ==
  /\ phase = "run"
  /\ \E c \in {Cases[idx]} :
     \E d2 \in {FoldLeft(LAMBDA x, i: Go(prog, c, x), d, [i \in 1..Chunk |-> i])} :
     \E end \in {ScreenEnd(c, d2)} :
       /\ verdict' = IF end THEN EndVerdict(c, d2.m) ELSE Good
       /\ phase' = IF end \/ n > Fuel THEN "done" ELSE "run"
       /\ d' = IF end THEN Drv0 ELSE d2
       /\ prog' = IF end THEN NoProg ELSE prog
       /\ (n > Fuel /\ ~end) => PrintT(<<"UNFINISHED", c.id>>)
       /\ d2.m.un => PrintT(<<"UNSPECIFIED", c.id>>)
  /\ n' = n + 1
  /\ UNCHANGED idx

Next == StepFront \/ StepRun
Spec == Init /\ [][Next]_vars

View == <<idx, n>>
Conforms == verdict = Good \/ (PrintT(<<"BAD", Cases[idx].id, verdict>>) /\ FALSE)
Short == [id |-> Cases[idx].id, phase |-> phase, verdict |-> verdict]
=============================================================================
