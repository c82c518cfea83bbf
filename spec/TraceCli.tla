------------------------------ MODULE TraceCli ------------------------------
(* Conformance of the command line programs: what a process that was given  *)
(* these files, arguments and this input wrote, and how it ended, is what   *)
(* the specification says.                                                   *)
EXTENDS NanoCli, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Chunk == 250
Fuel == 4000

VARIABLES idx, n, phase, prog, d, verdict
vars == <<idx, n, phase, prog, d, verdict>>

NoProg == <<>>
CliGood == <<>>
CaseCfg(c) == [h |-> 0, inputs |-> <<>>, dump |-> 0, trig |-> <<>>, stdin |-> c.stdin]

\* c.status: 0 success, 1 failure, 2 ended by a signal, 3 out of time
Fails(c, out) ==
  IF c.status # 1 THEN <<"expected a failure, status", c.status>>
  ELSE IF c.out # out THEN <<"output", c.out, "expected", out>>
  ELSE CliGood

Refused(c, line, any, m) ==
  IF Fails(c, <<>>) # CliGood THEN Fails(c, <<>>)
  ELSE IF ~any /\ c.eline # <<line \div 65536, line % 65536>> THEN <<"error reported at", c.eline, "expected", line>>
  ELSE IF ~any /\ c.etext # Message(m) THEN <<"message", c.etext, "expected", m>>
  ELSE CliGood

\* the files that the compiler was asked for
Made(c) ==
  IF ~c.writable /\ c.asked # <<>> THEN Fails(c, <<>>)
  ELSE IF c.status # 0 THEN <<"failed to compile a correct program, status", c.status>>
  ELSE IF c.out # <<>> THEN <<"output", c.out>>
  ELSE IF ToSet(c.made) # ToSet(c.asked) THEN <<"files", c.made, "expected", c.asked>>
  ELSE IF InSeq(c.asked, 98, 1) /\ c.bin # c.code THEN <<"the binary is not the code of the program">>
  ELSE IF InSeq(c.asked, 100, 1) /\ c.disfile # c.listing THEN <<"the disassembly is not that of the program">>
  ELSE CliGood

FrontOf(c) ==
  LET r == Roots(c.files, c.roots) IN
  IF c.roots = <<>> \/ ~r.ok THEN [v |-> IF c.status # 1 THEN <<"expected a failure, status", c.status>> ELSE CliGood, p |-> NoProg]
  ELSE LET f == FrontEndOf(c.files, r.srcs) IN
  IF ~f.ok THEN [v |-> Refused(c, f.line, FALSE, f.m), p |-> NoProg]
  ELSE LET s == Sema(f.ds, c.opt) IN
  IF ~s.ok THEN [v |-> Refused(c, s.line, s.any, s.m), p |-> NoProg]
  ELSE IF c.prog = "comp" THEN [v |-> Made(c), p |-> NoProg]
  ELSE LET P == Compile(s) IN
  IF FIndex(P, TxtMain) = 0 THEN [v |-> Fails(c, <<>>), p |-> NoProg]
  ELSE [v |-> CliGood, p |-> P @@ [addr |-> <<>>]]

Init ==
  /\ idx \in 1..Len(Cases)
  /\ n = 0 /\ phase = "front" /\ prog = NoProg /\ d = Drv0 /\ verdict = CliGood

StepFront ==
  /\ phase = "front"
  /\ \E c \in {Cases[idx]} : \E r \in {FrontOf(c)} :
       /\ phase' = IF r.p # NoProg THEN "run" ELSE "done"
       /\ verdict' = r.v
       /\ prog' = r.p
  /\ n' = n + 1
  /\ UNCHANGED <<idx, d>>

EndVerdict(c, m) ==
  IF m.un THEN (IF c.status = 2 /\ ~m.big THEN <<"crash">> ELSE CliGood)
  ELSE IF Failed(m) THEN Fails(c, Written(m))
  ELSE IF c.status # 0 THEN <<"failed to run a correct program, status", c.status>>
  ELSE IF ResultOf(m)[1] = 2 /\ IsNaN(ResultOf(m)) THEN CliGood
  ELSE LET e == Written(m) \o ResultText(ResultOf(m)) IN
       IF c.out # e THEN <<"output", c.out, "expected", e>> ELSE CliGood

StepRun ==
  /\ phase = "run"
  /\ \E c \in {Cases[idx]} :
     \E d2 \in {FoldLeft(LAMBDA x, i: IF DriverEnd(prog, x) THEN x ELSE Micro(prog, CaseCfg(c), DriverOps, x), d, [i \in 1..Chunk |-> i])} :
     \E end \in {DriverEnd(prog, d2)} :
       /\ verdict' = IF end THEN EndVerdict(c, d2.m) ELSE CliGood
       /\ phase' = IF end \/ n > Fuel THEN "done" ELSE "run"
       /\ d' = IF end THEN Drv0 ELSE d2
       /\ prog' = IF end THEN NoProg ELSE prog
       /\ (n > Fuel /\ ~end) => PrintT(<<"UNFINISHED", c.id>>)
       /\ d2.m.un => PrintT(<<"UNSPECIFIED", c.id>>)
  /\ n' = n + 1
  /\ UNCHANGED idx

Next == StepFront \/ StepRun
Spec == Init /\ [][Next]_vars

View == <<idx, n>>
Conforms == verdict = CliGood \/ (PrintT(<<"BAD", Cases[idx].id, verdict>>) /\ FALSE)
Short == [id |-> Cases[idx].id, phase |-> phase, verdict |-> verdict]
=============================================================================
