------------------------------ MODULE TraceRun ------------------------------
(* Conformance: what the real library did with each case is what the        *)
(* specification does with the same source text and the same host script.   *)
(*                                                                          *)
(* A case is one line of JSON: the inputs (files, opt, h, dump, inputs, ops) *)
(* and what was observed (rc, eline, nsrc, log, end).  Every case is an      *)
(* initial state; a transition runs the specification for a while and       *)
(* compares the events it produced with the recorded ones.                  *)
EXTENDS NanoDriver, NanoDecode, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
Chunk == 250       \* micro steps per transition
Fuel == 4000       \* transitions per case

VARIABLES idx, n, phase, prog, d, pos, verdict
vars == <<idx, n, phase, prog, d, pos, verdict>>

NoProg == <<>>

CaseCfg(c) == [h |-> c.h, inputs |-> c.inputs, dump |-> c.dump, trig |-> c.trig]

-----------------------------------------------------------------------------
(* Comparison of events *)
\* every expected name is listed, and where it is listed it has the value
Listed(exp, got) == \A i \in 1..Len(exp) :
  \E j \in 1..Len(got) : got[j][1] = exp[i][1] /\ got[j][2] = exp[i][2]

RECURSIVE MergeR(_, _, _, _)
MergeR(s, drop, i, acc) ==
  IF i > Len(s) THEN acc
  ELSE IF s[i] \in drop \/ (acc # <<>> /\ acc[Len(acc)] = s[i]) THEN MergeR(s, drop, i + 1, acc)
  ELSE MergeR(s, drop, i + 1, Append(acc, s[i]))
\* source lines visited, without function headers and places with no line
LinesOf(P, s) == MergeR(s, P.heads \cup {-1}, 1, <<>>)

Same(P, opt, e, g) ==
  /\ Len(g) > 0
  /\ e[1] = g[1]
  /\ CASE e[1] = 30 -> Len(g) = 4 /\ e[2] = g[2] /\ Listed(e[3], g[3]) /\ Listed(e[4], g[4])
                       /\ Len(e[4]) = Len(g[4])
       [] e[1] = 112 -> /\ Len(e) = Len(g) /\ e[2] = g[2]
                        /\ IF e[2] < 0 THEN e = g ELSE
                             /\ opt = 0 => LinesOf(P, e[3]) = LinesOf(P, g[3])
                             /\ SubSeq(e, 4, Len(e)) = SubSeq(g, 4, Len(g))
       [] OTHER -> e = g

\* position of the first difference, or 0
RECURSIVE Diff(_, _, _, _, _)
Diff(P, c, log, at, i) ==
  IF i > Len(log) THEN 0
  ELSE IF at + i > Len(c.log) THEN i
  ELSE IF Same(P, c.opt, log[i], c.log[at + i]) THEN Diff(P, c, log, at, i + 1)
  ELSE i

Got(c, k) == IF k <= Len(c.log) THEN c.log[k] ELSE <<"nothing, end", c.end>>

-----------------------------------------------------------------------------
(* The verdict of the compiler *)
LineOf(c) == IF c.eline[1] < 0 THEN -1 ELSE c.eline[1] * 65536 + c.eline[2]

Texts(c) == HasBit(c.flags, 512)
Reject(c, line, any, m) ==
  IF c.rc # 0 THEN <<"accepted a program that has an error at", line>>
  ELSE IF c.msg = 0 THEN <<"error without a message">>
  ELSE IF ~any /\ LineOf(c) # line THEN <<"error on the wrong line, expected", line, "got", LineOf(c)>>
  ELSE IF Texts(c) /\ ~any /\ c.etext # Message(m) THEN <<"message", c.etext, "expected", m>>
  ELSE Good

Accept(c) ==
  IF c.rc # 1 THEN <<"rejected a correct program, at", LineOf(c)>>
  ELSE IF c.msg # 0 THEN <<"an error message for a correct program">> ELSE Good

\* mode "code": run the code that the implementation compiled; "form": and check it
\* (a rejection is judged by the source rules)
FrontCode(c) ==
  IF c.mode = "form" THEN
    LET w == WellFormed(c) IN [v |-> w, p |-> IF w = Good THEN Decode(c) ELSE NoProg]
  ELSE [v |-> Good, p |-> Decode(c)]

\* mode "any": any verdict will do, if it is a verdict (rc 2: a source that was not loaded)
NumLines(t) == 1 + Cardinality({i \in 1..Len(t) : t[i] = 10})
AnyVerdict(c) ==
  IF c.end # 0 THEN <<"crash or hang while compiling", c.end>>
  ELSE IF c.rc = 0 THEN
    IF c.msg = 0 THEN <<"error without a message">>
    ELSE IF c.eline[1] < 0 \/ c.eline[2] < 1 \/ c.eline[2] > NumLines(c.files[1].text) THEN
      <<"error outside of the source", c.eline, NumLines(c.files[1].text)>>
    ELSE Good
  ELSE Good

\* the addresses of the functions of P in the compiled code, if it was reported
Addresses(c, P) ==
  IF ~HasBit(c.flags, 1) \/ c.rc # 1 THEN <<>>
  ELSE [i \in 1..Len(P.funcs) |->
         LET k == SelectInSeq(c.funcs, LAMBDA f: f.name = P.funcs[i].name) IN IF k = 0 THEN -1 ELSE c.funcs[k].s]

\* files are taken in the order of the specification
Slashes(s) == SelectSeq(Split(s), LAMBDA x: x # <<>> /\ x # Dot)
Norm(s) == FoldLeft(LAMBDA a, x: IF x = DotDot /\ a # <<>> THEN Butlast(a) ELSE Append(a, x), <<>>, Slashes(s))
SrcsBad(c, f) ==
  IF c.nsrc # Len(f.srcs) THEN <<"sources", c.nsrc, Len(f.srcs)>>
  ELSE IF HasBit(c.flags, 16) /\ \E i \in 1..Len(f.srcs) : Norm(c.srcs[i]) # f.srcs[i] THEN
    <<"order of sources", c.srcs>>
  ELSE Good

\* [v |-> verdict, p |-> program]
Front1(c) ==
  IF c.mode = "any" THEN [v |-> AnyVerdict(c), p |-> NoProg] ELSE
  IF c.mode # "src" /\ c.rc = 1 THEN FrontCode(c) ELSE
  LET f == FrontEnd(c.files) IN
  IF ~f.ok THEN [v |-> Reject(c, f.line, FALSE, f.m), p |-> NoProg]
  ELSE LET s == Sema(f.ds, c.opt) IN
    IF ~s.ok THEN [v |-> Reject(c, s.line, s.any, s.m), p |-> NoProg]
    ELSE IF Accept(c) # Good THEN [v |-> Accept(c), p |-> NoProg]
    ELSE IF SrcsBad(c, f) # Good THEN [v |-> SrcsBad(c, f), p |-> NoProg]
    ELSE [v |-> Good, p |-> Compile(s)]

-----------------------------------------------------------------------------
Init ==
  /\ idx \in 1..Len(Cases)
  /\ n = 0 /\ phase = "front" /\ prog = NoProg /\ d = Drv0 /\ pos = 0 /\ verdict = Good

\* a program that was saved and loaded is the same program
SameSaved(c) ==
  IF c.serial # 1 THEN <<"the program could not be saved and loaded">>
  ELSE IF c.saved.code # c.loaded.code THEN <<"loaded code differs">>
  ELSE IF c.saved.strs # c.loaded.strs THEN <<"loaded strings differ">>
  ELSE IF c.saved.sys # c.loaded.sys THEN <<"loaded syscalls differ">>
  ELSE IF ToSet(c.saved.funcs) # ToSet(c.loaded.funcs) THEN <<"loaded functions differ">>
  ELSE IF ToSet(c.saved.lines) # ToSet(c.loaded.lines) THEN <<"loaded lines differ">>
  ELSE Good

\* the lines of the sources, and the names of errors
TextsBad(c) ==
  LET File(i) == IF i = 0 THEN 1 ELSE SelectInSeq(c.files, LAMBDA f: Comps(f.path) = Norm(c.srcs[i + 1]))
      Line(l) == IF File(l[1]) = 0 THEN <<"no such file">> ELSE LineText(c.files[File(l[1])].text, l[2])
      wrong == SelectInSeq(c.lines, LAMBDA l: l[3] # Line(l))
  IN IF wrong # 0 THEN <<"line", c.lines[wrong]>>
     ELSE IF c.names # ErrorNames THEN <<"names of errors", c.names>>
     ELSE Good

\* the verdict of the front end on case c (\E x \in {e} evaluates e once)
FrontOf(c) ==
  IF c.rc = -1 THEN [v |-> <<"the compiler did not return", c.end>>, p |-> NoProg]
  ELSE IF c.again = 0 THEN [v |-> <<"a second compilation differs">>, p |-> NoProg]
  \* an empty source is refused when it is loaded
  ELSE IF c.files[1].text = <<>> THEN
    [v |-> IF c.rc = 2 THEN Good ELSE <<"an empty source was loaded">>, p |-> NoProg]
  ELSE IF c.rc = 2 THEN [v |-> <<"a source was not loaded">>, p |-> NoProg]
  ELSE IF HasBit(c.flags, 2) /\ c.rc = 1 /\ SameSaved(c) # Good THEN [v |-> SameSaved(c), p |-> NoProg]
  ELSE IF Texts(c) /\ TextsBad(c) # Good THEN [v |-> TextsBad(c), p |-> NoProg]
  ELSE Front1(c)

StepFront ==
  /\ phase = "front"
  /\ \E c \in {Cases[idx]} : \E r \in {FrontOf(c)} :
       /\ phase' = IF r.v = Good /\ r.p # NoProg /\ c.ops # <<>> THEN "run" ELSE "done"
       /\ verdict' = IF r.v = Good /\ r.p = NoProg /\ c.end # 0 THEN <<"crash", c.end>> ELSE r.v
       /\ prog' = IF r.p = NoProg THEN NoProg ELSE r.p @@ [addr |-> Addresses(c, r.p)]
  /\ n' = n + 1
  /\ UNCHANGED <<idx, d, pos>>

\* the verdict after the specification moved to d2, x being the first difference
RunVerdict(c, d2, x) ==
  LET log == d2.m.log IN
  IF x # 0 THEN
    IF c.end = 3 /\ pos + x > Len(c.log) THEN Good
    ELSE <<"event", pos + x, "expected", log[x], "got", Got(c, pos + x)>>
  ELSE IF d2.m.un THEN (IF c.end = 1 /\ ~d2.m.big THEN <<"crash">> ELSE Good)
  ELSE IF ~Finished(c.ops, d2) THEN Good
  ELSE IF pos + Len(log) < Len(c.log) THEN
    <<"extra event", pos + Len(log) + 1, "got", Got(c, pos + Len(log) + 1)>>
  ELSE IF c.end # 0 THEN <<"crash at the end", c.end>> ELSE Good

StepRun ==
  /\ phase = "run"
  /\ \E c \in {Cases[idx]} :
     \E d2 \in {Advance(prog, CaseCfg(c), c.ops, d, Chunk)} :
     \E x \in {Diff(prog, c, d2.m.log, pos, 1)} :
     \E bad \in {RunVerdict(c, d2, x)} :
     \E end \in {Finished(c.ops, d2)} :
     \E stop \in {bad # Good \/ end \/ n > Fuel \/ x # 0} :
       /\ verdict' = bad
       /\ phase' = IF stop THEN "done" ELSE "run"
       /\ d' = IF stop THEN Drv0 ELSE [d2 EXCEPT !.m.log = <<>>]
       /\ prog' = IF stop THEN NoProg ELSE prog
       /\ pos' = pos + Len(d2.m.log)
       /\ (stop /\ ~end /\ bad = Good) => PrintT(<<"UNFINISHED", c.id>>)
       /\ d2.m.un => PrintT(<<"UNSPECIFIED", c.id>>)
  /\ n' = n + 1
  /\ UNCHANGED idx

Next == StepFront \/ StepRun
Spec == Init /\ [][Next]_vars

View == <<idx, n>>
Conforms == verdict = Good \/ (PrintT(<<"BAD", Cases[idx].id, verdict>>) /\ FALSE)
Short == [id |-> Cases[idx].id, phase |-> phase, verdict |-> verdict]
=============================================================================
