------------------------------ MODULE MCReuse ------------------------------
(* The life of a compiler, its program and its machine that are used more    *)
(* than once, and of others beside them.  An object holds what was put into *)
(* it until it is reset; a reset leaves nothing.  TLC explores all          *)
(* histories over an alphabet of operations and checks that a compilation   *)
(* and a run after the reset find what they find in new objects, and that   *)
(* no operation on one set of objects changes another.  The histories are   *)
(* printed to be replayed into the real code.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Alphabet == ndJsonDeserialize(IOEnv.ALPHABET)
Depth == atoi(IOEnv.DEPTH)
\* the sources that cannot be compiled
Bad == LET b == ndJsonDeserialize(IOEnv.BAD) IN {b[i] : i \in 1..Len(b)}

NewCompiler == [decls |-> {}, tokens |-> {}, pending |-> {}]
NewProgram == [code |-> {}, built |-> FALSE]
NewMachine == [threads |-> {}, globals |-> {}, once |-> {}]
NewWorld == [c |-> NewCompiler, p |-> NewProgram, m |-> NewMachine]

VARIABLES hist, main, other, file
vars == <<hist, main, other, file>>

Init == hist = <<>> /\ main = NewWorld /\ other = NewWorld /\ file = [k |-> "none", p |-> {}]

\* a compilation adds to what the compiler and the program hold; one that fails leaves
\* what it had read so far, and no program to run
Build(w, x) ==
  LET c == [decls |-> w.c.decls \cup {x}, tokens |-> w.c.tokens \cup {x},
            pending |-> IF x \in Bad THEN w.c.pending \cup {x} ELSE w.c.pending] IN
  [w EXCEPT !.c = c, !.p = [code |-> w.p.code \cup c.decls, built |-> x \notin Bad /\ c.pending = {}]]
Reset(w) == [w EXCEPT !.c = NewCompiler, !.p = NewProgram]
ResetMachine(w) == [w EXCEPT !.m = NewMachine]
\* a machine holds the globals and threads of the program it ran
Run(w, once) ==
  IF ~w.p.built THEN w
  ELSE [w EXCEPT !.m.globals = @ \cup w.p.code,
                 !.m.threads = IF once THEN @ ELSE @ \cup w.p.code,
                 !.m.once = IF once THEN w.p.code ELSE @]

Do(o) ==
  CASE o.o = 60 -> main' = Build(Reset(main), o.p) /\ UNCHANGED <<other, file>>
    [] o.o = 61 -> main' = Run(ResetMachine(main), o.t = 1) /\ UNCHANGED <<other, file>>
    [] o.o = 62 -> main' = ResetMachine(main) /\ UNCHANGED <<other, file>>
    [] o.o = 63 -> main' = Reset(ResetMachine(main)) /\ UNCHANGED <<other, file>>
    [] o.o = 64 -> file' = [k |-> "saved", p |-> main.p] /\ UNCHANGED <<main, other>>
    [] o.o = 65 -> /\ main' = [ResetMachine(main) EXCEPT
                                 !.p = IF file.k = "none" THEN [@ EXCEPT !.built = FALSE] ELSE file.p]
                   /\ UNCHANGED <<other, file>>
    [] o.o = 66 -> main' = [main EXCEPT !.m = NewMachine] /\ UNCHANGED <<other, file>>
    [] o.o = 67 -> main' = [ResetMachine(main) EXCEPT !.p = NewProgram] /\ UNCHANGED <<other, file>>
    [] o.o = 70 -> other' = Build(Reset(ResetMachine(other)), o.p) /\ UNCHANGED <<main, file>>
    [] o.o = 71 -> other' = Run(other, o.t = 1) /\ UNCHANGED <<main, file>>
    [] o.o = 72 -> UNCHANGED <<main, other, file>>
    [] o.o = 77 -> other' = ResetMachine(other) /\ UNCHANGED <<main, file>>

Next == /\ Len(hist) < Depth
        /\ \E a \in 1..Len(Alphabet) : Do(Alphabet[a]) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* what the judged compilation and run find, after the resets
Judged == 99
Prepared == Reset(ResetMachine(main))
AsNew == Run(Build(Prepared, Judged), FALSE) = Run(Build(NewWorld, Judged), FALSE)
\* and a reset is needed: what was left would be found
Owner(o) == IF o >= 70 THEN "other" ELSE "main"
Apart == [][LET o == Alphabet[hist'[Len(hist')]].o IN
            /\ Owner(o) = "other" => main' = main /\ file' = file
            /\ Owner(o) = "main" => other' = other]_vars
\* a machine only holds things of one program at a time
OneProgram == Cardinality(main.p.code) <= 1 /\ Cardinality(main.m.globals) <= 1
NoneOfABad == ~main.p.built \/ main.p.code \cap Bad = {}
Emit == Len(hist) = Depth => PrintT(<<"INFO", 0, hist>>)
=============================================================================
