---------------------------- MODULE NanoCompile ----------------------------
(* Meaning of an accepted program: a translation to abstract instructions.  *)
(*                                                                          *)
(* An instruction is <<op, a, b, position, address>>; position -1 = none.   *)
(* Jumps are relative while code is being put together and absolute in the  *)
(* finished program.                                                        *)
EXTENDS NanoImport

Ins(op, a, b, ln) == <<op, a, b, ln, 0>>

Flat(F(_), s) == FoldLeft(LAMBDA acc, x: acc \o F(x), <<>>, s)

\* local variables of a body, in declaration order; the slot is the index
RECURSIVE LocalsOf(_)
LocalsOf(ss) == Flat(LAMBDA s:
  CASE s.k = "var" -> <<s.ref>>
    [] s.k = "if" -> LocalsOf(s.t) \o LocalsOf(s.e)
    [] s.k \in {"while", "for"} -> LocalsOf(s.b)
    [] OTHER -> <<>>, ss)

IndexOf(s, x) == SelectInSeq(s, LAMBDA y: y = x)

\* cx: [gl, fs, loc, na]: globals, functions, locals and arguments of the function
LitV(e) == CASE e.k = "int" -> I(e.v) [] e.k = "flt" -> e.v [] e.k = "str" -> S(e.v)
             [] e.k \in {"none", "nil"} -> None

\* storage index of global i: constants take no storage
RECURSIVE GSlotR(_, _, _, _)
GSlotR(gl, i, j, n) == IF j = i THEN n ELSE GSlotR(gl, i, j + 1, IF gl[j].const THEN n ELSE n + 1)
GSlot(gl, i) == GSlotR(gl, i, 1, 1)

Off(cx, r) == IF r[1] = "arg" THEN r[2] - 1 - cx.na ELSE IndexOf(cx.loc, r) - 1

Get(cx, r, ln) ==
  CASE r[1] \in {"arg", "loc"} -> <<Ins("getv", Off(cx, r), 0, ln)>>
    [] r[1] = "glo" -> <<Ins("getg", GSlot(cx.gl, r[2]), 0, ln)>>
    [] r[1] = "con" -> <<Ins("lit", LitV(cx.gl[r[2]].e), 0, ln)>>
    [] r[1] = "fun" -> <<Ins("lit", Fun(r[2]), 0, ln)>>
    [] r[1] = "sys" -> <<Ins("lit", Sys(r[2]), 0, ln)>>
Set(cx, r, ln) ==
  IF r[1] = "glo" THEN <<Ins("setg", GSlot(cx.gl, r[2]), 0, ln)>> ELSE <<Ins("setv", Off(cx, r), 0, ln)>>

\* what vars() has to find: <<name, instruction that reads it>> of every visible variable
Visible(cx, sc) == [i \in 1..Len(sc) |-> <<sc[i][1], Get(cx, sc[i][2], 0)[1]>>]

RECURSIVE CE(_, _)
CE(cx, e) ==
  CASE e.k \in {"int", "flt", "str", "none"} -> <<Ins("lit", LitV(e), 0, e.ln)>>
    [] e.k = "id" -> Get(cx, e.ref, e.ln)
    [] e.k = "mem" -> Get(cx, e.ref, e.ln) \o <<Ins("getm", e.mem, 0, e.mln)>>
    [] e.k = "ary" -> Flat(LAMBDA x: CE(cx, x), e.es) \o <<Ins("aryinit", Len(e.es), 0, e.ln)>>
    [] e.k = "idx" -> CE(cx, e.i) \o CE(cx, e.a) \o <<Ins("deref", 0, 0, e.ln)>>
    [] e.k = "bin" -> CE(cx, e.l) \o CE(cx, e.r) \o <<Ins("bin", e.op, 0, e.ln)>>
    [] e.k = "un" -> CE(cx, e.e) \o <<Ins("un", e.op, 0, e.ln)>>
    [] e.k = "call" ->
         LET args == Flat(LAMBDA x: CE(cx, x), e.args)  n == Len(e.args) IN
         IF e.f.k = "id" /\ e.f.ref[1] = "fun" THEN args \o <<Ins("call", n, e.f.ref[2], e.ln)>>
         ELSE IF e.f.k = "id" /\ e.f.ref[1] = "sys"
         THEN args \o <<Ins("scall", n, IF e.f.ref[2] = SysVars THEN <<e.f.ref[2], Visible(cx, e.sc)>>
                                        ELSE <<e.f.ref[2]>>, e.f.ln)>>
         ELSE args \o CE(cx, e.f) \o <<Ins("icall", n, 0, e.ln)>>

RECURSIVE CS(_, _)
CB(cx, ss) == Flat(LAMBDA s: CS(cx, s), ss)
CS(cx, s) ==
  CASE s.k = "var" -> (IF s.e = NoE THEN <<Ins("lit", None, 0, s.ln)>> ELSE CE(cx, s.e)) \o Set(cx, s.ref, s.ln)
    [] s.k = "set" -> CE(cx, s.e) \o Set(cx, s.ref, s.ln)
    [] s.k = "seta" -> CE(cx, s.e) \o CE(cx, s.i) \o Get(cx, s.ref, s.ln) \o <<Ins("seta", 0, 0, s.ln)>>
    [] s.k = "setm" -> CE(cx, s.e) \o Get(cx, s.ref, s.ln) \o <<Ins("setm", s.mem, 0, s.mln)>>
    [] s.k = "do" -> CE(cx, s.e) \o <<Ins("pop", 1, 0, s.e.ln)>>
    [] s.k = "ret" -> (IF s.e = NoE THEN <<Ins("lit", None, 0, s.ln)>> ELSE CE(cx, s.e))
                      \o <<Ins("ret", cx.na + Len(cx.loc), 0, s.ln)>>
    [] s.k = "if" ->
         LET t == CB(cx, s.t)  e == CB(cx, s.e) IN
         CE(cx, s.c) \o <<Ins("fjmp", Len(t) + 2, 0, s.ln)>> \o t \o <<Ins("jmp", Len(e) + 1, 0, -1)>> \o e
    [] s.k = "while" ->
         LET b == CB(cx, s.b)  c == CE(cx, s.c) IN
         <<Ins("jmp", Len(b) + 1, 0, s.ln)>> \o b \o c \o <<Ins("tjmp", -(Len(b) + Len(c)), 0, s.ln)>>
    [] s.k = "for" ->
         LET inc == Get(cx, s.ref, s.ln) \o <<Ins("lit", I(1), 0, s.ln), Ins("bin", "add", 0, s.ln)>> \o Set(cx, s.ref, s.ln)
             b == CB(cx, s.b) \o inc
             c == Get(cx, s.ref, s.ln) \o CE(cx, s.z) \o <<Ins("bin", "lt", 0, s.ln)>>
         IN CE(cx, s.a) \o Set(cx, s.ref, s.nln) \o <<Ins("jmp", Len(b) + 1, 0, s.ln)>> \o b \o c
            \o <<Ins("tjmp", -(Len(b) + Len(c)), 0, s.ln)>>

FuncCode(gl, fs, f) ==
  LET cx == [gl |-> gl, fs |-> fs, loc |-> LocalsOf(f.body), na |-> Len(f.args)] IN
  (IF cx.loc = <<>> THEN <<>> ELSE <<Ins("locals", Len(cx.loc), 0, f.ln)>>)
  \o CB(cx, f.body)
  \o <<Ins("lit", I(0), 0, f.eln), Ins("ret", cx.na + Len(cx.loc), 0, f.eln)>>

InitCode(gl, fs) ==
  LET cx == [gl |-> gl, fs |-> fs, loc |-> <<>>, na |-> 0] IN
  <<Ins("globals", GSlot(gl, Len(gl) + 1) - 1, 0, -1)>>
  \o Flat(LAMBDA i: IF gl[i].const \/ gl[i].e = NoE THEN <<>>
                     ELSE CE(cx, gl[i].e) \o <<Ins("setg", GSlot(gl, i), 0, gl[i].ln)>>,
           [i \in 1..Len(gl) |-> i])
  \o <<Ins("lit", I(0), 0, -1), Ins("ret", 0, 0, -1)>>

JumpOps == {"jmp", "tjmp", "fjmp"}

RECURSIVE Starts(_, _, _)
Starts(cs, i, at) == IF i > Len(cs) THEN <<>> ELSE <<at>> \o Starts(cs, i + 1, at + Len(cs[i]))

(* The abstract machine code of an accepted program.                        *)
(* funcs: [name, start, nargs]; the last one initialises the globals        *)
Compile(sem) ==
  LET fs == sem.funcs  gl == sem.globs
      cs == [i \in 1..(Len(fs) + 1) |-> IF i <= Len(fs) THEN FuncCode(gl, fs, fs[i]) ELSE InitCode(gl, fs)]
      st == Starts(cs, 1, 1)
      code == Flat(LAMBDA c: c, cs)
  IN [code |-> [i \in 1..Len(code) |->
                  IF code[i][1] \in JumpOps THEN [code[i] EXCEPT ![2] = i + @] ELSE code[i]],
      funcs |-> [i \in 1..Len(cs) |->
                  IF i <= Len(fs) THEN [name |-> fs[i].name, start |-> st[i], nargs |-> Len(fs[i].args)]
                  ELSE [name |-> TxtInit, start |-> st[i], nargs |-> 0]],
      globs |-> SelectSeq([i \in 1..Len(gl) |-> <<gl[i].name, gl[i].const, GSlot(gl, i)>>], LAMBDA x: ~x[2]),
      heads |-> {fs[i].ln : i \in 1..Len(fs)}]
=============================================================================
