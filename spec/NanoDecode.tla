----------------------------- MODULE NanoDecode -----------------------------
(* Compiled programs as the implementation reports them: bytes, functions,  *)
(* strings, host functions and the line table, decoded into the abstract    *)
(* instructions of NanoCompile so that the machine can run them.            *)
(*                                                                          *)
(* A report c has code (bytes), opn (the byte of each operation below),     *)
(* funcs [name, s, e, args, locals], strs, sys, globs, lines, dis, dump.    *)
EXTENDS NanoCompile, TLC

OpNames == <<"add", "sub", "mul", "div", "mod", "and", "or", "not", "neg", "lt", "gt", "leq", "geq",
  "eq", "jmp", "tjmp", "fjmp", "call", "ret", "scall", "icall", "pop", "int", "str", "newary", "none",
  "flt", "func", "sys", "locals", "globals", "getv", "setv", "deref", "seta", "getg", "setg", "getm",
  "setm", "aryinit">>
NOps == Len(OpNames)

Plain == {"add", "sub", "mul", "div", "mod", "and", "or", "not", "neg", "lt", "gt", "leq", "geq", "eq",
          "none", "deref", "seta"}
Double == {"call", "scall"}
Operands(op) == IF op \in Plain THEN 0 ELSE IF op \in Double THEN 2 ELSE 1

OpOf(c, b) == LET i == SelectInSeq(c.opn, LAMBDA x: x = b) IN IF i = 0 THEN "?" ELSE OpNames[i]

Word(code, at) == \* little endian, at is the first byte's index
  code[at] + 256 * code[at + 1] + 65536 * code[at + 2] +
  16777216 * (IF code[at + 3] >= 128 THEN code[at + 3] - 256 ELSE code[at + 3])

(* raw instructions <<op, address, operand 1, operand 2, length>>; the      *)
(* decoding is complete when next is the size of the code                   *)
RawStep(c, st, i) ==
  IF st.bad \/ i - 1 < st.next THEN st
  ELSE LET op == OpOf(c, c.code[i])
           k == IF op = "?" THEN 0 ELSE Operands(op)
           n == 1 + 4 * k
       IN IF op = "?" \/ i + n - 1 > Len(c.code) THEN [st EXCEPT !.bad = TRUE]
          ELSE [st EXCEPT !.next = @ + n,
                          !.ins = Append(@, <<op, i - 1, IF k > 0 THEN Word(c.code, i + 1) ELSE 0,
                                              IF k > 1 THEN Word(c.code, i + 5) ELSE 0, n>>)]
Raw(c) == FoldLeftDomain(LAMBDA st, i: RawStep(c, st, i), [next |-> 0, ins |-> <<>>, bad |-> FALSE], c.code)
RawOk(c, raw) == ~raw.bad /\ raw.next = Len(c.code)

\* address -> index of the instruction there
AddrFn(n, ins) ==
  FoldLeftDomain(LAMBDA m, i: [m EXCEPT ![ins[i][2] + 1] = i], [a \in 1..n |-> 0], ins)

SysIndex(name) == SelectInSeq(SysTab, LAMBDA s: s.name = name)

LineFn(c) ==
  FoldLeft(LAMBDA m, l: IF l[1] >= 0 /\ l[1] < Len(c.code) /\ l[2] >= 0
                        THEN [m EXCEPT ![l[1] + 1] = l[2] * 65536 + l[3]] ELSE m,
           [a \in 1..Len(c.code) |-> -1], c.lines)

HalfWords(c, at) == <<2, c.code[at + 2] + 256 * c.code[at + 3], c.code[at] + 256 * c.code[at + 1]>>

\* where the operands are meaningful (see WellFormed), the abstract instruction
Abstract(c, r, ad, FAt(_)) ==
  LET op == r[1]  a == r[3]
      Ix(x) == IF x >= 0 /\ x < Len(c.code) THEN ad[x + 1] ELSE 0
      Nm(i) == SysIndex(c.sys[i + 1])
  IN
  CASE op \in {"jmp", "tjmp", "fjmp"} -> <<op, Ix(a), 0>>
    [] op = "call" -> <<"call", a, FAt(r[4])>>
    [] op = "scall" -> <<"scall", a, <<Nm(r[4])>>>>
    [] op = "int" -> <<"lit", I(a), 0>>
    [] op = "str" -> <<"lit", S(c.strs[a + 1]), 0>>
    [] op = "none" -> <<"lit", None, 0>>
    [] op = "flt" -> <<"lit", Canon(HalfWords(c, r[2] + 2)), 0>>
    [] op = "func" -> <<"lit", Fun(FAt(a)), 0>>
    [] op = "sys" -> <<"lit", Sys(Nm(a)), 0>>
    [] op \in {"getm", "setm"} -> <<op, c.strs[a + 1], 0>>
    [] op \in {"getg", "setg"} -> <<op, a + 1, 0>>
    [] op \in {"not", "neg"} -> <<"un", op, 0>>
    [] op \in {"deref", "seta"} -> <<op, 0, 0>>
    [] op \in Plain -> <<"bin", op, 0>>
    [] OTHER -> <<op, a, 0>>

FuncAt(c, x) == SelectInSeq(c.funcs, LAMBDA f: f.s = x)

\* the program that the machine runs
Decode(c) ==
  LET raw == Raw(c).ins
      ad == AddrFn(Len(c.code), raw)
      ln == LineFn(c)
      code == [i \in 1..Len(raw) |->
                 Abstract(c, raw[i], ad, LAMBDA x: FuncAt(c, x)) \o <<ln[raw[i][2] + 1], raw[i][2]>>]
  IN [code |-> code,
      funcs |-> [i \in 1..Len(c.funcs) |->
                   [name |-> c.funcs[i].name, start |-> ad[c.funcs[i].s + 1], nargs |-> Len(c.funcs[i].args)]],
      globs |-> c.globs, heads |-> {}]

-----------------------------------------------------------------------------
(* Well-formed code: <<>> or what is wrong *)
Good == <<>>
InRange(x, n) == x >= 0 /\ x < n

\* functions partition the code; every one starts at an instruction
FuncsBad(c, ad) ==
  LET n == Len(c.code)
      owner(x) == {i \in 1..Len(c.funcs) : c.funcs[i].s <= x /\ x < c.funcs[i].e}
      bad == {i \in 1..Len(c.funcs) :
                ~(InRange(c.funcs[i].s, n) /\ c.funcs[i].e <= n /\ c.funcs[i].s < c.funcs[i].e
                  /\ ad[c.funcs[i].s + 1] # 0)}
  IN IF bad # {} THEN <<"function range", c.funcs[CHOOSE i \in bad : TRUE].name>>
     ELSE IF FoldLeft(LAMBDA s, f: s + f.e - f.s, 0, c.funcs) # n
             \/ \E i, j \in 1..Len(c.funcs) : i < j /\ c.funcs[i].s < c.funcs[j].e /\ c.funcs[j].s < c.funcs[i].e
     THEN <<"functions do not partition the code">>
     ELSE IF SelectInSeq(c.funcs, LAMBDA f: f.name = TxtInit) = 0 THEN <<"no initialiser">>
     ELSE Good

OwnerOf(c, x) == SelectInSeq(c.funcs, LAMBDA f: f.s <= x /\ x < f.e)

\* number of locals: LOCALS is the first instruction or absent
LocalsN(c, raw, ad, f) ==
  LET r == raw[ad[c.funcs[f].s + 1]] IN IF r[1] = "locals" THEN r[3] ELSE 0

\* r: raw instruction, f: its function, nl: its locals, ng: globals of the program
InsBad(c, ad, r, f, nl, ng) ==
  LET op == r[1]  a == r[3]  F == c.funcs[f]  na == Len(F.args)
      ok ==
        CASE op \in {"jmp", "tjmp", "fjmp"} -> a >= F.s /\ a < F.e /\ ad[a + 1] # 0
          [] op = "call" -> LET g == FuncAt(c, r[4]) IN g # 0 /\ Len(c.funcs[g].args) = a
          [] op = "scall" -> /\ InRange(r[4], Len(c.sys))
                             /\ LET s == SysIndex(c.sys[r[4] + 1]) IN s # 0 /\ SysTab[s].n \in {-1, a}
                             /\ a >= 0
          [] op = "icall" -> a >= 0
          [] op = "ret" -> a = na + nl
          [] op = "func" -> FuncAt(c, a) # 0
          [] op = "sys" -> InRange(a, Len(c.sys)) /\ SysIndex(c.sys[a + 1]) # 0
          [] op \in {"str", "getm", "setm"} -> InRange(a, Len(c.strs))
          [] op \in {"getv", "setv"} -> a >= -na /\ a < nl
          [] op \in {"getg", "setg"} -> InRange(a, ng)
          [] op = "locals" -> r[2] = F.s /\ a >= 0
          [] op = "globals" -> F.name = TxtInit /\ r[2] = F.s /\ a >= 0
          [] op \in {"aryinit", "newary", "pop"} -> a > 0
          [] OTHER -> TRUE
  IN IF ok THEN Good ELSE <<"operand", op, "at", r[2], "operands", a, r[4]>>

\* effect on the height of the operand stack: <<popped, pushed>>
Effect(r) ==
  LET op == r[1]  a == r[3] IN
  CASE op \in {"int", "str", "none", "flt", "func", "sys", "getv", "getg", "newary"} -> <<0, 1>>
    [] op \in {"not", "neg", "getm"} -> <<1, 1>>
    [] op \in {"tjmp", "fjmp", "setv", "setg"} -> <<1, 0>>
    [] op = "pop" -> <<a, 0>>
    [] op = "locals" -> <<0, a>>
    [] op \in {"jmp", "globals"} -> <<0, 0>>
    [] op = "call" -> <<a, 1>>
    [] op = "scall" -> <<a, 1>>
    [] op = "icall" -> <<a + 1, 1>>
    [] op = "aryinit" -> <<a, 1>>
    [] op = "setm" -> <<2, 0>>
    [] op = "seta" -> <<3, 0>>
    [] op = "ret" -> <<1, 0>>
    [] OTHER -> <<2, 1>>

\* one height h[i] (-1 unknown) per instruction; st = [h, bad, ch]
Flow(ad, raw, st, i) ==
  LET r == raw[i]  h == st.h[i]  e == Effect(r)  out == h - e[1] + e[2]
      Into(s, j) == IF s.bad # Good THEN s
                    ELSE IF j = 0 \/ j > Len(raw) THEN [s EXCEPT !.bad = <<"falls off the code at", r[2]>>]
                    ELSE IF s.h[j] = -1 THEN [s EXCEPT !.h[j] = out, !.ch = TRUE]
                    ELSE IF s.h[j] # out THEN [s EXCEPT !.bad = <<"stack heights", s.h[j], out, "at", raw[j][2]>>]
                    ELSE s
  IN IF h = -1 \/ st.bad # Good THEN st
     ELSE IF h < e[1] THEN [st EXCEPT !.bad = <<"stack underflow at", r[2]>>]
     ELSE CASE r[1] = "ret" -> st
            [] r[1] = "jmp" -> Into(st, ad[r[3] + 1])
            [] r[1] \in {"tjmp", "fjmp"} -> Into(Into(st, i + 1), ad[r[3] + 1])
            [] OTHER -> Into(st, i + 1)

RECURSIVE Heights(_, _, _)
Heights(ad, raw, st) ==
  LET s2 == FoldLeftDomain(LAMBDA s, i: Flow(ad, raw, s, i), [st EXCEPT !.ch = FALSE], raw) IN
  IF s2.bad # Good \/ ~s2.ch THEN s2 ELSE Heights(ad, raw, s2)

\* the height at a return is exactly the locals and the result
HeightBad(c, raw, h, own, nl) ==
  LET bad == SelectInSeq([i \in 1..Len(raw) |-> raw[i][1] = "ret" /\ h[i] # -1 /\ h[i] # nl[own[i]] + 1],
                         LAMBDA b: b) IN
  IF bad = 0 THEN Good ELSE <<"height at return", raw[bad][2], h[bad]>>

\* falling through from one function to the next
CrossBad(raw, h, own) ==
  LET bad == SelectInSeq([i \in 1..(Len(raw) - 1) |->
               own[i] # own[i + 1] /\ h[i] # -1 /\ raw[i][1] \notin {"ret", "jmp"}], LAMBDA b: b) IN
  IF bad = 0 THEN Good ELSE <<"runs into the next function at", raw[bad][2]>>

FirstBad(F(_), s) == FoldLeft(LAMBDA a, x: IF a # Good THEN a ELSE F(x), Good, s)

-----------------------------------------------------------------------------
(* The disassembly *)
\* INS_ADD, INS_SUB, ... in the order of OpNames
Mnemonics == <<
  <<73, 78, 83, 95, 65, 68, 68>>,
  <<73, 78, 83, 95, 83, 85, 66>>,
  <<73, 78, 83, 95, 77, 85, 76>>,
  <<73, 78, 83, 95, 68, 73, 86>>,
  <<73, 78, 83, 95, 77, 79, 68>>,
  <<73, 78, 83, 95, 65, 78, 68>>,
  <<73, 78, 83, 95, 79, 82>>,
  <<73, 78, 83, 95, 78, 79, 84>>,
  <<73, 78, 83, 95, 78, 69, 71>>,
  <<73, 78, 83, 95, 76, 84>>,
  <<73, 78, 83, 95, 71, 84>>,
  <<73, 78, 83, 95, 76, 69, 81>>,
  <<73, 78, 83, 95, 71, 69, 81>>,
  <<73, 78, 83, 95, 69, 81>>,
  <<73, 78, 83, 95, 74, 77, 80>>,
  <<73, 78, 83, 95, 84, 74, 77, 80>>,
  <<73, 78, 83, 95, 70, 74, 77, 80>>,
  <<73, 78, 83, 95, 67, 65, 76, 76>>,
  <<73, 78, 83, 95, 82, 69, 84>>,
  <<73, 78, 83, 95, 83, 67, 65, 76, 76>>,
  <<73, 78, 83, 95, 73, 67, 65, 76, 76>>,
  <<73, 78, 83, 95, 80, 79, 80>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 73, 78, 84>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 83, 84, 82>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 65, 82, 89>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 78, 79, 78, 69>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 70, 76, 84>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 70, 85, 78, 67>>,
  <<73, 78, 83, 95, 78, 69, 87, 95, 83, 89, 83, 67, 65, 76, 76>>,
  <<73, 78, 83, 95, 76, 79, 67, 65, 76, 83>>,
  <<73, 78, 83, 95, 71, 76, 79, 66, 65, 76, 83>>,
  <<73, 78, 83, 95, 71, 69, 84, 86>>,
  <<73, 78, 83, 95, 83, 69, 84, 86>>,
  <<73, 78, 83, 95, 68, 69, 82, 69, 70>>,
  <<73, 78, 83, 95, 83, 69, 84, 65>>,
  <<73, 78, 83, 95, 71, 69, 84, 71>>,
  <<73, 78, 83, 95, 83, 69, 84, 71>>,
  <<73, 78, 83, 95, 71, 69, 84, 77>>,
  <<73, 78, 83, 95, 83, 69, 84, 77>>,
  <<73, 78, 83, 95, 65, 82, 89, 95, 73, 78, 73, 84>>>>
OpIndex(op) == SelectInSeq(OpNames, LAMBDA x: x = op)

\* listed operands: every operand in order
ListedOps(r) ==
  (IF Operands(r[1]) > 0 THEN <<32>> \o IntText(r[3]) ELSE <<>>)
  \o (IF Operands(r[1]) > 1 THEN <<32>> \o IntText(r[4]) ELSE <<>>)

ClassOf(op) ==
  (IF op \in Plain THEN 0 ELSE 1)
  + (IF op \in {"jmp", "tjmp", "fjmp", "call", "icall", "ret"} THEN 2 ELSE 0)
  + (IF op \in {"add", "sub", "mul", "div", "mod", "and", "or", "lt", "gt", "leq", "geq", "eq"} THEN 4 ELSE 0)
  + (IF op \in {"not", "neg"} THEN 8 ELSE 0)

\* d = <<address, length, class, text, mnemonic of the operation>>
DisBad(r, d) ==
  LET name == Mnemonics[OpIndex(r[1])] IN
  IF d[1] # r[2] \/ d[2] # r[5] THEN <<"disassembly out of step at", d[1], d[2], "expected", r[2], r[5]>>
  ELSE IF d[3] # ClassOf(r[1]) THEN <<"classification of", r[1], "is", d[3]>>
  ELSE IF d[5] # name THEN <<"mnemonic of", r[1]>>
  ELSE IF d[4] # name \o ListedOps(r) THEN <<"disassembly at", r[2], r[1], "reads", d[4]>>
  ELSE Good

TxtFunction == <<35, 32, 102, 117, 110, 99, 116, 105, 111, 110, 58, 32>>   \* "# function: "
TxtLine == <<35, 32, 108, 105, 110, 101, 58, 32>>                          \* "# line: "

\* the listing: per instruction its function's header when it begins, the
\* number of its source line when that differs from the one before, its text
Listing(c, raw, own, ln) ==
  FoldLeftDomain(LAMBDA a, i:
    LET l == IF ln[raw[i][2] + 1] = -1 THEN -1 ELSE ln[raw[i][2] + 1] % 65536 IN
    [ls |-> a.ls \o (IF i = 1 \/ (i > 1 /\ own[i] # own[i - 1]) THEN <<TxtFunction \o c.funcs[own[i]].name>> ELSE <<>>)
                 \o (IF l # a.l THEN <<TxtLine \o IntText(l)>> ELSE <<>>)
                 \o <<Mnemonics[OpIndex(raw[i][1])] \o ListedOps(raw[i])>>,
     l |-> l], [ls |-> <<>>, l |-> -1], raw).ls

WellFormed(c) ==
  LET R == Raw(c)  raw == R.ins IN
  IF ~RawOk(c, R) THEN <<"code does not decode at", R.next>>
  ELSE LET ad == AddrFn(Len(c.code), raw)
           fb == FuncsBad(c, ad) IN
  IF fb # Good THEN fb
  ELSE LET own == [i \in 1..Len(raw) |-> OwnerOf(c, raw[i][2])]
           nl == [f \in 1..Len(c.funcs) |-> LocalsN(c, raw, ad, f)]
           init == SelectInSeq(c.funcs, LAMBDA f: f.name = TxtInit)
           gi == raw[ad[c.funcs[init].s + 1]]
           ng == IF gi[1] = "globals" THEN gi[3] ELSE 0
           ib == FirstBad(LAMBDA i: InsBad(c, ad, raw[i], own[i], nl[own[i]], ng), [i \in 1..Len(raw) |-> i])
  IN
  IF ib # Good THEN ib
  ELSE LET starts == {ad[c.funcs[f].s + 1] : f \in 1..Len(c.funcs)}
           hs == Heights(ad, raw, [h |-> [i \in 1..Len(raw) |-> IF i \in starts THEN 0 ELSE -1],
                                   bad |-> Good, ch |-> FALSE])
  IN
  IF hs.bad # Good THEN hs.bad
  ELSE LET hb == HeightBad(c, raw, hs.h, own, nl)  cb == CrossBad(raw, hs.h, own) IN
  IF hb # Good THEN hb ELSE IF cb # Good THEN cb
  ELSE IF Len(c.dis) # Len(raw) THEN <<"disassembly lists", Len(c.dis), "of", Len(raw)>>
  ELSE LET db == FirstBad(LAMBDA i: DisBad(raw[i], c.dis[i]), [i \in 1..Len(raw) |-> i]) IN
  IF db # Good THEN db
  ELSE IF c.listing # Listing(c, raw, own, LineFn(c)) THEN <<"the listing differs">>
  ELSE Good
=============================================================================
