------------------------------ MODULE NanoSema ------------------------------
(* Static semantics: names are resolved, constants evaluated, and the       *)
(* program is accepted or rejected with the position of the first offending *)
(* construct.                                                               *)
(*                                                                          *)
(* A reference is <<"arg", i>>, <<"loc", declaration line>>, <<"glo", i>>,  *)
(* <<"con", i>>, <<"fun", i>> or <<"sys", i>>.                              *)
EXTENDS NanoSyntax, NanoHost

NoRef == <<"no">>

\* the declarations of a program: files' declarations in compilation order
FuncsOf(ds) == SelectSeq(ds, LAMBDA d: d.k = "func")
GlobsOf(ds) == SelectSeq(ds, LAMBDA d: d.k = "glob")

FindName(s, name, i) == SelectInSeq(s, LAMBDA x: x.name = name)

\* innermost declaration last
FindLocal(sc, name, n) ==
  LET i == SelectLastInSeq(sc, LAMBDA x: x[1] = name) IN IF i = 0 THEN NoRef ELSE sc[i][2]

\* the environment: env.g globals, env.f functions, sc the local scope
LookupRef(env, sc, name) ==
  LET l == FindLocal(sc, name, Len(sc)) IN
  IF l # NoRef THEN l
  ELSE LET g == FindName(env.g, name, 1) IN
  IF g # 0 THEN <<IF env.g[g].const THEN "con" ELSE "glo", g>>
  ELSE LET f == FindName(env.f, name, 1) IN
  IF f # 0 THEN <<"fun", f>>
  ELSE LET s == FindName(SysTab, name, 1) IN
  IF s # 0 THEN <<"sys", s>> ELSE NoRef

IsVarRef(r) == r[1] \in {"arg", "loc", "glo", "con"}

-----------------------------------------------------------------------------
(* Name resolution. The result is a tree in which identifiers carry refs.   *)
SOk(n) == [ok |-> TRUE, n |-> n]

RECURSIVE RExpr(_, _, _), RExprs(_, _, _, _, _)

RExprs(env, sc, es, i, acc) ==
  FoldLeft(LAMBDA a, e: Then(a, LAMBDA x: Then(RExpr(env, sc, e), LAMBDA r: SOk(Append(a.n, r.n)))), SOk(acc), es)

RExpr(env, sc, e) ==
  CASE e.k \in {"int", "flt", "str", "none"} -> SOk(e)
    [] e.k = "id" ->
         LET r == LookupRef(env, sc, e.name) IN
         IF r = NoRef THEN Fail(e.ln, <<"unknown identifier", e.name>>) ELSE SOk([k |-> "id", ref |-> r, ln |-> e.ln])
    [] e.k = "mem" ->
         LET r == LookupRef(env, sc, e.name) IN
         IF r = NoRef THEN Fail(e.ln, <<"unknown identifier", e.name>>)
         ELSE IF ~IsVarRef(r) THEN Fail(e.ln, <<"unknown variable", e.name>>)
         ELSE SOk([k |-> "mem", ref |-> r, ln |-> e.ln, mem |-> e.mem, mln |-> e.mln])
    [] e.k = "ary" -> Then(RExprs(env, sc, e.es, 1, <<>>), LAMBDA r:
                        SOk([k |-> "ary", es |-> r.n, ln |-> e.ln]))
    [] e.k = "idx" -> Then(RExpr(env, sc, e.a), LAMBDA a: Then(RExpr(env, sc, e.i), LAMBDA i:
                        SOk([k |-> "idx", a |-> a.n, i |-> i.n, ln |-> e.ln])))
    [] e.k = "call" -> Then(RExprs(env, sc, e.args, 1, <<>>), LAMBDA a: Then(RExpr(env, sc, e.f), LAMBDA f:
                        SOk([k |-> "call", f |-> f.n, args |-> a.n, ln |-> e.ln,
                             sc |-> IF f.n.k = "id" /\ f.n.ref = <<"sys", SysVars>> THEN sc ELSE <<>>])))
    [] e.k = "bin" -> Then(RExpr(env, sc, e.l), LAMBDA l: Then(RExpr(env, sc, e.r), LAMBDA r:
                        SOk([k |-> "bin", op |-> e.op, l |-> l.n, r |-> r.n, ln |-> e.ln])))
    [] e.k = "un" -> Then(RExpr(env, sc, e.e), LAMBDA r:
                        SOk([k |-> "un", op |-> e.op, e |-> r.n, ln |-> e.ln]))

RMaybe(env, sc, e) == IF e = NoE THEN SOk(NoE) ELSE RExpr(env, sc, e)

RECURSIVE RStmt(_, _, _), RBlock(_, _, _, _, _)
RBlock(env, sc0, ss, i, acc) ==
  LET Item(a, s) ==
        IF ~a.ok THEN a
        ELSE LET r == RStmt(env, a.sc, s) IN
             IF ~r.ok THEN r
             ELSE [a EXCEPT !.n = Append(@, r.n),
                            !.sc = IF s.k = "var" THEN Append(@, <<s.name, <<"loc", s.ln>>>>) ELSE @]
  IN FoldLeft(Item, [ok |-> TRUE, n |-> acc, sc |-> sc0], ss)

RStmt(env, sc, s) ==
  CASE s.k = "var" -> Then(RMaybe(env, sc, s.e), LAMBDA e:
         SOk([k |-> "var", ref |-> <<"loc", s.ln>>, name |-> s.name, ln |-> s.ln, e |-> e.n]))
    [] s.k = "set" -> Then(RExpr(env, sc, s.e), LAMBDA e:
         LET r == LookupRef(env, sc, s.name) IN
         IF r = NoRef \/ ~IsVarRef(r) THEN Fail(s.ln, <<"unknown variable", s.name>>)
         ELSE SOk([k |-> "set", ref |-> r, ln |-> s.ln, e |-> e.n]))
    [] s.k = "seta" -> Then(RExpr(env, sc, s.i), LAMBDA i: Then(RExpr(env, sc, s.e), LAMBDA e:
         LET r == LookupRef(env, sc, s.name) IN
         IF r = NoRef \/ ~IsVarRef(r) THEN Fail(s.ln, <<"unknown array", s.name>>)
         ELSE SOk([k |-> "seta", ref |-> r, ln |-> s.ln, i |-> i.n, e |-> e.n])))
    [] s.k = "setm" -> Then(RExpr(env, sc, s.e), LAMBDA e:
         LET r == LookupRef(env, sc, s.name) IN
         IF r = NoRef \/ ~IsVarRef(r) THEN Fail(s.ln, <<"unknown identifier", s.name>>)
         ELSE SOk([k |-> "setm", ref |-> r, ln |-> s.ln, mem |-> s.mem, mln |-> s.mln, e |-> e.n]))
    [] s.k = "do" -> Then(RExpr(env, sc, s.e), LAMBDA e: SOk([k |-> "do", e |-> e.n]))
    [] s.k = "ret" -> Then(RMaybe(env, sc, s.e), LAMBDA e: SOk([k |-> "ret", e |-> e.n, ln |-> s.ln]))
    [] s.k = "if" -> Then(RExpr(env, sc, s.c), LAMBDA c:
         Then(RBlock(env, sc, s.t, 1, <<>>), LAMBDA t: Then(RBlock(env, sc, s.e, 1, <<>>), LAMBDA e:
         SOk([k |-> "if", c |-> c.n, t |-> t.n, e |-> e.n, ln |-> s.ln]))))
    [] s.k = "while" -> Then(RExpr(env, sc, s.c), LAMBDA c: Then(RBlock(env, sc, s.b, 1, <<>>), LAMBDA b:
         SOk([k |-> "while", c |-> c.n, b |-> b.n, ln |-> s.ln])))
    [] s.k = "for" ->
         LET r == LookupRef(env, sc, s.name) IN
         IF r = NoRef \/ ~IsVarRef(r) THEN Fail(s.nln, <<"unknown variable", s.name>>)
         ELSE Then(RExpr(env, sc, s.a), LAMBDA a: Then(RExpr(env, sc, s.z), LAMBDA z:
              Then(RBlock(env, sc, s.b, 1, <<>>), LAMBDA b:
              SOk([k |-> "for", ref |-> r, ln |-> s.ln, nln |-> s.nln, a |-> a.n, z |-> z.n, b |-> b.n]))))

RDecl(env, d) ==
  IF d.k = "glob" THEN Then(RMaybe(env, <<>>, d.e), LAMBDA e:
       SOk([k |-> "glob", name |-> d.name, ln |-> d.ln, const |-> d.const, e |-> e.n]))
  ELSE LET sc == [i \in 1..Len(d.args) |-> <<d.args[i].name, <<"arg", i>>>>] IN
       Then(RBlock(env, sc, d.body, 1, <<>>), LAMBDA b:
       SOk([k |-> "func", name |-> d.name, ln |-> d.ln, args |-> d.args, body |-> b.n, eln |-> d.eln]))

RDecls(env, ds, i, acc) ==
  FoldLeft(LAMBDA a, x: IF ~a.ok \/ x.k = "import" THEN a
                        ELSE Then(RDecl(env, x), LAMBDA r: SOk(Append(a.n, r.n))), SOk(acc), ds)

-----------------------------------------------------------------------------
(* Constant evaluation of global initialisers, to a fixed point.            *)
IsLit(e) == e.k \in {"int", "flt", "str"}
EvalKinds == {"int", "bin", "un", "id"}

IntOp(op, a, b) ==
  CASE op = "add" -> Add32(a, b) [] op = "sub" -> Sub32(a, b) [] op = "mul" -> Mul32(a, b)
    [] op = "div" -> Div32(a, b) [] op = "mod" -> Mod32(a, b)
    [] op = "and" -> IF a # 0 /\ b # 0 THEN 1 ELSE 0
    [] op = "or"  -> IF a # 0 \/ b # 0 THEN 1 ELSE 0
    [] op = "lt"  -> IF a < b THEN 1 ELSE 0 [] op = "gt"  -> IF a > b THEN 1 ELSE 0
    [] op = "leq" -> IF a <= b THEN 1 ELSE 0 [] op = "geq" -> IF a >= b THEN 1 ELSE 0
    [] op = "eq"  -> IF a = b THEN 1 ELSE 0
IntUn(op, a) == IF op = "neg" THEN Neg32(a) ELSE IF a = 0 THEN 1 ELSE 0

Inv == [k |-> "inv"]
IV(v) == [k |-> "val", v |-> v]

RECURSIVE EvalC(_, _)
EvalC(gl, e) ==
  CASE e.k = "int" -> IV(e.v)
    [] e.k = "id" -> IF e.ref[1] = "con" /\ gl[e.ref[2]].e.k = "int" THEN IV(gl[e.ref[2]].e.v) ELSE Inv
    [] e.k = "un" ->
         IF e.e.k \notin EvalKinds THEN Inv
         ELSE LET r == EvalC(gl, e.e) IN IF r.k = "val" THEN IV(IntUn(e.op, r.v)) ELSE r
    [] e.k = "bin" ->
         IF e.l.k \notin EvalKinds \/ e.r.k \notin EvalKinds THEN Inv
         ELSE LET l == EvalC(gl, e.l) IN
              IF l.k # "val" THEN l
              ELSE LET r == EvalC(gl, e.r) IN
              IF r.k # "val" THEN r
              ELSE IF r.v = 0 /\ e.op \in {"div", "mod"} THEN [k |-> "err", line |-> e.ln]
              ELSE IV(IntOp(e.op, l.v, r.v))

Folded(v) == [k |-> "int", v |-> v, ln |-> 0]

\* one pass over the globals: [gl, ch] or a failure
RECURSIVE GPass(_, _, _)
GPass(gl, i, ch) ==
  IF i > Len(gl) THEN [ok |-> TRUE, gl |-> gl, ch |-> ch]
  ELSE LET e == gl[i].e IN
    IF e = NoE THEN GPass(gl, i + 1, ch)
    ELSE IF e.k = "none" THEN GPass([gl EXCEPT ![i].e = NoE], i + 1, ch)
    ELSE IF e.k \in {"bin", "un"} THEN
      LET r == EvalC(gl, e) IN
      IF r.k = "err" THEN Fail(r.line, <<"divide">>)
      ELSE IF r.k = "val" THEN GPass([gl EXCEPT ![i].e = Folded(r.v)], i + 1, TRUE)
      ELSE GPass(gl, i + 1, ch)
    ELSE IF e.k = "id" /\ gl[i].const /\ e.ref[1] = "con" /\ IsLit(gl[e.ref[2]].e) THEN
      GPass([gl EXCEPT ![i].e = gl[e.ref[2]].e], i + 1, TRUE)
    ELSE GPass(gl, i + 1, ch)

RECURSIVE GFix(_)
GFix(gl) == LET r == GPass(gl, 1, FALSE) IN
            IF ~r.ok THEN r ELSE IF r.ch THEN GFix(r.gl) ELSE r

-----------------------------------------------------------------------------
(* Checks over the resolved tree. Each returns <<>> or the first violation, *)
(* <<position, what is wrong>>.                                             *)
Fine == <<>>
FirstOf(F(_), s) == FoldLeft(LAMBDA a, x: IF a # Fine THEN a ELSE F(x), Fine, s)
Either(a, b) == IF a # Fine THEN a ELSE b

\* children in the order of the checks
Kids(n) ==
  CASE n.k \in {"int", "flt", "str", "none", "id", "mem", "nil"} -> <<>>
    [] n.k = "ary" -> n.es
    [] n.k = "idx" -> <<n.a, n.i>>
    [] n.k = "call" -> Append(n.args, n.f)
    [] n.k = "bin" -> <<n.l, n.r>>
    [] n.k = "un" -> <<n.e>>
    [] n.k \in {"var", "set", "setm", "do", "ret", "glob"} -> <<n.e>>
    [] n.k = "seta" -> <<n.i, n.e>>
    [] n.k = "if" -> <<n.c>> \o n.t \o n.e
    [] n.k = "while" -> <<n.c>> \o n.b
    [] n.k = "for" -> <<n.a, n.z>> \o n.b
    [] n.k = "func" -> n.body

\* constants: never assigned, only used when they have a literal value
RECURSIVE ConstErr(_, _)
ConstErr(gl, n) ==
  LET con == n.k \in {"id", "mem", "set", "seta", "setm", "for"} /\ n.ref[1] = "con"
      name == gl[n.ref[2]].name
      here == IF ~con THEN Fine
              ELSE CASE n.k = "id" -> LET e == gl[n.ref[2]].e IN
                                      IF e = NoE \/ IsLit(e) THEN Fine ELSE <<n.ln, <<"not constant", name>>>>
                     [] n.k = "mem" -> <<n.ln, <<"not constant", name>>>>
                     [] n.k = "for" -> <<n.nln, <<"cant assign const", name>>>>
                     [] OTHER -> <<n.ln, <<"cant assign const", name>>>>
  IN Either(here, Either(FirstOf(LAMBDA c: ConstErr(gl, c), Kids(n)),
                 IF n.k = "glob" /\ n.const /\ n.e = NoE THEN <<n.ln, <<"no value", n.name>>>> ELSE Fine))

\* declarations of a name that is already visible
RECURSIVE MultiBlock(_, _)
VarExists(x) == <<x.ln, <<"var exists", x.name>>>>
MultiItem(a, s, Rec(_, _)) ==
  IF a.bad # Fine THEN a
  ELSE CASE s.k = "var" -> IF s.name \in a.vis THEN [a EXCEPT !.bad = VarExists(s)] ELSE [a EXCEPT !.vis = @ \cup {s.name}]
         [] s.k = "if" -> [a EXCEPT !.bad = Either(Rec(a.vis, s.t), Rec(a.vis, s.e))]
         [] s.k \in {"while", "for"} -> [a EXCEPT !.bad = Rec(a.vis, s.b)]
         [] OTHER -> a
MultiBlock(vis, ss) ==
  FoldLeft(LAMBDA a, s: MultiItem(a, s, LAMBDA v, b: MultiBlock(v, b)), [vis |-> vis, bad |-> Fine], ss).bad

MultiNames(vis, names) ==
  FoldLeft(LAMBDA a, x: IF a.bad # Fine THEN a
                        ELSE IF x.name \in a.vis THEN [a EXCEPT !.bad = VarExists(x)]
                        ELSE [a EXCEPT !.vis = @ \cup {x.name}], [vis |-> vis, bad |-> Fine], names)
MultiFunc(vis, d) ==
  LET a == MultiNames(vis, d.args) IN IF a.bad # Fine THEN a.bad ELSE MultiBlock(a.vis, d.body)

MultiErr(vis, ds) ==
  FoldLeft(LAMBDA a, x: IF a.bad # Fine THEN a
                        ELSE IF x.name \in a.vis THEN
                          [a EXCEPT !.bad = IF x.k = "func" THEN <<x.ln, <<"function exists", x.name>>>> ELSE VarExists(x)]
                        ELSE LET v == a.vis \cup {x.name} IN
                             [vis |-> v, bad |-> IF x.k = "func" THEN MultiFunc(v, x) ELSE Fine],
           [vis |-> vis, bad |-> Fine], ds).bad

\* direct calls pass as many arguments as the callee takes
RECURSIVE NumArgsErr(_, _)
NumArgsErr(fs, n) ==
  LET direct == n.k = "call" /\ n.f.k = "id" /\ n.f.ref[1] \in {"fun", "sys"}
      callee == IF n.f.ref[1] = "fun" THEN [name |-> fs[n.f.ref[2]].name, n |-> Len(fs[n.f.ref[2]].args)]
                ELSE SysTab[n.f.ref[2]]
  IN IF direct /\ callee.n >= 0 /\ callee.n # Len(n.args) THEN
       <<n.f.ln, <<IF Len(n.args) > callee.n THEN "too many args" ELSE "not enough args", callee.name>>>>
     ELSE FirstOf(LAMBDA c: NumArgsErr(fs, c), Kids(n))

\* integer divisions by a constant zero, found by the optimiser
RECURSIVE ConstVal(_, _)
ConstVal(gl, e) ==
  CASE e.k = "int" -> IV(e.v)
    [] e.k = "id" -> IF e.ref[1] = "con" /\ gl[e.ref[2]].e.k = "int" THEN IV(gl[e.ref[2]].e.v) ELSE Inv
    [] e.k = "un" -> LET r == ConstVal(gl, e.e) IN IF r.k = "val" THEN IV(IntUn(e.op, r.v)) ELSE Inv
    [] e.k = "bin" -> LET l == ConstVal(gl, e.l)  r == ConstVal(gl, e.r) IN
         IF l.k = "val" /\ r.k = "val" /\ ~(e.op \in {"div", "mod"} /\ r.v = 0)
         THEN IV(IntOp(e.op, l.v, r.v)) ELSE Inv
    [] OTHER -> Inv

RECURSIVE OptErr(_, _)
OptErr(gl, n) ==
  Either(FirstOf(LAMBDA c: OptErr(gl, c), Kids(n)),
     IF n.k = "bin" /\ n.op \in {"div", "mod"} /\ ConstVal(gl, n.l).k = "val" /\ ConstVal(gl, n.r) = IV(0)
     THEN <<n.ln, <<"divide">>>> ELSE Fine)

CutReturn(d) ==
  IF d.k # "func" THEN d
  ELSE LET i == SelectInSeq(d.body, LAMBDA s: s.k = "ret") IN
       IF i = 0 THEN d ELSE [d EXCEPT !.body = SubSeq(@, 1, i)]

\* put the evaluated globals back in program order
RECURSIVE PutGlobs(_, _, _, _)
PutGlobs(ds, gl, i, g) ==
  IF i > Len(ds) THEN <<>>
  ELSE IF ds[i].k = "glob" THEN <<gl[g]>> \o PutGlobs(ds, gl, i + 1, g + 1)
  ELSE <<ds[i]>> \o PutGlobs(ds, gl, i + 1, g)

Rejected(e, any) == [ok |-> FALSE, line |-> e[1], m |-> e[2], any |-> any]

SysNames == {SysTab[i].name : i \in 1..Len(SysTab)}

(* The verdict on a list of declarations: [ok, funcs, globs] or the         *)
(* position of the first violation. With two declarations of one name the   *)
(* meaning of other uses of it is open, so any position is acceptable       *)
(* unless the duplicate itself is the first violation and of the same kind. *)
Sema(ds, opt) ==
  LET env == [g |-> GlobsOf(ds), f |-> FuncsOf(ds)]
      multi == MultiErr(SysNames, SelectSeq(ds, LAMBDA d: d.k # "import"))
      dup == multi # Fine
      top == {i \in 1..Len(ds) : ds[i].k \in {"glob", "func"}}
      mixed == \E i \in top : \E j \in top :
                 i < j /\ ds[i].name = ds[j].name /\ (ds[i].k # ds[j].k \/ (ds[i].k = "glob" /\ ds[i].const # ds[j].const))
      r == RDecls(env, ds, 1, <<>>)
  IN
  IF ~r.ok THEN Rejected(<<r.line, r.m>>, dup)
  ELSE LET gf == GFix(GlobsOf(r.n)) IN
  IF ~gf.ok THEN Rejected(<<gf.line, gf.m>>, dup)
  ELSE LET gl == gf.gl
           tree == PutGlobs(r.n, gl, 1, 1)
           fs == FuncsOf(tree)
           ce == FirstOf(LAMBDA n: ConstErr(gl, n), tree)
  IN IF ce # Fine THEN Rejected(ce, dup)
  ELSE IF dup THEN Rejected(multi, mixed)
  ELSE LET ne == FirstOf(LAMBDA n: NumArgsErr(fs, n), tree)
           oe == IF opt = 0 THEN Fine ELSE FirstOf(LAMBDA n: OptErr(gl, CutReturn(n)), tree)
  IN IF ne # Fine THEN Rejected(ne, FALSE)
  ELSE IF oe # Fine THEN Rejected(oe, FALSE)
  ELSE [ok |-> TRUE, funcs |-> fs, globs |-> gl]
=============================================================================
