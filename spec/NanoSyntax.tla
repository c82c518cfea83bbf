----------------------------- MODULE NanoSyntax -----------------------------
(* Concrete syntax: characters -> tokens -> abstract syntax.                *)
(*                                                                          *)
(* A position is file * 65536 + line.  A token is <<type, position, data>>. *)
(* Parsing yields [ok |-> TRUE, n |-> node, p |-> next token] or            *)
(* [ok |-> FALSE, line |-> position of the offending construct,             *)
(*  m |-> what is wrong with it].                                           *)
EXTENDS NanoValues, NanoMessages

Keywords == {
    <<97, 110, 100>>,
    <<99, 111, 110, 115, 116>>,
    <<101, 108, 115, 101>>,
    <<101, 110, 100>>,
    <<102, 111, 114>>,
    <<102, 117, 110, 99, 116, 105, 111, 110>>,
    <<105, 102>>,
    <<105, 109, 112, 111, 114, 116>>,
    <<110, 111, 110, 101>>,
    <<110, 111, 116>>,
    <<111, 114>>,
    <<114, 101, 116, 117, 114, 110>>,
    <<116, 111>>,
    <<118, 97, 114>>,
    <<119, 104, 105, 108, 101>>}
KwTok(w) ==
  CASE w = <<97, 110, 100>> -> "and"
    [] w = <<99, 111, 110, 115, 116>> -> "const"
    [] w = <<101, 108, 115, 101>> -> "else"
    [] w = <<101, 110, 100>> -> "end"
    [] w = <<102, 111, 114>> -> "for"
    [] w = <<102, 117, 110, 99, 116, 105, 111, 110>> -> "function"
    [] w = <<105, 102>> -> "if"
    [] w = <<105, 109, 112, 111, 114, 116>> -> "import"
    [] w = <<110, 111, 110, 101>> -> "none"
    [] w = <<110, 111, 116>> -> "not"
    [] w = <<111, 114>> -> "or"
    [] w = <<114, 101, 116, 117, 114, 110>> -> "return"
    [] w = <<116, 111>> -> "to"
    [] w = <<118, 97, 114>> -> "var"
    [] w = <<119, 104, 105, 108, 101>> -> "while"

Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
IsAlpha(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90) \/ (c >= 95 /\ c <= 127)
IsDigit(c) == c >= 48 /\ c <= 57
IsAlnum(c) == IsAlpha(c) \/ IsDigit(c)

\* the text ends at its first NUL
TextEnd(src) == LET z == SelectInSeq(src, LAMBDA c: c = 0) IN IF z = 0 THEN Len(src) ELSE z - 1

At(src, i) == IF i <= Len(src) THEN src[i] ELSE 0

\* the first position from i on where Stop holds, or the end
Until(src, i, Stop(_)) ==
  IF i > Len(src) THEN i
  ELSE LET e == SelectInSeq(SubSeq(src, i, Len(src)), Stop) IN IF e = 0 THEN Len(src) + 1 ELSE i + e - 1
SkipAlnum(src, i) == Until(src, i, LAMBDA c: ~IsAlnum(c))
SkipDigit(src, i) == Until(src, i, LAMBDA c: ~IsDigit(c))
SkipComment(src, i) == Until(src, i, LAMBDA c: c = 10)
StringEnd(src, i) == LET e == Until(src, i, LAMBDA c: c \in {10, 34}) IN
                     IF e > Len(src) THEN 0 ELSE IF src[e] = 10 THEN 0 ELSE e

Simple(c) ==
  CASE c = 40 -> "(" [] c = 41 -> ")" [] c = 91 -> "[" [] c = 93 -> "]"
    [] c = 44 -> "," [] c = 43 -> "add" [] c = 45 -> "sub" [] c = 42 -> "mul"
    [] c = 47 -> "div" [] c = 37 -> "mod" [] c = 46 -> "."
    [] OTHER -> ""

\* The lexer reads character by character: st.i is the next position that
\* starts a token (or white space), so positions before it are passed over.
LexTok(st, to, ty) == [st EXCEPT !.i = to, !.toks = Append(@, <<ty, st.ln>>)]
LexVal(st, to, ty, v) == [st EXCEPT !.i = to, !.toks = Append(@, <<ty, st.ln, v>>)]
LexEol(st, to) == [st EXCEPT !.i = to, !.ln = @ + 1, !.toks = Append(@, <<"eol", st.ln>>)]
LexBad(st, m) == [st EXCEPT !.bad = TRUE, !.m = m]

LexStep(src, st, i) ==
  IF st.bad \/ i < st.i THEN st
  ELSE LET c == src[i] IN
  IF c \in {32, 13, 9} THEN [st EXCEPT !.i = i + 1]
  ELSE IF c = 10 THEN LexEol(st, i + 1)
  ELSE IF c = 35 THEN
    LET e == SkipComment(src, i) IN
    IF e > Len(src) THEN [st EXCEPT !.i = e] ELSE LexEol(st, e + 1)
  ELSE IF c = 34 THEN
    LET e == StringEnd(src, i + 1) IN
    IF e = 0 THEN LexBad(st, <<"quote">>) ELSE LexVal(st, e + 1, "str", SubSeq(src, i + 1, e - 1))
  ELSE IF IsAlpha(c) THEN
    LET e == SkipAlnum(src, i)
        w == SubSeq(src, i, e - 1)
        lw == [j \in 1..Len(w) |-> Lower(w[j])]
    IN IF Len(w) < 9 /\ lw \in Keywords THEN LexTok(st, e, KwTok(lw)) ELSE LexVal(st, e, "id", w)
  ELSE IF IsDigit(c) THEN
    LET e == SkipDigit(src, i)
        isf == At(src, e) = 46
        f == IF isf THEN SkipDigit(src, e + 1) ELSE e
        ds == SubSeq(src, i, e - 1)
    IN IF isf THEN LexVal(st, f, "flt", FLiteral(ds, SubSeq(src, e + 1, f - 1)))
       ELSE LexVal(st, e, "int", DigitsVal(ds, 1, 0))
  ELSE IF c \in {60, 61, 62} THEN
    LET two == At(src, i + 1) = 61
        ty == CASE c = 61 -> (IF two THEN "eq" ELSE "=")
                [] c = 60 -> (IF two THEN "leq" ELSE "lt")
                [] c = 62 -> (IF two THEN "geq" ELSE "gt")
    IN LexTok(st, IF two THEN i + 2 ELSE i + 1, ty)
  ELSE IF Simple(c) # "" THEN LexTok(st, i + 1, Simple(c))
  ELSE LexBad(st, <<"character", <<c>>>>)

LexAll(src, ln) ==
  LET st == FoldLeftDomain(LAMBDA st, i: LexStep(src, st, i),
                           [i |-> 1, ln |-> ln, toks |-> <<>>, bad |-> FALSE, m |-> <<>>], src)
  IN IF st.bad THEN [ok |-> FALSE, line |-> st.ln, m |-> st.m]
     ELSE [ok |-> TRUE, toks |-> Append(st.toks, <<"eof", st.ln>>)]

Lex(src, file) == LexAll(SubSeq(src, 1, TextEnd(src)), file * 65536 + 1)

-----------------------------------------------------------------------------
(* Grammar *)
NoE == [k |-> "nil"]

Fail(line, m) == [ok |-> FALSE, line |-> line, m |-> m]
Ok(n, p) == [ok |-> TRUE, n |-> n, p |-> p]

Ty(ts, p) == ts[p][1]
Ln(ts, p) == ts[p][2]
\* how a message shows a token
TokText(t) == IF t[1] \in {"id", "str"} THEN t[3] ELSE TokenName(t[1])
Wanted(ts, p, ty) == <<"expect", TokText(ts[p]), TokenName(ty)>>

\* continue with F(r) when r is fine
Then(r, F(_)) == IF r.ok THEN F(r) ELSE r

\* expect a token of type ty at p, continue after it
Expect(ts, p, ty, F(_)) == IF Ty(ts, p) = ty THEN F(p + 1) ELSE Fail(Ln(ts, p), Wanted(ts, p, ty))

RECURSIVE SkipEol(_, _)
SkipEol(ts, p) == IF Ty(ts, p) = "eol" THEN SkipEol(ts, p + 1) ELSE p
\* at least one end of line
Lines(ts, p, F(_)) == IF Ty(ts, p) = "eol" THEN F(SkipEol(ts, p)) ELSE Fail(Ln(ts, p), Wanted(ts, p, "eol"))

Prec(t) ==
  CASE t \in {"and", "or"} -> 1
    [] t \in {"lt", "gt", "leq", "geq", "eq"} -> 3
    [] t \in {"add", "sub"} -> 4
    [] t \in {"mul", "div", "mod"} -> 5
    [] OTHER -> 0

RECURSIVE PExpr(_, _, _), POperators(_, _, _, _), PUnary(_, _), POperand(_, _),
          PPostfix(_, _, _), PPrimary(_, _), PList(_, _, _, _)

\* comma separated expressions, closed by token cl
PList(ts, p, cl, acc) ==
  Then(PExpr(ts, p, 1), LAMBDA r:
    IF Ty(ts, r.p) = "," THEN PList(ts, r.p + 1, cl, Append(acc, r.n))
    ELSE Expect(ts, r.p, cl, LAMBDA q: Ok(Append(acc, r.n), q)))

PPrimary(ts, p) ==
  LET t == ts[p]  ty == t[1]  ln == t[2] IN
  CASE ty = "[" -> Then(PList(ts, p + 1, "]", <<>>), LAMBDA r:
                     Ok([k |-> "ary", es |-> r.n, ln |-> ln], r.p))
    [] ty = "(" -> Then(PExpr(ts, p + 1, 1), LAMBDA r:
                     Expect(ts, r.p, ")", LAMBDA q: Ok(r.n, q)))
    [] ty = "id" ->
         IF Ty(ts, p + 1) = "." THEN
           Expect(ts, p + 2, "id", LAMBDA q:
             Ok([k |-> "mem", name |-> t[3], ln |-> ln,
                 mem |-> ts[p + 2][3], mln |-> ts[p + 2][2]], q))
         ELSE Ok([k |-> "id", name |-> t[3], ln |-> ln], p + 1)
    [] ty = "int" -> Ok([k |-> "int", v |-> t[3], ln |-> ln], p + 1)
    [] ty = "flt" -> Ok([k |-> "flt", v |-> t[3], ln |-> ln], p + 1)
    [] ty = "str" -> Ok([k |-> "str", v |-> t[3], ln |-> ln], p + 1)
    [] ty = "none" -> Ok([k |-> "none", ln |-> ln], p + 1)
    [] OTHER -> Fail(ln, <<"literal", TokText(t)>>)

PPostfix(ts, p, e) ==
  CASE Ty(ts, p) = "[" -> Then(PExpr(ts, p + 1, 1), LAMBDA r:
         Expect(ts, r.p, "]", LAMBDA q:
           PPostfix(ts, q, [k |-> "idx", a |-> e, i |-> r.n, ln |-> Ln(ts, p)])))
    [] Ty(ts, p) = "(" ->
         IF Ty(ts, p + 1) = ")" THEN
           PPostfix(ts, p + 2, [k |-> "call", f |-> e, args |-> <<>>, ln |-> Ln(ts, p)])
         ELSE Then(PList(ts, p + 1, ")", <<>>), LAMBDA r:
           PPostfix(ts, r.p, [k |-> "call", f |-> e, args |-> r.n, ln |-> Ln(ts, p)]))
    [] OTHER -> Ok(e, p)

\* unary minus binds tighter than every binary operator
POperand(ts, p) ==
  IF Ty(ts, p) = "sub" THEN
    Then(POperand(ts, p + 1), LAMBDA r:
      Ok([k |-> "un", op |-> "neg", e |-> r.n, ln |-> Ln(ts, p)], r.p))
  ELSE Then(PPrimary(ts, p), LAMBDA r: PPostfix(ts, r.p, r.n))

\* 'not' takes everything that binds tighter than 'and' and 'or'
PUnary(ts, p) ==
  IF Ty(ts, p) = "not" THEN
    Then(PExpr(ts, p + 1, 3), LAMBDA r:
      Ok([k |-> "un", op |-> "not", e |-> r.n, ln |-> Ln(ts, p)], r.p))
  ELSE POperand(ts, p)

\* left associative operators of rank m or more after the operand l
POperators(ts, p, l, m) ==
  LET op == Ty(ts, p) IN
  IF Prec(op) >= m THEN
    Then(PExpr(ts, p + 1, Prec(op) + 1), LAMBDA r:
      POperators(ts, r.p, [k |-> "bin", op |-> op, l |-> l, r |-> r.n, ln |-> Ln(ts, p)], m))
  ELSE Ok(l, p)

PExpr(ts, p, m) == Then(PUnary(ts, p), LAMBDA r: POperators(ts, r.p, r.n, m))

\* 'var x', 'const x' with optional initialiser: p is at the name
PDecl(ts, p) ==
  Expect(ts, p, "id", LAMBDA q:
    IF Ty(ts, q) = "=" THEN
      Then(PExpr(ts, q + 1, 1), LAMBDA r:
        Ok([k |-> "var", name |-> ts[p][3], ln |-> Ln(ts, p), e |-> r.n], r.p))
    ELSE Ok([k |-> "var", name |-> ts[p][3], ln |-> Ln(ts, p), e |-> NoE], q))

RECURSIVE PStmt(_, _), PBlock(_, _, _, _)

\* statements up to one of the closing tokens; n is <<statements, closing token>>
PBlock(ts, p, cls, acc) ==
  LET Item(st, i) ==
        IF st.done \/ i < st.p THEN st
        ELSE IF Ty(ts, i) \in cls THEN [st EXCEPT !.done = TRUE, !.r = Ok(<<st.ss, i>>, i + 1)]
        ELSE LET r == PStmt(ts, i) IN
             IF r.ok THEN [st EXCEPT !.ss = Append(@, r.n), !.p = r.p]
             ELSE [st EXCEPT !.done = TRUE, !.r = r]
      at == [i \in 1..(Len(ts) - p + 1) |-> p + i - 1]
  IN FoldLeft(Item, [p |-> p, ss |-> acc, done |-> FALSE, r |-> NoE], at).r

PIf(ts, p) ==
  Expect(ts, p + 1, "(", LAMBDA a:
  Then(PExpr(ts, a, 1), LAMBDA c:
  Expect(ts, c.p, ")", LAMBDA b:
  Lines(ts, b, LAMBDA s:
  Then(PBlock(ts, s, {"end", "else"}, <<>>), LAMBDA t:
    IF Ty(ts, t.n[2]) = "end" THEN
      Ok([k |-> "if", ln |-> Ln(ts, p), c |-> c.n, t |-> t.n[1], e |-> <<>>, he |-> FALSE], t.p)
    ELSE Lines(ts, t.p, LAMBDA s2:
         Then(PBlock(ts, s2, {"end"}, <<>>), LAMBDA e:
           Ok([k |-> "if", ln |-> Ln(ts, p), c |-> c.n, t |-> t.n[1], e |-> e.n[1], he |-> TRUE], e.p))))))))

PWhile(ts, p) ==
  Expect(ts, p + 1, "(", LAMBDA a:
  Then(PExpr(ts, a, 1), LAMBDA c:
  Expect(ts, c.p, ")", LAMBDA b:
  Lines(ts, b, LAMBDA s:
  Then(PBlock(ts, s, {"end"}, <<>>), LAMBDA t:
    Ok([k |-> "while", ln |-> Ln(ts, p), c |-> c.n, b |-> t.n[1]], t.p))))))

PFor(ts, p) ==
  Expect(ts, p + 1, "(", LAMBDA a:
  Expect(ts, a, "id", LAMBDA a2:
  Expect(ts, a2, "=", LAMBDA a3:
  Then(PExpr(ts, a3, 1), LAMBDA x:
  Expect(ts, x.p, "to", LAMBDA a4:
  Then(PExpr(ts, a4, 1), LAMBDA z:
  Expect(ts, z.p, ")", LAMBDA b:
  Lines(ts, b, LAMBDA s:
  Then(PBlock(ts, s, {"end"}, <<>>), LAMBDA t:
    Ok([k |-> "for", ln |-> Ln(ts, p), name |-> ts[a][3], nln |-> Ln(ts, a),
        a |-> x.n, z |-> z.n, b |-> t.n[1]], t.p))))))))))

PIdentStmt(ts, p) ==
  LET name == ts[p][3]  ln == Ln(ts, p)  nx == Ty(ts, p + 1) IN
  CASE nx \in {"add", "sub", "mul", "div"} ->
         IF Ty(ts, p + 2) = "=" THEN
           Then(PExpr(ts, p + 3, 1), LAMBDA r:
             Ok([k |-> "set", name |-> name, ln |-> ln,
                 e |-> [k |-> "bin", op |-> nx, l |-> [k |-> "id", name |-> name, ln |-> ln],
                        r |-> r.n, ln |-> Ln(ts, p + 1)]], r.p))
         ELSE Fail(Ln(ts, p + 1), <<"equals">>)
    [] nx = "." ->
         Expect(ts, p + 2, "id", LAMBDA a:
         Expect(ts, a, "=", LAMBDA b:
         Then(PExpr(ts, b, 1), LAMBDA r:
           Ok([k |-> "setm", name |-> name, ln |-> ln, mem |-> ts[p + 2][3],
               mln |-> Ln(ts, p + 2), e |-> r.n], r.p))))
    [] nx = "=" ->
         Then(PExpr(ts, p + 2, 1), LAMBDA r:
           Ok([k |-> "set", name |-> name, ln |-> ln, e |-> r.n], r.p))
    [] nx = "(" ->
         LET callee == [k |-> "id", name |-> name, ln |-> ln]
             mk(args, q) == Ok([k |-> "do", e |-> [k |-> "call", f |-> callee, args |-> args,
                                                   ln |-> Ln(ts, p + 1)]], q)
         IN IF Ty(ts, p + 2) = ")" THEN mk(<<>>, p + 3)
            ELSE Then(PList(ts, p + 2, ")", <<>>), LAMBDA r: mk(r.n, r.p))
    [] nx = "[" ->
         Then(PExpr(ts, p + 2, 1), LAMBDA i:
         Expect(ts, i.p, "]", LAMBDA a:
         Expect(ts, a, "=", LAMBDA b:
         Then(PExpr(ts, b, 1), LAMBDA r:
           Ok([k |-> "seta", name |-> name, ln |-> ln, i |-> i.n, e |-> r.n], r.p)))))
    [] OTHER -> Fail(ln, <<"assign or call", name>>)

PReturn(ts, p) ==
  IF Ty(ts, p + 1) = "eol" THEN Ok([k |-> "ret", ln |-> Ln(ts, p), e |-> NoE], p + 1)
  ELSE Then(PExpr(ts, p + 1, 1), LAMBDA r: Ok([k |-> "ret", ln |-> Ln(ts, p), e |-> r.n], r.p))

PStmt(ts, p0) ==
  LET p == SkipEol(ts, p0)  ty == Ty(ts, p) IN
  Then(CASE ty = "var" -> PDecl(ts, p + 1)
         [] ty = "id" -> PIdentStmt(ts, p)
         [] ty = "if" -> PIf(ts, p)
         [] ty = "while" -> PWhile(ts, p)
         [] ty = "for" -> PFor(ts, p)
         [] ty = "return" -> PReturn(ts, p)
         [] OTHER -> Fail(Ln(ts, p), <<"statement", TokText(ts[p])>>),
       LAMBDA r: Lines(ts, r.p, LAMBDA q: Ok(r.n, q)))

RECURSIVE PArgs(_, _, _)
PArgs(ts, p, acc) ==
  Expect(ts, p, "id", LAMBDA q:
    LET a == Append(acc, [name |-> ts[p][3], ln |-> Ln(ts, p)]) IN
    IF Ty(ts, q) = "," THEN PArgs(ts, q + 1, a)
    ELSE Expect(ts, q, ")", LAMBDA s: Ok(a, s)))

PFunc(ts, p) ==
  Expect(ts, p, "id", LAMBDA a:
  Expect(ts, a, "(", LAMBDA b:
  Then(IF Ty(ts, b) = ")" THEN Ok(<<>>, b + 1) ELSE PArgs(ts, b, <<>>), LAMBDA as:
  Lines(ts, as.p, LAMBDA s:
  Then(PBlock(ts, s, {"end"}, <<>>), LAMBDA t:
    Ok([k |-> "func", name |-> ts[p][3], ln |-> Ln(ts, p), args |-> as.n,
        body |-> t.n[1], eln |-> Ln(ts, t.n[2])], t.p))))))

\* a failure at top level keeps the declarations before it: their imports count
TopFail(line, m, acc) == [ok |-> FALSE, line |-> line, m |-> m, ds |-> acc]
TopThen(r, acc, F(_)) == IF r.ok THEN F(r) ELSE TopFail(r.line, r.m, acc)

RECURSIVE PTop(_, _, _)
PTop(ts, p, acc) ==
  LET ty == Ty(ts, p)
      Glob(c) == TopThen(PDecl(ts, p + 1), acc, LAMBDA r:
         PTop(ts, r.p, Append(acc, [k |-> "glob", name |-> r.n.name, ln |-> r.n.ln,
                                    e |-> r.n.e, const |-> c])))
  IN
  CASE ty = "eof" -> [ok |-> TRUE, ds |-> acc]
    [] ty = "eol" -> PTop(ts, p + 1, acc)
    [] ty = "var" -> Glob(FALSE)
    [] ty = "const" -> Glob(TRUE)
    [] ty = "function" -> TopThen(PFunc(ts, p + 1), acc, LAMBDA r: PTop(ts, r.p, Append(acc, r.n)))
    [] ty = "import" ->
         IF Ty(ts, p + 1) # "str" THEN TopFail(Ln(ts, p + 1), Wanted(ts, p + 1, "str"), acc)
         ELSE PTop(ts, p + 2, Append(acc, [k |-> "import", path |-> ts[p + 1][3], ln |-> Ln(ts, p + 1)]))
    [] OTHER -> TopFail(Ln(ts, p), <<"token", TokText(ts[p])>>, acc)

\* the declarations of one file: [ok, ds] or [ok, line, m, ds]
Parse(src, file) ==
  LET l == Lex(src, file) IN IF l.ok THEN PTop(l.toks, 1, <<>>) ELSE TopFail(l.line, l.m, <<>>)
=============================================================================
