---------------------------- MODULE NanoMachine ----------------------------
(* The virtual machine: threads, frames, the operand stack, an ideal heap   *)
(* in which nothing ever moves or disappears, host functions and handlers,  *)
(* the scheduler, breakpoints and stepping.                                  *)
(*                                                                          *)
(* A program is [code, funcs, globs, heads] (see NanoCompile).  The machine *)
(* state is a record                                                        *)
(*   th    threads by id (creation order)                                   *)
(*   list  ids of the live threads, newest first                            *)
(*   g     globals       heap  arrays by address                            *)
(*   log   observable events, sequences of integers                         *)
(*   un    TRUE once the behaviour is not determined by the language        *)
(*   big   TRUE once the program may exhaust memory                          *)
EXTENDS NanoCompile, NanoScreen, TLC

-----------------------------------------------------------------------------
(* Events. Values are flattened to integers; the arrays of one event are    *)
(* numbered in order of appearance, so sharing and cycles are visible.      *)
RECURSIVE EncR(_, _, _, _, _), EncSeq(_, _, _, _, _)
\* acc.s: integers so far, acc.a: addresses seen
EncR(P, heap, v, acc, d) ==
  CASE v[1] = 0 -> [acc EXCEPT !.s = Append(@, 0)]
    [] v[1] = 1 -> [acc EXCEPT !.s = @ \o v]
    [] v[1] = 2 -> [acc EXCEPT !.s = @ \o Canon(v)]
    [] v[1] = 3 -> [acc EXCEPT !.s = @ \o <<3, Len(v[2])>> \o v[2]]
    [] v[1] = 4 ->
         LET i == IF v[2] \in DOMAIN acc.ix THEN acc.ix[v[2]] ELSE 0 IN
         IF i # 0 THEN [acc EXCEPT !.s = @ \o <<4, i>>]
         ELSE LET k == acc.n + 1
                  es == heap[v[2]] IN
              EncSeq(P, heap, es, 1,
                [s |-> acc.s \o <<4, k, Len(es)>>, n |-> k, ix |-> (v[2] :> k) @@ acc.ix])
    [] v[1] = 6 -> [acc EXCEPT !.s = @ \o <<6, Len(P.funcs[v[2]].name)>> \o P.funcs[v[2]].name]
    [] v[1] = 7 -> [acc EXCEPT !.s = @ \o <<7, Len(SysTab[v[2]].name)>> \o SysTab[v[2]].name]
EncSeq(P, heap, vs, i, acc) == FoldLeft(LAMBDA x, v: EncR(P, heap, v, x, 0), acc, vs)
Acc0 == [s |-> <<>>, n |-> 0, ix |-> <<>>]
Enc(P, heap, vs) == EncSeq(P, heap, vs, 1, Acc0).s

-----------------------------------------------------------------------------
(* Threads *)
NewThreadRec(P, f, args) ==
  [pc |-> P.funcs[f].start, st |-> args, fr |-> <<<<Len(args), P.funcs[f].start, TRUE>>>>,
   fin |-> FALSE, err |-> 0, halt |-> FALSE, waits |-> 0, cyc |-> 0, bp |-> {}, last |-> -1]

\* prepend a new thread; returns the state, its id is Len(th)
Spawn(P, m, f, args) ==
  [m EXCEPT !.th = Append(@, NewThreadRec(P, f, args)), !.list = <<Len(m.th) + 1>> \o @]

LineAt(P, pc) == P.code[pc][4]

\* arguments a of a call, on top of the stack
TopN(st, n) == SubSeq(st, Len(st) - n + 1, Len(st))
DropN(st, n) == SubSeq(st, 1, Len(st) - n)

\* the pause of a thread whose line is marked, and the end of an instruction
Finish(P, m, t, th) ==
  LET l == IF th.bp = {} THEN -1 ELSE LineAt(P, th.pc)
      th2 == IF th.bp = {} THEN [th EXCEPT !.cyc = @ + 1]
             ELSE [th EXCEPT !.cyc = @ + 1, !.last = l,
                             !.halt = @ \/ (l \in th.bp /\ l # th.last)]
  IN [m EXCEPT !.th[t] = th2]

\* a thread whose line p is marked from now on: it stops there when it comes from another line
Marked(P, th, p) ==
  [th EXCEPT !.bp = @ \cup {p}, !.last = IF th.bp = {} /\ th.cyc > 0 /\ ~th.fin THEN LineAt(P, th.pc) ELSE @]

\* results of an instruction
Push(P, m, t, st, v) == Finish(P, m, t, [m.th[t] EXCEPT !.st = Append(st, v), !.pc = @ + 1])
Next0(P, m, t, st) == Finish(P, m, t, [m.th[t] EXCEPT !.st = st, !.pc = @ + 1])
Fault(P, m, t, e) == Finish(P, m, t, [m.th[t] EXCEPT !.fin = TRUE, !.err = e])
Undet(m) == [m EXCEPT !.un = TRUE]
Overflow(m) == [m EXCEPT !.un = TRUE, !.big = TRUE]
Logged(m, ev) == [m EXCEPT !.log = Append(@, ev)]

-----------------------------------------------------------------------------
(* Built-in functions. [k |-> "val"/"err"/"unspec"]                         *)
FZ == FZero(0)
FMax(a, b) == IF FLt(b, a) THEN a ELSE b      \* a is the last argument
FMin(a, b) == IF FLt(a, b) THEN a ELSE b
IntOf(v) == IF IsInt(v) THEN v[2] ELSE FTrunc(v)
IntOk(v) == IsInt(v) \/ FTruncOk(v)

\* sine, cosine and tangent are parameters of the specification: a table of
\* samples [f, x, y] of these functions; elsewhere their values are not fixed
Trig(tab, f, x) ==
  IF IsNaN(x) \/ IsInf(x) THEN Val(FNaN)
  ELSE IF IsZero(x) THEN Val(IF f = "cos" THEN FFromInt(1) ELSE x)
  ELSE LET i == SelectInSeq(tab, LAMBDA e: e.f = f /\ e.x[1] = x[2] /\ e.x[2] = x[3]) IN
       IF i = 0 THEN Unspec ELSE Val(<<2, tab[i].y[1], tab[i].y[2]>>)

Builtin1(cfg, f, v) ==
  CASE f = "abs" -> IF IsInt(v) THEN Val(I(IF v[2] < 0 THEN Neg32(v[2]) ELSE v[2]))
                    ELSE IF IsFlt(v) THEN Val(IF FLt(v, FZ) THEN FNegC(v) ELSE Canon(v))
                    ELSE Err(EArg)
    [] f = "chr" -> IF ~IsInt(v) THEN Err(EArg)
                    ELSE LET c == (v[2] % 256) IN Val(S(IF c = 0 THEN <<>> ELSE <<c>>))
    [] f \in {"round", "ceil", "floor", "sqrt", "sin", "cos", "tan"} ->
         IF ~IsNum(v) THEN Err(EArg)
         ELSE LET x == AsF(v) IN
              CASE f = "sqrt" -> Val(FSqrt(x))
                [] f \in {"sin", "cos", "tan"} -> Trig(cfg.trig, f, x)
                [] OTHER -> Val(FIntegral(x, IF f = "round" THEN "r" ELSE IF f = "ceil" THEN "c" ELSE "f"))

Builtin2(f, a, b) == \* b is the last argument
  CASE f = "max" -> IF IsNum(a) /\ IsNum(b) THEN Val(FMax(AsF(b), AsF(a))) ELSE Err(EArg)
    [] f = "min" -> IF IsNum(a) /\ IsNum(b) THEN Val(FMin(AsF(b), AsF(a))) ELSE Err(EArg)
    [] f = "bitand" -> IF IsInt(a) /\ IsInt(b) THEN Val(I(And32(a[2], b[2]))) ELSE Err(EArg)

\* the value of a variable seen by the instruction that reads it
ReadVar(m, th, ins) ==
  CASE ins[1] = "getv" -> th.st[th.fr[Len(th.fr)][1] + ins[2] + 1]
    [] ins[1] = "getg" -> m.g[ins[2]]
    [] ins[1] = "lit" -> ins[2]

\* vars(): <<30, thread, names...>> with, per variable, its name and its value on its own
VarsEvent(P, m, t, vis) ==
  LET th == m.th[t]
      loc == [i \in 1..Len(vis) |-> <<vis[i][1], Enc(P, m.heap, <<ReadVar(m, th, vis[i][2])>>)>>]
      glo == [i \in 1..Len(P.globs) |-> <<P.globs[i][1], Enc(P, m.heap, <<m.g[P.globs[i][3]]>>)>>]
  IN <<30, t, loc, glo>>

Respond(P, m, t, st, r) ==
  CASE r.k = "val" -> Push(P, m, t, st, r.v)
    [] r.k = "err" -> Fault(P, m, t, r.e)
    [] r.k = "huge" -> Overflow(m)
    [] OTHER -> Undet(m)

RECURSIVE InSeq(_, _, _)
InSeq(s, x, i) == i <= Len(s) /\ (s[i] = x \/ InSeq(s, x, i + 1))

NoneSeq(n) == [i \in 1..n |-> None]

\* the functions of the driver with a screen; what they are given that they cannot use has no effect
ScreenFns == {"s_cls", "s_rand", "s_video", "s_plot", "s_flip", "s_setrgb", "s_circle", "s_line", "s_sleep", "s_keydown"}
ScreenCall(P, cfg, m, t, st, f, args) ==
  LET s == m.scr
      Do(s2) == Push(P, [m EXCEPT !.scr = s2], t, st, None)
      nums == \A i \in 1..Len(args) : IsNum(args[i])
      whole == \A i \in 1..Len(args) : IsInt(args[i])
      fit == \A i \in 1..Len(args) : IntOk(args[i])
      a == [i \in 1..Len(args) |-> IntOf(args[i])]
      near == \A i \in 1..Len(args) : Near(a[i])
  IN
  CASE f = "s_cls" -> Do(Black(s))
    [] f = "s_rand" -> LET r == NextRandom(s.rnd) IN Push(P, [m EXCEPT !.scr.rnd = r], t, st, I(RandomValue(r)))
    [] f = "s_video" -> IF ~whole THEN Do(s)     \* its result is not specified
                        ELSE Do(Video(s, a[1], a[2], InSeq(cfg.nowin, s.wins + 1, 1)))
    [] f = "s_flip" -> IF s.open THEN Push(P, Logged(m, Frame(s)), t, st, None) ELSE Do(s)
    [] f = "s_keydown" ->
         LET k == IF IsStr(args[1]) THEN SelectInSeq(KeyNames, LAMBDA x: x = args[1][2]) ELSE 0 IN
         IF k = 0 THEN Do(s)
         ELSE Push(P, m, t, st, I(IF HasBit(cfg.keys[(s.now % Len(cfg.keys)) + 1], <<1, 2, 4, 8, 16, 32>>[k]) THEN 1 ELSE 0))
    [] f = "s_line" -> IF ~whole THEN Do(s) ELSE IF ~near THEN Undet(m) ELSE Do(DrawLine(s, a[1], a[2], a[3], a[4]))
    [] ~nums -> Do(s)
    [] ~fit -> Undet(m)
    [] f = "s_setrgb" -> Do([s EXCEPT !.rgb = Color(a[1], a[2], a[3])])
    [] f = "s_sleep" -> \* until the clock is past this time
         IF a[1] > 1000000000 THEN Undet(m)
         ELSE Push(P, [m EXCEPT !.scr.mark = s.now + (IF a[1] > 0 THEN a[1] ELSE 0), !.th[t].halt = TRUE], t, st, None)
    [] f = "s_plot" -> Do(Plot(s, a[1], a[2]))
    [] f = "s_circle" -> IF ~near THEN Undet(m) ELSE Do(Circle(s, a[1], a[2], a[3]))

\* the thread of the last completed call stays, with its result, until the next call
Reap(m) == IF m.once = 0 THEN m
           ELSE [m EXCEPT !.list = SelectSeq(@, LAMBDA x: x # m.once), !.once = 0]

\* callbacks at the end of a thread, from resume only
Callbacks(cfg, m, t) ==
  LET e == m.th[t].err
      m1 == IF e # 0 /\ HasBit(cfg.h, HErr) THEN Logged(m, <<60, t, e>>) ELSE m
  IN IF HasBit(cfg.h, HFin) THEN Logged(m1, <<61, t, e>>) ELSE m1

RECURSIVE Step(_, _, _, _), RunOut(_, _, _, _)
\* thread t runs to its end, inside of an instruction of another thread
RunOut(P, cfg, m, t) ==
  IF m.un \/ m.th[t].fin THEN m
  ELSE RunOut(P, cfg, FoldLeft(LAMBDA x, i: IF x.un \/ x.th[t].fin THEN x ELSE Step(P, cfg, x, t), m, [i \in 1..100 |-> i]), t)

\* a function of the host that makes a call of its own: the call runs in a
\* thread of its own, whose errors the caller sees as a number
NestedCall(P, cfg, m, t, st, f, args) ==
  LET m1 == Reap(m)
      k == Len(m1.th) + 1
      m2 == RunOut(P, cfg, Spawn(P, [m1 EXCEPT !.th[t].st = st], f, args), k)
      m3 == [Reap(Callbacks(cfg, m2, k)) EXCEPT !.once = k]
      th == m2.th[k]
  IN IF m2.un THEN m2
     ELSE Push(P, m3, t, st, IF th.err # 0 THEN I(1000 + th.err) ELSE th.st[Len(th.st)])

\* call of host function s with the top n values of st; vis for vars()
HostCall(P, cfg, m, t, st0, s, n, vis) ==
  LET f == SysTab[s].f
      args == TopN(st0, n)
      st == DropN(st0, n)
      v == args[1]
  IN
  IF f = "nores" THEN Fault(P, m, t, ESyscall)
  ELSE IF f = "new_thread" THEN
    IF n = 0 \/ args[1][1] # 6 THEN Fault(P, m, t, EArg)
    ELSE IF P.funcs[v[2]].nargs # n - 1 THEN Fault(P, m, t, EArg)
    ELSE Push(P, Spawn(P, m, v[2], Tail(args)), t, st, I(0))
  ELSE IF f = "nest" THEN
    IF n = 0 \/ args[1][1] # 6 THEN Fault(P, m, t, EArg)
    ELSE IF P.funcs[v[2]].nargs # n - 1 THEN Fault(P, m, t, EArg)
    ELSE NestedCall(P, cfg, m, t, st, v[2], Tail(args))
  ELSE IF f = "emit" THEN
    Push(P, Logged(m, <<2, t, n>> \o Enc(P, m.heap, args)), t, st, I(n))
  ELSE IF SysTab[s].n # n /\ (f # "wide" \/ SysTab[s].n # -1) THEN Fault(P, m, t, ENumArgs)
  ELSE IF f = "wide" THEN
    Push(P, Logged(m, <<5, t, s - WideFirst, n>> \o Enc(P, m.heap, args)), t, st, I(s - WideFirst))
  ELSE CASE f \in {"abs", "chr", "round", "ceil", "floor", "sqrt", "sin", "cos", "tan"} ->
              Respond(P, m, t, st, Builtin1(cfg, f, v))
         [] f \in {"min", "max", "bitand"} -> Respond(P, m, t, st, Builtin2(f, v, args[2]))
         [] f = "len" -> IF IsStr(v) THEN Push(P, m, t, st, I(Len(v[2])))
                         ELSE IF IsArr(v) THEN Push(P, m, t, st, I(Len(m.heap[v[2]])))
                         ELSE Fault(P, m, t, EArg)
         [] f = "new_array" ->
              IF ~IsNum(v) THEN Fault(P, m, t, EArg)
              ELSE IF ~IntOk(v) THEN Undet(m)
              ELSE IF IntOf(v) <= 0 THEN Fault(P, m, t, EArg)
              ELSE IF IntOf(v) > MaxArray
                      \/ (IntOf(v) > MaxText /\ \E k \in DOMAIN m.heap : Len(m.heap[k]) > MaxText) THEN Overflow(m)
              ELSE Push(P, [m EXCEPT !.heap = Append(@, NoneSeq(IntOf(v)))], t, st, Arr(Len(m.heap) + 1))
         [] f = "wait" ->
              IF ~IsNum(v) THEN Fault(P, m, t, EArg)
              ELSE IF ~IntOk(v) THEN Undet(m)
              ELSE LET w == IF IntOf(v) > 0 THEN IntOf(v) ELSE 0 IN
                   Push(P, [m EXCEPT !.th[t].waits = w, !.th[t].halt = @ \/ w > 0], t, st, I(0))
         [] f = "out" -> Push(P, Logged(m, <<1, t>> \o Enc(P, m.heap, args)), t, st, None)
         [] f = "id" -> Push(P, m, t, st, v)
         [] f = "mk" ->
              IF ~IsInt(v) \/ v[2] \notin 0..4 THEN Fault(P, m, t, EArg)
              ELSE (CASE v[2] = 0 -> Push(P, m, t, st, None)
                     [] v[2] = 1 -> Push(P, m, t, st, I(7))
                     [] v[2] = 2 -> Push(P, m, t, st, <<2, 16320, 0>>)
                     [] v[2] = 3 -> Push(P, m, t, st, S(TxtHs))
                     [] v[2] = 4 -> Push(P, [m EXCEPT !.heap = Append(@, <<I(1), S(TxtE)>>)], t, st,
                                         Arr(Len(m.heap) + 1)))
         [] f = "fail" ->
              IF ~IsInt(v) \/ v[2] \notin 1..20 THEN Fault(P, m, t, EArg)
              ELSE Fault(P, Logged(m, <<3, t, v[2]>>), t, v[2])
         [] f = "halt" -> Push(P, [m EXCEPT !.th[t].halt = TRUE], t, st, I(0))
         [] f = "vars" -> Push(P, Logged(m, VarsEvent(P, m, t, vis)), t, st, None)
         [] f = "get" ->
              IF ~IsInt(v) \/ v[2] < 0 \/ v[2] >= Len(cfg.inputs) THEN Fault(P, m, t, EArg)
              ELSE Push(P, m, t, st, cfg.inputs[v[2] + 1])
         [] f = "junk" -> Push(P, m, t, st, I(0))
         \* the command line driver: output is logged, m.at bytes of the input are used
         [] f = "putc" -> IF ~IsInt(v) THEN Fault(P, m, t, EArg)
                          ELSE Push(P, Logged(m, <<70, v[2] % 256>>), t, st, I(0))
         [] f = "puts" -> IF ~IsStr(v) THEN Fault(P, m, t, EArg)
                          ELSE Push(P, Logged(m, <<70>> \o v[2] \o <<10>>), t, st, I(0))
         [] f = "getc" -> IF m.at >= Len(cfg.stdin) THEN Push(P, m, t, st, I(-1))
                          ELSE Push(P, [m EXCEPT !.at = @ + 1], t, st, I(cfg.stdin[m.at + 1]))
         [] f = "gets" -> \* a line, without its end, in pieces of at most 79 bytes
              LET left == SubSeq(cfg.stdin, m.at + 1, Len(cfg.stdin))
                  nl == SelectInSeq(left, LAMBDA b: b = 10)
                  full == IF nl = 0 THEN Len(left) ELSE nl
                  k == IF full > 79 THEN 79 ELSE full
                  text == IF k > 0 /\ left[k] = 10 THEN SubSeq(left, 1, k - 1) ELSE SubSeq(left, 1, k)
              IN Push(P, [m EXCEPT !.at = @ + k], t, st, S(text))
         [] f = "rand" -> Push(P, m, t, st, I(1))
         [] f \in ScreenFns -> ScreenCall(P, cfg, m, t, st, f, args)

-----------------------------------------------------------------------------
(* Host handlers: consulted where the rules leave an operation open.  The   *)
(* test host logs each consultation.                                        *)
OpBit(op) == CASE op = "add" -> HAdd [] op = "sub" -> HSub [] op = "mul" -> HMul
               [] op = "div" -> HDiv [] op = "eq" -> HEq [] OTHER -> 0

\* the text of a function shows its address in the compiled code, where that is known
TxtFunctionAt == <<102, 117, 110, 99, 116, 105, 111, 110, 64>>   \* "function@"
AsText(P, v) == IF v[1] = 6 /\ P.addr # <<>> THEN S(TxtFunctionAt \o IntText(P.addr[v[2]])) ELSE v

DoBin(P, cfg, m, t, st, op) ==
  LET l == st[Len(st) - 1]  r == st[Len(st)]  rest == DropN(st, 2)
      res == IF op = "add" /\ IsStr(l) THEN OpAdd(l, AsText(P, r))
             ELSE IF op = "add" /\ IsStr(r) THEN OpAdd(AsText(P, l), r)
             ELSE BinOp(op, l, r)
  IN
  IF res.k # "open" THEN Respond(P, m, t, rest, res)
  ELSE IF ~HasBit(cfg.h, OpBit(op)) THEN Fault(P, m, t, EType)
  ELSE LET m2 == Logged(m, <<50, t, OpBit(op)>> \o Enc(P, m.heap, <<l, r>>))
           declined == IF op = "eq" THEN IsStr(l) \/ IsStr(r) ELSE r = None
       IN IF declined THEN Fault(P, m2, t, EType)
          ELSE Push(P, m2, t, rest, I(1000 + OpBit(op)))

DoDeref(P, cfg, m, t, st) ==
  LET a == st[Len(st)]  i == st[Len(st) - 1]  rest == DropN(st, 2)
      h == HasBit(cfg.h, HAGet)
      m2 == IF h THEN Logged(m, <<51, t>> \o Enc(P, m.heap, <<a, i>>)) ELSE m
  IN
  IF h /\ IsStr(i) THEN Push(P, m2, t, rest, i)
  ELSE IF a = None THEN Fault(P, m2, t, EObject)
  ELSE IF ~IsInt(i) THEN Fault(P, m2, t, EIndex)
  ELSE IF IsArr(a) THEN
    IF i[2] < 0 \/ i[2] >= Len(m.heap[a[2]]) THEN Fault(P, m2, t, EBounds)
    ELSE Push(P, m2, t, rest, m.heap[a[2]][i[2] + 1])
  ELSE IF IsStr(a) THEN
    IF i[2] < 0 \/ i[2] >= Len(a[2]) THEN Fault(P, m2, t, EBounds)
    ELSE Push(P, m2, t, rest, I(a[2][i[2] + 1]))
  ELSE Fault(P, m2, t, EType)

DoSeta(P, cfg, m, t, st) ==
  LET a == st[Len(st)]  i == st[Len(st) - 1]  v == st[Len(st) - 2]  rest == DropN(st, 3)
      h == HasBit(cfg.h, HASet)
      m2 == IF h THEN Logged(m, <<52, t>> \o Enc(P, m.heap, <<a, i, v>>)) ELSE m
  IN
  IF h /\ IsStr(i) THEN Next0(P, m2, t, rest)
  ELSE IF ~IsArr(a) THEN Fault(P, m2, t, EObject)
  ELSE IF ~IsInt(i) THEN Fault(P, m2, t, EIndex)
  ELSE IF i[2] < 0 \/ i[2] >= Len(m.heap[a[2]]) THEN Fault(P, m2, t, EBounds)
  ELSE Next0(P, [m2 EXCEPT !.heap[a[2]][i[2] + 1] = v], t, rest)

DoGetm(P, cfg, m, t, st, mem) ==
  LET o == st[Len(st)]  rest == DropN(st, 1) IN
  IF IsArr(o) /\ mem = TxtLength THEN Push(P, m, t, rest, I(Len(m.heap[o[2]])))
  ELSE IF ~HasBit(cfg.h, HMGet) THEN Fault(P, m, t, EMember)
  ELSE LET m2 == Logged(m, <<53, t, Len(mem)>> \o mem \o Enc(P, m.heap, <<o>>)) IN
       IF Len(mem) = 1 THEN Push(P, m2, t, rest, S(mem)) ELSE Fault(P, m2, t, EMember)

DoSetm(P, cfg, m, t, st, mem) ==
  LET o == st[Len(st)]  v == st[Len(st) - 1]  rest == DropN(st, 2) IN
  IF ~HasBit(cfg.h, HMSet) THEN Fault(P, m, t, EMember)
  ELSE LET m2 == Logged(m, <<54, t, Len(mem)>> \o mem \o Enc(P, m.heap, <<o, v>>)) IN
       IF Len(mem) = 1 THEN Next0(P, m2, t, rest) ELSE Fault(P, m2, t, EMember)

EnterF(P, m, t, st, f) ==
  LET th == m.th[t] IN
  Finish(P, m, t, [th EXCEPT !.st = st, !.fr = Append(@, <<Len(st), th.pc + 1, FALSE>>), !.pc = P.funcs[f].start])

-----------------------------------------------------------------------------
(* One instruction of thread t *)
Step(P, cfg, m, t) ==
  LET th == m.th[t]
      ins == P.code[th.pc]
      op == ins[1]
      st == th.st
      n == Len(st)
      sp == th.fr[Len(th.fr)][1]
      Goto(s, pc) == Finish(P, m, t, [th EXCEPT !.st = s, !.pc = pc])
  IN
  CASE op = "lit" -> Push(P, m, t, st, ins[2])
    [] op = "getv" -> Push(P, m, t, st, st[sp + ins[2] + 1])
    [] op = "setv" -> Next0(P, m, t, DropN([st EXCEPT ![sp + ins[2] + 1] = st[n]], 1))
    [] op = "bin" -> DoBin(P, cfg, m, t, st, ins[2])
    [] op = "un" -> Respond(P, m, t, DropN(st, 1), UnOp(ins[2], st[n]))
    [] op = "jmp" -> Goto(st, ins[2])
    [] op = "tjmp" -> Goto(DropN(st, 1), IF Truth(st[n]) THEN ins[2] ELSE th.pc + 1)
    [] op = "fjmp" -> Goto(DropN(st, 1), IF Truth(st[n]) THEN th.pc + 1 ELSE ins[2])
    [] op = "call" -> EnterF(P, m, t, st, ins[3])
    [] op = "scall" -> HostCall(P, cfg, m, t, st, ins[3][1], ins[2], IF Len(ins[3]) > 1 THEN ins[3][2] ELSE <<>>)
    [] op = "icall" ->
         LET f == st[n]  rest == DropN(st, 1) IN
         IF f[1] = 7 THEN HostCall(P, cfg, m, t, rest, f[2], ins[2], <<>>)
         ELSE IF f[1] = 6 THEN
           IF P.funcs[f[2]].nargs # ins[2] THEN Fault(P, m, t, ENumArgs) ELSE EnterF(P, m, t, rest, f[2])
         ELSE Fault(P, m, t, EType)
    [] op = "ret" ->
         LET fr == th.fr[Len(th.fr)]
             rest == DropN(st, ins[2] + 1)
         IN Finish(P, m, t, [th EXCEPT !.st = Append(rest, st[n]), !.pc = fr[2],
                                       !.fr = DropN(@, 1), !.fin = fr[3] \/ Len(th.fr) = 1])
    [] op = "pop" -> Next0(P, m, t, DropN(st, ins[2]))
    [] op = "locals" -> Next0(P, m, t, st \o NoneSeq(ins[2]))
    [] op = "globals" -> Next0(P, IF ins[2] = 0 THEN m ELSE [m EXCEPT !.g = NoneSeq(ins[2])], t, st)
    [] op = "getg" -> IF ins[2] > Len(m.g) THEN Fault(P, m, t, 9) ELSE Push(P, m, t, st, m.g[ins[2]])
    [] op = "setg" -> IF ins[2] > Len(m.g) THEN Fault(P, m, t, 8)
                      ELSE Next0(P, [m EXCEPT !.g[ins[2]] = st[n]], t, DropN(st, 1))
    [] op = "deref" -> DoDeref(P, cfg, m, t, st)
    [] op = "seta" -> DoSeta(P, cfg, m, t, st)
    [] op = "getm" -> DoGetm(P, cfg, m, t, st, ins[2])
    [] op = "setm" -> DoSetm(P, cfg, m, t, st, ins[2])
    [] op = "aryinit" ->
         Push(P, [m EXCEPT !.heap = Append(@, TopN(st, ins[2]))], t, DropN(st, ins[2]), Arr(Len(m.heap) + 1))
    [] op = "newary" -> Push(P, [m EXCEPT !.heap = Append(@, NoneSeq(ins[2]))], t, st, Arr(Len(m.heap) + 1))
=============================================================================
