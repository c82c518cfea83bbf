----------------------------- MODULE NanoDriver -----------------------------
(* The host interface: running, resuming, stepping and debugging threads.   *)
(*                                                                          *)
(* A host script is a sequence of operations [o |-> code, ...]:             *)
(*   1 run the global initialiser          2 call f with a, to completion   *)
(*   3 new thread f with a                 4 vm resume, n cycles            *)
(*   5 resume thread t, n cycles           6 step_inst t    7 step_line t   *)
(*   8, 9, 10 add, remove, clear breakpoints of t (position p)              *)
(*   11 reset the vm                                                        *)
(*   12 single step t to its end, recording the source lines                *)
(*   15 resume t with n cycles until it ends   16, 17 same by steps/lines   *)
(*   18 vm resume, n cycles, until every thread ended                       *)
(*   19 call f with a n times, showing the last result                      *)
(*   20 n times: new thread f with a, vm resume p cycles until all ended,   *)
(*      and then until all are removed                                      *)
(*   21, 22 call, new thread with values of the machine: k >= 0 in a stands  *)
(*      for global k, -1 for the result of the call just made               *)
(*   60 and above: something done to other objects, or to these before they *)
(*      were reset; nothing of it is seen                                   *)
(* t = 0 is the thread that the host started last.                          *)
(* The driver state is [m, i, ctl]: machine, next operation, activity.      *)
EXTENDS NanoMachine

Idle == [k |-> "idle"]
Mach0 == [th |-> <<>>, list |-> <<>>, g |-> <<>>, heap |-> <<>>, log |-> <<>>, un |-> FALSE, big |-> FALSE,
          once |-> 0, host |-> 0, at |-> 0, scr |-> Scr0]
Drv0 == [m |-> Mach0, i |-> 1, ctl |-> Idle]

Bool(b) == IF b THEN 1 ELSE 0
Pos(ln) == IF ln = -1 THEN <<-1, -1>> ELSE <<ln \div 65536, ln % 65536>>

\* what the host can see of the threads after an operation
ThreadShort(P, m, t) ==
  LET th == m.th[t] IN
  <<t, Bool(th.fin), th.err, th.waits>>
  \o (IF th.err # 0 THEN Pos(LineAt(P, th.pc)) ELSE <<>>)
  \o (IF th.fin /\ th.err = 0 THEN Enc(P, m.heap, <<th.st[Len(th.st)]>>) ELSE <<>>)

\* the complete state, arrays numbered across all threads and globals
RECURSIVE FullR(_, _, _, _)
FullR(P, m, i, acc) ==
  IF i > Len(m.list) THEN acc
  ELSE LET t == m.list[i]  th == m.th[t]
           fr == Flat(LAMBDA f: <<f[1], P.code[f[2]][5], Bool(f[3])>>, th.fr)
           head == <<t, Bool(th.fin), th.err, th.waits, th.cyc, P.code[th.pc][5]>> \o Pos(LineAt(P, th.pc))
           a == [acc EXCEPT !.s = @ \o head]
       IN FullR(P, m, i + 1,
            IF th.err # 0 THEN a
            ELSE EncSeq(P, m.heap, th.st, 1,
                   [a EXCEPT !.s = @ \o <<Len(th.fr)>> \o fr \o <<Len(th.st)>>]))

Status(P, cfg, m) ==
  IF cfg.dump = 0 THEN <<>>
  ELSE LET fin == Bool(\A i \in 1..Len(m.list) : m.th[m.list[i]].fin)
           err == Bool(\E i \in 1..Len(m.list) : m.th[m.list[i]].err # 0)
           hd == <<fin, err, Len(m.list)>>
       IN IF cfg.dump = 1 THEN hd \o Flat(LAMBDA t: ThreadShort(P, m, t), m.list)
          ELSE LET a == FullR(P, m, 1, [Acc0 EXCEPT !.s = hd])
               IN EncSeq(P, m.heap, m.g, 1, [a EXCEPT !.s = Append(@, Len(m.g))]).s

FIndex(P, name) == FindName(P.funcs, name, 1)

Done(P, cfg, d, m, ev) ==
  [m |-> Logged(m, ev \o Status(P, cfg, m)), i |-> d.i + 1, ctl |-> Idle]

CallRes(P, cfg, d, m, t, c) ==
  LET th == m.th[t]  m2 == [Reap(m) EXCEPT !.once = t] IN
  IF c.o = 19 /\ c.rest[1] > 1 THEN
    LET op == c.rest[2]  m3 == Reap(m2) IN
    [m |-> Spawn(P, m3, FIndex(P, op.f), op.a), i |-> d.i,
     ctl |-> [c EXCEPT !.t = Len(m3.th) + 1, !.n = -1, !.rest[1] = @ - 1]]
  ELSE IF th.err # 0 THEN Done(P, cfg, d, m2, <<100 + c.o, 0, th.err>>)
  ELSE Done(P, cfg, d, m2, <<100 + c.o, 1, 0>> \o Enc(P, m.heap, <<th.st[Len(th.st)]>>))

Alive(m, t) == InSeq(m.list, t, 1)

AllFin(m) == \A i \in 1..Len(m.list) : m.th[m.list[i]].fin

\* the arguments that the host gives to a call or a thread
HostArgs(m, op) ==
  [i \in 1..Len(op.a) |->
     IF op.o \notin {21, 22} THEN op.a[i]
     ELSE LET k == op.a[i][2] IN
          IF k >= 0 THEN (IF k < Len(m.g) THEN m.g[k + 1] ELSE None)
          ELSE IF m.once = 0 THEN None
          ELSE LET th == m.th[m.once] IN IF th.err # 0 THEN None ELSE th.st[Len(th.st)]]

\* start the next operation
Begin(P, cfg, d, op) ==
  LET o == op.o
      m == IF o \in {2, 19, 21} /\ FIndex(P, op.f) # 0 THEN Reap(d.m) ELSE d.m
      Run(mm, t, n) == [m |-> mm, i |-> d.i, ctl |-> [k |-> "run", t |-> t, n |-> n, o |-> o, rest |-> <<>>]]
  IN
  CASE o = 1 -> Run(Spawn(P, m, FIndex(P, TxtInit), <<>>), Len(m.th) + 1, -1)
    [] o \in {2, 3, 21, 22} ->
         LET f == FIndex(P, op.f)
             a == HostArgs(d.m, op)
             called == o \in {2, 21} IN
         IF f = 0 THEN Done(P, cfg, d, m, <<100 + o, -1>>)
         ELSE IF P.funcs[f].nargs # Len(a) THEN Done(P, cfg, d, m, IF called THEN <<100 + o, 0, 5>> ELSE <<100 + o, 0>>)
         ELSE IF called THEN Run(Spawn(P, m, f, a), Len(m.th) + 1, -1)
         ELSE Done(P, cfg, d, [Spawn(P, m, f, a) EXCEPT !.host = Len(m.th) + 1], <<100 + o, 1, Len(m.th) + 1>>)
    [] o \in {4, 18} ->
         IF o = 18 /\ AllFin(m) THEN Done(P, cfg, d, m, <<118, 1>>)
         ELSE [d EXCEPT !.ctl = [k |-> "vm", n |-> op.n, o |-> o, rest |-> m.list, left |-> 0]]
    [] o = 20 ->
         LET f == FIndex(P, op.f)  a == [i \in 1..Len(op.a) |-> op.a[i]] IN
         IF f = 0 \/ P.funcs[f].nargs # Len(a) THEN Done(P, cfg, d, m, <<120, -1>>)
         ELSE LET m2 == Spawn(P, m, f, a) IN
              [m |-> m2, i |-> d.i, ctl |-> [k |-> "vm", n |-> op.p, o |-> 20, rest |-> m2.list, left |-> op.n]]
    [] o = 19 ->
         LET f == FIndex(P, op.f)  a == [i \in 1..Len(op.a) |-> op.a[i]] IN
         IF f = 0 THEN Done(P, cfg, d, m, <<119, -1>>)
         ELSE IF P.funcs[f].nargs # Len(a) THEN Done(P, cfg, d, m, <<119, 0, 5>>)
         ELSE [m |-> Spawn(P, m, f, a), i |-> d.i,
               ctl |-> [k |-> "run", t |-> Len(m.th) + 1, n |-> -1, o |-> 19,
                        rest |-> <<op.n, [f |-> op.f, a |-> a]>>]]
    [] o >= 60 -> [d EXCEPT !.i = @ + 1]
    [] o = 11 -> Done(P, cfg, d, [m EXCEPT !.list = <<>>, !.g = <<>>, !.once = 0], <<111>>)
    [] OTHER ->
         LET t == IF op.t = 0 THEN m.host ELSE op.t IN
         IF ~Alive(m, t) THEN Done(P, cfg, d, m, <<100 + o, -1>>)
         ELSE LET th == m.th[t] IN
         CASE o = 8 -> Done(P, cfg, d, [m EXCEPT !.th[t] = Marked(P, @, op.p)], <<108>>)
           [] o = 9 -> Done(P, cfg, d, [m EXCEPT !.th[t].bp = @ \ {op.p}], <<109>>)
           [] o = 10 -> Done(P, cfg, d, [m EXCEPT !.th[t].bp = {}], <<110>>)
           [] th.fin -> Done(P, cfg, d, m, <<100 + o, IF o = 12 THEN -2 ELSE 0>>)
           [] o = 5 -> Run([m EXCEPT !.th[t].halt = FALSE], t, op.n)
           [] o = 7 -> [d EXCEPT !.ctl = [k |-> "run", t |-> t, n |-> -1, o |-> 7, rest |-> <<LineAt(P, th.pc)>>]]
           [] o = 12 -> [d EXCEPT !.ctl = [k |-> "run", t |-> t, n |-> -1, o |-> 12, rest |-> <<LineAt(P, th.pc)>>]]
           [] OTHER -> Run(m, t, IF o = 6 THEN 1 ELSE -1)

ByResume == {1, 2, 4, 5, 15, 18, 19, 20, 21}
StopsOnHalt == {4, 5, 18, 20}

\* the activity after thread t ran
RunEnd(P, cfg, d, m, c) ==
  LET th == m.th[c.t]  ok == Bool(th.err = 0)
      m2 == IF th.fin /\ c.o \in ByResume THEN Callbacks(cfg, m, c.t) ELSE m IN
  CASE c.o = 1 -> Done(P, cfg, d, m2, <<101, ok>>)
    [] c.o \in {2, 19, 21} -> CallRes(P, cfg, d, m2, c.t, c)
    [] c.o \in {4, 18, 20} ->
         IF th.err # 0 /\ c.o # 20 THEN Done(P, cfg, d, m2, <<100 + c.o, 0>>)
         ELSE [d EXCEPT !.m = m2, !.ctl = [k |-> "vm", n |-> c.rest[1], o |-> c.o, left |-> c.rest[3],
                                           rest |-> IF th.err # 0 THEN <<>> ELSE c.rest[2]]]
    [] c.o = 12 -> Done(P, cfg, d, m2, <<112, ok, c.rest>>)
    [] OTHER -> Done(P, cfg, d, m2, <<100 + c.o, ok>>)

\* one micro step of the driver
Micro(P, cfg, ops, d) ==
  LET c == d.ctl IN
  CASE c.k = "idle" -> Begin(P, cfg, d, ops[d.i])
    [] c.k = "vm" ->
         IF c.rest = <<>> THEN
           IF c.o \in {18, 20} /\ ~AllFin(d.m) THEN [d EXCEPT !.ctl.rest = d.m.list]
           ELSE IF c.o = 20 /\ d.m.list # <<>> THEN [d EXCEPT !.ctl.rest = d.m.list]
           ELSE IF c.o = 20 /\ c.left > 1 THEN
             LET op == ops[d.i]
                 m2 == Spawn(P, d.m, FIndex(P, op.f), [i \in 1..Len(op.a) |-> op.a[i]]) IN
             [d EXCEPT !.m = m2, !.ctl.rest = m2.list, !.ctl.left = @ - 1]
           ELSE Done(P, cfg, d, d.m, <<100 + c.o, 1>>)
         ELSE LET t == Head(c.rest)  th == d.m.th[t]  rest == Tail(c.rest) IN
         IF th.waits > 0 THEN [d EXCEPT !.m.th[t].waits = @ - 1, !.ctl.rest = rest]
         ELSE IF th.fin THEN [d EXCEPT !.m.list = SelectSeq(@, LAMBDA x: x # t), !.ctl.rest = rest,
                                      !.m.once = IF @ = t THEN 0 ELSE @]
         ELSE [d EXCEPT !.m.th[t].halt = FALSE,
                        !.ctl = [k |-> "run", t |-> t, n |-> c.n, o |-> c.o, rest |-> <<c.n, rest, c.left>>]]
    [] c.k = "run" ->
         IF c.n = 0 THEN RunEnd(P, cfg, d, d.m, c)
         ELSE LET m == Step(P, cfg, d.m, c.t)
                  th == m.th[c.t]
                  ln == LineAt(P, th.pc)
                  c2 == [c EXCEPT !.n = IF @ > 0 THEN @ - 1 ELSE @,
                                  !.rest = IF c.o = 12 /\ ~th.fin THEN
                                              IF ln # -1 /\ ln # @[Len(@)] THEN Append(@, ln) ELSE @
                                           ELSE @]
              IN IF m.un THEN [d EXCEPT !.m = m]
                 ELSE IF th.fin \/ (c.o \in StopsOnHalt /\ th.halt) \/ (c.o = 7 /\ ln # c.rest[1])
                 THEN RunEnd(P, cfg, d, m, c2)
                 ELSE [d EXCEPT !.m = m, !.ctl = c2]

Finished(ops, d) == d.m.un \/ (d.i > Len(ops) /\ d.ctl = Idle)

Advance(P, cfg, ops, d, k) ==
  FoldLeft(LAMBDA x, i: IF Finished(ops, x) THEN x ELSE Micro(P, cfg, ops, x), d, [i \in 1..k |-> i])
=============================================================================
