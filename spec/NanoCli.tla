------------------------------ MODULE NanoCli ------------------------------
(* The command line programs.                                               *)
(*                                                                          *)
(* nano_driver PATH...: all sources are compiled as one program, the        *)
(* globals are initialised, main is called without arguments, and its       *)
(* result is shown.  The status is 0 exactly if all of this succeeded.      *)
(* nano_comp PATH [-n -a -d -b]: compiles; the status is 0 exactly if that  *)
(* and the writing of the files that were asked for succeeded.              *)
EXTENDS NanoDriver

TxtMain == <<109, 97, 105, 110>>
TxtExit == <<101, 120, 105, 116, 58, 32>>     \* "exit: "
TxtNone == <<110, 111, 110, 101>>
TxtArray == <<97, 114, 114, 97, 121>>
TxtFunctionWord == <<102, 117, 110, 99, 116, 105, 111, 110>>

\* how the driver shows the result of main
\* (the text of a value that is not a number is not specified)
ResultText(v) ==
  TxtExit \o
  (CASE v[1] = 0 -> TxtNone \o <<10>>
    [] v[1] = 1 -> IntText(v[2])
    [] v[1] = 2 -> FText(v)
    [] v[1] = 3 -> <<34>> \o v[2] \o <<34>>
    [] v[1] = 4 -> TxtArray
    [] v[1] = 6 -> TxtFunctionWord
    [] OTHER -> <<>>) \o <<10>>

DriverOps == <<[o |-> 1, f |-> <<>>, a |-> <<>>, n |-> 0, t |-> 0, p |-> 0],
               [o |-> 2, f |-> TxtMain, a |-> <<>>, n |-> 0, t |-> 0, p |-> 0]>>

\* what the driver has written to its output
Written(m) == Flat(LAMBDA e: IF e[1] = 70 THEN Tail(e) ELSE <<>>, m.log)

\* the initialisation failed, or main could not be called or failed
Failed(m) == \E i \in 1..Len(m.log) : m.log[i][1] \in {101, 102} /\ m.log[i][2] # 1
\* nothing runs after a failed initialisation
DriverEnd(P, d) == Finished(DriverOps, d) \/ (d.ctl = Idle /\ Failed(d.m))

ResultOf(m) == LET th == m.th[m.once] IN th.st[Len(th.st)]
=============================================================================
