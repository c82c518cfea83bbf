----------------------------- MODULE NanoValues -----------------------------
(* Dynamic values of the language and the rules of its operators.           *)
(*                                                                          *)
(*   none <<0>>      int <<1, n>>      float <<2, hi, lo>>                   *)
(*   string <<3, codes>>   array <<4, heap address>>                         *)
(*   function <<6, id>>    host function (syscall) <<7, id>>                 *)
(*                                                                          *)
(* An operator yields [k |-> "val", v], or [k |-> "err", e] (a runtime      *)
(* error), or [k |-> "open"] where the built-in rules leave the operation to *)
(* a host handler, or [k |-> "unspec"] where the result is not fixed by the  *)
(* language (text of a NaN or of a function address).                        *)
EXTENDS Float32

None == <<0>>
I(n) == <<1, n>>
S(codes) == <<3, codes>>
Arr(a) == <<4, a>>
Fun(f) == <<6, f>>
Sys(s) == <<7, s>>

IsInt(v) == v[1] = 1
IsFlt(v) == v[1] = 2
IsStr(v) == v[1] = 3
IsArr(v) == v[1] = 4
IsNum(v) == v[1] = 1 \/ v[1] = 2

\* runtime errors (thread_error_t)
ENumArgs == 5
ESyscall == 6
EDivZero == 11
EBounds  == 15
EIndex   == 16
EObject  == 17
EType    == 18
EArg     == 19
EMember  == 20

Val(v)  == [k |-> "val", v |-> v]
Err(e)  == [k |-> "err", e |-> e]
Open    == [k |-> "open"]
Unspec  == [k |-> "unspec"]
\* data that grows towards the size of the heap: exhausting memory may end the host
Huge    == [k |-> "huge"]
MaxText == 6000
MaxArray == 75000
B(b)    == Val(IF b THEN I(1) ELSE I(0))

AsF(v) == IF IsInt(v) THEN FFromInt(v[2]) ELSE v

Truth(v) ==
  CASE v[1] = 0 -> FALSE
    [] v[1] = 1 -> v[2] # 0
    [] v[1] = 2 -> ~IsZero(v)
    [] v[1] = 3 -> v[2] # <<>>
    [] OTHER -> TRUE

HasText(v) == v[1] \in {0, 1, 2, 3, 6}
TextSpecified(v) == v[1] # 6 /\ ~(v[1] = 2 /\ IsNaN(v))
Text(v) ==
  CASE v[1] = 0 -> <<110, 111, 110, 101>>
    [] v[1] = 1 -> IntText(v[2])
    [] v[1] = 2 -> FText(v)
    [] v[1] = 3 -> v[2]

Arith(l, r, FI(_, _), FF(_, _)) ==
  IF IsInt(l) /\ IsInt(r) THEN Val(I(FI(l[2], r[2])))
  ELSE IF IsNum(l) /\ IsNum(r) THEN Val(FF(AsF(l), AsF(r)))
  ELSE Open

OpAdd(l, r) ==
  IF IsNum(l) /\ IsNum(r) THEN Arith(l, r, Add32, FAdd)
  ELSE IF (IsStr(l) \/ IsStr(r)) /\ HasText(l) /\ HasText(r) THEN
    IF TextSpecified(l) /\ TextSpecified(r) THEN 
      (IF Len(Text(l)) + Len(Text(r)) > MaxText THEN Huge ELSE Val(S(Text(l) \o Text(r))))
    ELSE Unspec
  ELSE Open
OpSub(l, r) == Arith(l, r, Sub32, FSub)
OpMul(l, r) == Arith(l, r, Mul32, FMul)
OpDiv(l, r) ==
  IF IsInt(l) /\ IsInt(r) THEN
    IF r[2] = 0 THEN Err(EDivZero) ELSE Val(I(Div32(l[2], r[2])))
  ELSE IF IsNum(l) /\ IsNum(r) THEN Val(FDiv(AsF(l), AsF(r)))
  ELSE Open
OpMod(l, r) ==
  IF IsInt(l) /\ IsInt(r) THEN
    IF r[2] = 0 THEN Err(EDivZero) ELSE Val(I(Mod32(l[2], r[2])))
  ELSE Err(EType)

Compare(l, r, CI(_, _), CF(_, _)) ==
  IF IsInt(l) /\ IsInt(r) THEN B(CI(l[2], r[2]))
  ELSE IF IsNum(l) /\ IsNum(r) THEN B(CF(AsF(l), AsF(r)))
  ELSE Err(EType)
ILt(a, b) == a < b
ILe(a, b) == a <= b
IGt(a, b) == a > b
IGe(a, b) == a >= b
FGt(a, b) == FLt(b, a)
FGe(a, b) == FLe(b, a)

OpEq(l, r) ==
  IF IsInt(l) /\ IsInt(r) THEN B(l[2] = r[2])
  ELSE IF IsStr(l) /\ IsStr(r) THEN B(l[2] = r[2])
  ELSE IF l[1] = 6 /\ r[1] = 6 THEN B(l[2] = r[2])
  ELSE IF l[1] = 0 \/ r[1] = 0 THEN B(l[1] = 0 /\ r[1] = 0)
  ELSE IF IsNum(l) /\ IsNum(r) THEN B(FEq(AsF(l), AsF(r)))
  ELSE Open

BinOp(op, l, r) ==
  CASE op = "add" -> OpAdd(l, r)
    [] op = "sub" -> OpSub(l, r)
    [] op = "mul" -> OpMul(l, r)
    [] op = "div" -> OpDiv(l, r)
    [] op = "mod" -> OpMod(l, r)
    [] op = "and" -> B(Truth(l) /\ Truth(r))
    [] op = "or"  -> B(Truth(l) \/ Truth(r))
    [] op = "lt"  -> Compare(l, r, ILt, FLt)
    [] op = "gt"  -> Compare(l, r, IGt, FGt)
    [] op = "leq" -> Compare(l, r, ILe, FLe)
    [] op = "geq" -> Compare(l, r, IGe, FGe)
    [] op = "eq"  -> OpEq(l, r)

UnOp(op, v) ==
  CASE op = "not" -> B(~Truth(v))
    [] op = "neg" -> IF IsInt(v) THEN Val(I(Neg32(v[2])))
                     ELSE IF IsFlt(v) THEN Val(FNegC(v))
                     ELSE Err(EType)
=============================================================================
