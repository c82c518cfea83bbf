------------------------------ MODULE NanoHost ------------------------------
(* The functions a script can call in the host: the built-in library and    *)
(* the functions of the test host, in registration order.  n is the number  *)
(* of arguments, -1 for any number.                                          *)
EXTENDS NanoValues

BuiltinTab == <<
  [name |-> <<97, 98, 115>>, n |-> 1, f |-> "abs"],
  [name |-> <<109, 105, 110>>, n |-> 2, f |-> "min"],
  [name |-> <<109, 97, 120>>, n |-> 2, f |-> "max"],
  [name |-> <<98, 105, 116, 97, 110, 100>>, n |-> 2, f |-> "bitand"],
  [name |-> <<115, 105, 110>>, n |-> 1, f |-> "sin"],
  [name |-> <<99, 111, 115>>, n |-> 1, f |-> "cos"],
  [name |-> <<116, 97, 110>>, n |-> 1, f |-> "tan"],
  [name |-> <<108, 101, 110>>, n |-> 1, f |-> "len"],
  [name |-> <<99, 104, 114>>, n |-> 1, f |-> "chr"],
  [name |-> <<114, 111, 117, 110, 100>>, n |-> 1, f |-> "round"],
  [name |-> <<99, 101, 105, 108>>, n |-> 1, f |-> "ceil"],
  [name |-> <<102, 108, 111, 111, 114>>, n |-> 1, f |-> "floor"],
  [name |-> <<115, 113, 114, 116>>, n |-> 1, f |-> "sqrt"],
  [name |-> <<110, 101, 119, 95, 116, 104, 114, 101, 97, 100>>, n |-> -1, f |-> "new_thread"],
  [name |-> <<119, 97, 105, 116>>, n |-> 1, f |-> "wait"],
  [name |-> <<110, 101, 119, 95, 97, 114, 114, 97, 121>>, n |-> 1, f |-> "new_array"]
>>
\* of the test host
TestTab == <<
  [name |-> <<111, 117, 116>>, n |-> 1, f |-> "out"],
  [name |-> <<101, 109, 105, 116>>, n |-> -1, f |-> "emit"],
  [name |-> <<105, 100>>, n |-> 1, f |-> "id"],
  [name |-> <<109, 107>>, n |-> 1, f |-> "mk"],
  [name |-> <<102, 97, 105, 108>>, n |-> 1, f |-> "fail"],
  [name |-> <<104, 97, 108, 116>>, n |-> 0, f |-> "halt"],
  [name |-> <<118, 97, 114, 115>>, n |-> 0, f |-> "vars"],
  [name |-> <<103, 101, 116>>, n |-> 1, f |-> "get"],
  [name |-> <<106, 117, 110, 107>>, n |-> 1, f |-> "junk"],
  [name |-> <<110, 111, 114, 101, 115>>, n |-> 1, f |-> "nores"],
  [name |-> <<110, 101, 115, 116>>, n |-> -1, f |-> "nest"]
>>
\* of the command line driver
CliTab == BuiltinTab \o <<
  [name |-> <<112, 117, 116, 99>>, n |-> 1, f |-> "putc"],
  [name |-> <<103, 101, 116, 99>>, n |-> 0, f |-> "getc"],
  [name |-> <<112, 117, 116, 115>>, n |-> 1, f |-> "puts"],
  [name |-> <<103, 101, 116, 115>>, n |-> 0, f |-> "gets"],
  [name |-> <<114, 97, 110, 100>>, n |-> 0, f |-> "rand"],
  [name |-> <<112, 114, 105, 110, 116>>, n |-> 1, f |-> "puts"]
>>
\* of the driver with a screen
ScreenTab == BuiltinTab \o <<
  [name |-> <<99, 108, 115>>, n |-> 0, f |-> "s_cls"],
  [name |-> <<114, 97, 110, 100>>, n |-> 0, f |-> "s_rand"],
  [name |-> <<118, 105, 100, 101, 111>>, n |-> 2, f |-> "s_video"],
  [name |-> <<112, 108, 111, 116>>, n |-> 2, f |-> "s_plot"],
  [name |-> <<102, 108, 105, 112>>, n |-> 0, f |-> "s_flip"],
  [name |-> <<115, 101, 116, 114, 103, 98>>, n |-> 3, f |-> "s_setrgb"],
  [name |-> <<99, 105, 114, 99, 108, 101>>, n |-> 3, f |-> "s_circle"],
  [name |-> <<108, 105, 110, 101>>, n |-> 4, f |-> "s_line"],
  [name |-> <<115, 108, 101, 101, 112>>, n |-> 1, f |-> "s_sleep"],
  [name |-> <<107, 101, 121, 100, 111, 119, 110>>, n |-> 1, f |-> "s_keydown"]
>>
KeyNames == <<<<117, 112>>, <<100, 111, 119, 110>>, <<108, 101, 102, 116>>, <<114, 105, 103, 104, 116>>, <<101, 115, 99, 97, 112, 101>>, <<115, 112, 97, 99, 101>>>>
\* of the command line compiler
NoTab == <<>>
\* a test host with many functions, whose names begin with or look like those of others
WideN == 320
WideFirst == Len(BuiltinTab) + Len(TestTab) + 1
WideTab == BuiltinTab \o TestTab \o
  [j \in 1..WideN |-> LET i == j - 1 IN
     [name |-> <<IF i % 2 = 1 THEN 87 ELSE 119>> \o Digits((WideN - 1 - i) \div 2),
      n |-> IF i % 7 = 0 THEN -1 ELSE i % 3, f |-> "wide"]]
SysTab == BuiltinTab \o TestTab     \* replaced in the models of the command line programs

SysVars == 23    \* vars()

(* Name codes used by the rules *)
TxtLength == <<108, 101, 110, 103, 116, 104>>
TxtInit == <<64, 105, 110, 105, 116>>
TxtHs == <<104, 115>>
TxtE == <<101>>

(* Handler bits of a host configuration *)
HAdd == 1
HSub == 2
HMul == 4
HDiv == 8
HEq == 16
HAGet == 32
HASet == 64
HMGet == 128
HMSet == 256
HErr == 512
HFin == 1024
HasBit(x, b) == ((x \div b) % 2) = 1
=============================================================================
