---------------------------- MODULE NanoMessages ----------------------------
(* What errors are called: the message of each kind of compile error, the   *)
(* names of the tokens in them, and the names of the runtime errors.        *)
(*                                                                          *)
(* An error is <<kind, words...>>; texts are sequences of character codes,   *)
(* 0 standing for the next word.  A message has at most 1023 characters.    *)
EXTENDS Integers, Sequences, SequencesExt

Template(k) ==
  \* cant assign to constant variable '%s'
  CASE k = "cant assign const" -> <<99, 97, 110, 116, 32, 97, 115, 115, 105, 103, 110, 32, 116, 111, 32, 99,
        111, 110, 115, 116, 97, 110, 116, 32, 118, 97, 114, 105, 97, 98, 108, 101, 32, 39, 0, 39>>
  \* too many arguments given to '%s'
    [] k = "too many args" -> <<116, 111, 111, 32, 109, 97, 110, 121, 32, 97, 114, 103, 117, 109, 101, 110,
        116, 115, 32, 103, 105, 118, 101, 110, 32, 116, 111, 32, 39, 0, 39>>
  \* not enough arguments given to '%s'
    [] k = "not enough args" -> <<110, 111, 116, 32, 101, 110, 111, 117, 103, 104, 32, 97, 114, 103, 117,
        109, 101, 110, 116, 115, 32, 103, 105, 118, 101, 110, 32, 116, 111, 32, 39, 0, 39>>
  \* unexpected token '%s'
    [] k = "token" -> <<117, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 116, 111, 107, 101, 110, 32, 39,
        0, 39>>
  \* unexpected token '%s' expecting '%s'
    [] k = "expect" -> <<117, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 116, 111, 107, 101, 110, 32,
        39, 0, 39, 32, 101, 120, 112, 101, 99, 116, 105, 110, 103, 32, 39, 0, 39>>
  \* unable to import '%s'
    [] k = "import" -> <<117, 110, 97, 98, 108, 101, 32, 116, 111, 32, 105, 109, 112, 111, 114, 116, 32, 39,
        0, 39>>
  \* unknown identifier '%s'
    [] k = "unknown identifier" -> <<117, 110, 107, 110, 111, 119, 110, 32, 105, 100, 101, 110, 116, 105,
        102, 105, 101, 114, 32, 39, 0, 39>>
  \* unknown variable '%s'
    [] k = "unknown variable" -> <<117, 110, 107, 110, 111, 119, 110, 32, 118, 97, 114, 105, 97, 98, 108,
        101, 32, 39, 0, 39>>
  \* unknown array '%s'
    [] k = "unknown array" -> <<117, 110, 107, 110, 111, 119, 110, 32, 97, 114, 114, 97, 121, 32, 39, 0, 39>>
  \* expecting literal or identifier, found '%s' instead
    [] k = "literal" -> <<101, 120, 112, 101, 99, 116, 105, 110, 103, 32, 108, 105, 116, 101, 114, 97, 108,
        32, 111, 114, 32, 105, 100, 101, 110, 116, 105, 102, 105, 101, 114, 44, 32, 102, 111, 117, 110, 100,
        32, 39, 0, 39, 32, 105, 110, 115, 116, 101, 97, 100>>
  \* equals expected after operator for compound assignment
    [] k = "equals" -> <<101, 113, 117, 97, 108, 115, 32, 101, 120, 112, 101, 99, 116, 101, 100, 32, 97, 102,
        116, 101, 114, 32, 111, 112, 101, 114, 97, 116, 111, 114, 32, 102, 111, 114, 32, 99, 111, 109, 112,
        111, 117, 110, 100, 32, 97, 115, 115, 105, 103, 110, 109, 101, 110, 116>>
  \* assignment or call expected after '%s'
    [] k = "assign or call" -> <<97, 115, 115, 105, 103, 110, 109, 101, 110, 116, 32, 111, 114, 32, 99, 97,
        108, 108, 32, 101, 120, 112, 101, 99, 116, 101, 100, 32, 97, 102, 116, 101, 114, 32, 39, 0, 39>>
  \* statement expected, but got '%s'
    [] k = "statement" -> <<115, 116, 97, 116, 101, 109, 101, 110, 116, 32, 101, 120, 112, 101, 99, 116, 101,
        100, 44, 32, 98, 117, 116, 32, 103, 111, 116, 32, 39, 0, 39>>
  \* function '%s' already exists
    [] k = "function exists" -> <<102, 117, 110, 99, 116, 105, 111, 110, 32, 39, 0, 39, 32, 97, 108, 114,
        101, 97, 100, 121, 32, 101, 120, 105, 115, 116, 115>>
  \* var '%s' already exists in this scope
    [] k = "var exists" -> <<118, 97, 114, 32, 39, 0, 39, 32, 97, 108, 114, 101, 97, 100, 121, 32, 101, 120,
        105, 115, 116, 115, 32, 105, 110, 32, 116, 104, 105, 115, 32, 115, 99, 111, 112, 101>>
  \* constant divide by zero
    [] k = "divide" -> <<99, 111, 110, 115, 116, 97, 110, 116, 32, 100, 105, 118, 105, 100, 101, 32, 98, 121,
        32, 122, 101, 114, 111>>
  \* constant '%s' must be initalized
    [] k = "no value" -> <<99, 111, 110, 115, 116, 97, 110, 116, 32, 39, 0, 39, 32, 109, 117, 115, 116, 32,
        98, 101, 32, 105, 110, 105, 116, 97, 108, 105, 122, 101, 100>>
  \* error evaluating const expression for '%s'
    [] k = "not constant" -> <<101, 114, 114, 111, 114, 32, 101, 118, 97, 108, 117, 97, 116, 105, 110, 103,
        32, 99, 111, 110, 115, 116, 32, 101, 120, 112, 114, 101, 115, 115, 105, 111, 110, 32, 102, 111, 114,
        32, 39, 0, 39>>
  \* unexpected character '%s' in source
    [] k = "character" -> <<117, 110, 101, 120, 112, 101, 99, 116, 101, 100, 32, 99, 104, 97, 114, 97, 99,
        116, 101, 114, 32, 39, 0, 39, 32, 105, 110, 32, 115, 111, 117, 114, 99, 101>>
  \* string missing closing quote "
    [] k = "quote" -> <<115, 116, 114, 105, 110, 103, 32, 109, 105, 115, 115, 105, 110, 103, 32, 99, 108,
        111, 115, 105, 110, 103, 32, 113, 117, 111, 116, 101, 32, 34>>

TokenName(t) ==
  \* function
  CASE t = "function" -> <<102, 117, 110, 99, 116, 105, 111, 110>>
  \* end
    [] t = "end" -> <<101, 110, 100>>
  \* if
    [] t = "if" -> <<105, 102>>
  \* else
    [] t = "else" -> <<101, 108, 115, 101>>
  \* while
    [] t = "while" -> <<119, 104, 105, 108, 101>>
  \* var
    [] t = "var" -> <<118, 97, 114>>
  \* int
    [] t = "int" -> <<105, 110, 116>>
  \* float
    [] t = "flt" -> <<102, 108, 111, 97, 116>>
  \* for
    [] t = "for" -> <<102, 111, 114>>
  \* to
    [] t = "to" -> <<116, 111>>
  \* identifier
    [] t = "id" -> <<105, 100, 101, 110, 116, 105, 102, 105, 101, 114>>
  \* (
    [] t = "(" -> <<40>>
  \* )
    [] t = ")" -> <<41>>
  \* ,
    [] t = "," -> <<44>>
  \* const
    [] t = "const" -> <<99, 111, 110, 115, 116>>
  \* new line
    [] t = "eol" -> <<110, 101, 119, 32, 108, 105, 110, 101>>
  \* +
    [] t = "add" -> <<43>>
  \* -
    [] t = "sub" -> <<45>>
  \* *
    [] t = "mul" -> <<42>>
  \* /
    [] t = "div" -> <<47>>
  \* %
    [] t = "mod" -> <<37>>
  \* and
    [] t = "and" -> <<97, 110, 100>>
  \* or
    [] t = "or" -> <<111, 114>>
  \* not
    [] t = "not" -> <<110, 111, 116>>
  \* =
    [] t = "=" -> <<61>>
  \* ==
    [] t = "eq" -> <<61, 61>>
  \* <
    [] t = "lt" -> <<60>>
  \* >
    [] t = "gt" -> <<62>>
  \* <=
    [] t = "leq" -> <<60, 61>>
  \* >=
    [] t = "geq" -> <<62, 61>>
  \* return
    [] t = "return" -> <<114, 101, 116, 117, 114, 110>>
  \* end of file
    [] t = "eof" -> <<101, 110, 100, 32, 111, 102, 32, 102, 105, 108, 101>>
  \* [
    [] t = "[" -> <<91>>
  \* ]
    [] t = "]" -> <<93>>
  \* none
    [] t = "none" -> <<110, 111, 110, 101>>
  \* string
    [] t = "str" -> <<115, 116, 114, 105, 110, 103>>
  \* import
    [] t = "import" -> <<105, 109, 112, 111, 114, 116>>
  \* .
    [] t = "." -> <<46>>

\* the runtime errors, from 0
ErrorNames == <<
  \* e_success
  <<101, 95, 115, 117, 99, 99, 101, 115, 115>>,
  \* e_max_cycle_count
  <<101, 95, 109, 97, 120, 95, 99, 121, 99, 108, 101, 95, 99, 111, 117, 110, 116>>,
  \* e_bad_prepare
  <<101, 95, 98, 97, 100, 95, 112, 114, 101, 112, 97, 114, 101>>,
  \* e_bad_getv
  <<101, 95, 98, 97, 100, 95, 103, 101, 116, 118>>,
  \* e_bad_setv
  <<101, 95, 98, 97, 100, 95, 115, 101, 116, 118>>,
  \* e_bad_num_args
  <<101, 95, 98, 97, 100, 95, 110, 117, 109, 95, 97, 114, 103, 115>>,
  \* e_bad_syscall
  <<101, 95, 98, 97, 100, 95, 115, 121, 115, 99, 97, 108, 108>>,
  \* e_bad_opcode
  <<101, 95, 98, 97, 100, 95, 111, 112, 99, 111, 100, 101>>,
  \* e_bad_set_global
  <<101, 95, 98, 97, 100, 95, 115, 101, 116, 95, 103, 108, 111, 98, 97, 108>>,
  \* e_bad_get_global
  <<101, 95, 98, 97, 100, 95, 103, 101, 116, 95, 103, 108, 111, 98, 97, 108>>,
  \* e_bad_pop
  <<101, 95, 98, 97, 100, 95, 112, 111, 112>>,
  \* e_bad_divide_by_zero
  <<101, 95, 98, 97, 100, 95, 100, 105, 118, 105, 100, 101, 95, 98, 121, 95, 122, 101, 114, 111>>,
  \* e_stack_overflow
  <<101, 95, 115, 116, 97, 99, 107, 95, 111, 118, 101, 114, 102, 108, 111, 119>>,
  \* e_stack_underflow
  <<101, 95, 115, 116, 97, 99, 107, 95, 117, 110, 100, 101, 114, 102, 108, 111, 119>>,
  \* e_bad_globals_size
  <<101, 95, 98, 97, 100, 95, 103, 108, 111, 98, 97, 108, 115, 95, 115, 105, 122, 101>>,
  \* e_bad_array_bounds
  <<101, 95, 98, 97, 100, 95, 97, 114, 114, 97, 121, 95, 98, 111, 117, 110, 100, 115>>,
  \* e_bad_array_index
  <<101, 95, 98, 97, 100, 95, 97, 114, 114, 97, 121, 95, 105, 110, 100, 101, 120>>,
  \* e_bad_array_object
  <<101, 95, 98, 97, 100, 95, 97, 114, 114, 97, 121, 95, 111, 98, 106, 101, 99, 116>>,
  \* e_bad_type_operation
  <<101, 95, 98, 97, 100, 95, 116, 121, 112, 101, 95, 111, 112, 101, 114, 97, 116, 105, 111, 110>>,
  \* e_bad_argument
  <<101, 95, 98, 97, 100, 95, 97, 114, 103, 117, 109, 101, 110, 116>>,
  \* e_bad_member_access
  <<101, 95, 98, 97, 100, 95, 109, 101, 109, 98, 101, 114, 95, 97, 99, 99, 101, 115, 115>>>>

Limit(s, n) == IF Len(s) > n THEN SubSeq(s, 1, n) ELSE s

Fill(t, words) ==
  FoldLeft(LAMBDA a, c: IF c = 0 THEN [s |-> a.s \o words[a.w], w |-> a.w + 1]
                        ELSE [a EXCEPT !.s = Append(@, c)], [s |-> <<>>, w |-> 1], t).s

Message(m) == Limit(Fill(Template(m[1]), Tail(m)), 1023)

\* a line of a text, with the end of line that belongs to it
LineText(text, n) ==
  LET z == SelectInSeq(text, LAMBDA c: c = 0)
      src == IF z = 0 THEN text ELSE SubSeq(text, 1, z - 1)
      Ends == SelectSeq([i \in 1..Len(src) |-> i], LAMBDA i: src[i] = 10)
  IN IF n < 1 \/ n > Len(Ends) + 1 THEN <<>>
     ELSE SubSeq(src, (IF n = 1 THEN 0 ELSE Ends[n - 1]) + 1, IF n > Len(Ends) THEN Len(src) ELSE Ends[n])
=============================================================================
