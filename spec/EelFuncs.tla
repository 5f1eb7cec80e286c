------------------------------ MODULE EelFuncs ------------------------------
(* The built-in functions: spelled name, number of arguments, meaning.
   Several names can have the same meaning; the meaning is what EelExec
   interprets.                                                               *)
EXTENDS Integers, Sequences, FiniteSets

FuncTable == <<
  <<"if", 3, "if">>, <<"_if", 3, "if">>, <<"_and", 2, "andalso">>, <<"_or", 2, "orelse">>,
  <<"loop", 2, "loop">>, <<"while", 1, "while">>,
  <<"_not", 1, "not">>, <<"bnot", 1, "not">>,
  <<"_equal", 2, "eq">>, <<"equal", 2, "eq">>, <<"_noteq", 2, "ne">>,
  <<"_below", 2, "lt">>, <<"below", 2, "lt">>, <<"_above", 2, "gt">>, <<"above", 2, "gt">>,
  <<"_beleq", 2, "le">>, <<"_aboeq", 2, "ge">>,
  <<"_set", 2, "set">>, <<"assign", 2, "set">>,
  <<"_add", 2, "add">>, <<"_sub", 2, "sub">>, <<"_mul", 2, "mul">>, <<"_div", 2, "div">>, <<"_mod", 2, "mod">>,
  <<"_addop", 2, "add=">>, <<"_subop", 2, "sub=">>, <<"_mulop", 2, "mul=">>, <<"_divop", 2, "div=">>,
  <<"_modop", 2, "mod=">>, <<"_orop", 2, "or=">>, <<"_andop", 2, "and=">>, <<"_powop", 2, "pow=">>,
  <<"sin", 1, "sin">>, <<"cos", 1, "cos">>, <<"tan", 1, "tan">>, <<"asin", 1, "asin">>, <<"acos", 1, "acos">>,
  <<"atan", 1, "atan">>, <<"atan2", 2, "atan2">>, <<"sqr", 1, "sqr">>, <<"sqrt", 1, "sqrt">>,
  <<"pow", 2, "pow">>, <<"exp", 1, "exp">>, <<"_neg", 1, "neg">>, <<"log", 1, "log">>, <<"log10", 1, "log10">>,
  <<"abs", 1, "abs">>, <<"min", 2, "min">>, <<"max", 2, "max">>, <<"sign", 1, "sign">>, <<"rand", 1, "rand">>,
  <<"floor", 1, "floor">>, <<"int", 1, "int">>, <<"ceil", 1, "ceil">>, <<"invsqrt", 1, "invsqrt">>,
  <<"sigmoid", 2, "sigmoid">>, <<"band", 2, "band">>, <<"bor", 2, "bor">>,
  <<"exec2", 2, "exec2">>, <<"exec3", 3, "exec3">>,
  <<"_mem", 1, "mem">>, <<"megabuf", 1, "mem">>, <<"_gmem", 1, "gmem">>, <<"gmegabuf", 1, "gmem">>,
  <<"freembuf", 1, "freembuf">>, <<"memcpy", 3, "memcpy">>, <<"memset", 3, "memset">> >>

FuncNames == {FuncTable[i][1] : i \in 1..Len(FuncTable)}
FuncIndex == [n \in FuncNames |-> CHOOSE i \in 1..Len(FuncTable) : FuncTable[i][1] = n]
FuncArity == [n \in FuncNames |-> FuncTable[FuncIndex[n]][2]]
FuncMeaning == [n \in FuncNames |-> FuncTable[FuncIndex[n]][3]]
=============================================================================
