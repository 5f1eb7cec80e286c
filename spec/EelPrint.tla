------------------------------ MODULE EelPrint ------------------------------
(* Program texts of trees: the inverse of EelParse, in several styles.

   "min"    operators, with as few parentheses as the precedences allow
   "full"   operators, everything in parentheses
   "call"   functions instead of operators where there is one
   "other"  the same with the last spelling instead of the first

   A printed program is a sequence of tokens [k, v, x] with x the text.        *)
EXTENDS EelParse, EelExec

CONSTANT Numbers        \* sequence of <<text, value>> of the numbers in trees

Tok(k) == <<[k |-> k, v |-> <<>>, x |-> k]>>
NumTok(x) == LET i == CHOOSE i \in 1..Len(Numbers) : Numbers[i][2] = x IN <<[k |-> "NUM", v |-> x, x |-> Numbers[i][1]]>>
OpOf == [m \in {OpMeaning[o] : o \in BinOps} |-> CHOOSE o \in BinOps : OpMeaning[o] = m]
NamesOf(m) == {i \in 1..Len(FuncTable) : FuncTable[i][3] = m}
Meanings == {FuncTable[i][3] : i \in 1..Len(FuncTable)}
FirstName == [m \in Meanings |-> FuncTable[CHOOSE i \in NamesOf(m) : \A j \in NamesOf(m) : i <= j][1]]
LastName == [m \in Meanings |-> FuncTable[CHOOSE i \in NamesOf(m) : \A j \in NamesOf(m) : i >= j][1]]

(* how tight the outermost operator of the printed tree binds *)
PrecOf(t) ==
  IF t[1] = "l" THEN 1
  ELSE IF t[1] # "c" THEN 21
  ELSE CASE t[2] \in DOMAIN OpOf -> Prec[OpOf[t[2]]]
         [] t[2] = "if" -> PrecTernary
         [] t[2] = "neg" -> PrecSign
         [] t[2] = "not" -> PrecNot
         [] OTHER -> 21

RECURSIVE Show(_, _), Sep(_, _, _, _)
Par(s) == Tok("(") \o s \o Tok(")")
(* operand which has to bind at least as tight as min; top-level texts and arguments are only lists if min = 1 *)
Opd(t, st, min) ==
  IF st = "min" THEN IF PrecOf(t) >= min THEN Show(t, st) ELSE Par(Show(t, st))
  ELSE IF st = "full" THEN Par(Show(t, st))
  ELSE IF PrecOf(t) = 21 \/ (t[1] = "c" /\ t[2] \in Meanings) THEN Show(t, st) ELSE Par(Show(t, st))
Sep(ts, i, sep, st) ==
  IF i > Len(ts) THEN <<>>
  ELSE (IF i > 1 THEN Tok(sep) ELSE <<>>)
       \o (IF sep = "," THEN Show(ts[i], st) ELSE IF ts[i][1] = "l" THEN Par(Show(ts[i], st)) ELSE Show(ts[i], st))
       \o Sep(ts, i + 1, sep, st)
CallText(name, args, st) == <<[k |-> "FUNC", v |-> name, x |-> name]>> \o Tok("(") \o Sep(args, 1, ",", st) \o Tok(")")

Show(t, st) ==
  CASE t[1] = "0" -> <<>>
    [] t[1] = "n" -> NumTok(t[2])
    [] t[1] = "v" -> <<[k |-> "VAR", v |-> t[2], x |-> t[2]]>>
    [] t[1] = "l" -> Sep(t[2], 1, ";", st)
    [] t[1] = "c" ->
       LET m == t[2]
           a == t[3]
           ops == st \in {"min", "full"} \/ m \notin Meanings
       IN CASE ops /\ m \in DOMAIN OpOf ->
                 LET o == OpOf[m]
                     p == Prec[o]
                 IN Opd(a[1], st, IF RightAssoc(o) THEN p + 1 ELSE p) \o Tok(o) \o Opd(a[2], st, IF RightAssoc(o) THEN p ELSE p + 1)
            [] ops /\ m = "if" ->
                 Opd(a[1], st, PrecTernary + 1) \o Tok("?") \o Opd(a[2], st, 2) \o Tok(":") \o Opd(a[3], st, PrecTernary)
            [] ops /\ m = "neg" -> Tok("-") \o Opd(a[1], st, PrecSign)
            [] ops /\ m = "not" -> Tok("!") \o Opd(a[1], st, PrecNot)
            [] st = "min" /\ m = "mem" ->
                 IF a[1][1] = "c" /\ a[1][2] = "add"
                 THEN Opd(a[1][3][1], st, 20) \o Tok("[") \o Opd(a[1][3][2], st, 2) \o Tok("]")
                 ELSE Opd(a[1], st, 20) \o Tok("[") \o Tok("]")
            [] st = "min" /\ m = "gmem" -> <<[k |-> "GMEM", v |-> <<>>, x |-> "gmem"]>> \o Tok("[") \o Opd(a[1], st, 2) \o Tok("]")
            [] OTHER -> CallText(IF st = "other" THEN LastName[m] ELSE FirstName[m], a, st)

RECURSIVE Text(_, _)
Text(toks, i) == IF i > Len(toks) THEN "" ELSE toks[i].x \o Text(toks, i + 1)
Styles == <<"min", "full", "call", "other">>
WithEnd(toks) == Append(toks, [k |-> "EOF", v |-> <<>>, x |-> ""])
=============================================================================
