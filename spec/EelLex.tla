------------------------------- MODULE EelLex -------------------------------
(* The lexical grammar of the expression language.

   Source text is a sequence of byte values (1..255).  Lex(s) is the sequence
   of its tokens, always ended by an "EOF" token.  A token is a record
     k    kind: "NUM", "VAR", "FUNC", "GMEM", "BAD", "EOF" or the operator text
     v    number (F64 pair), lower-case name, or <<>>
     ln   line number, counted from 1
     c    column of the first character, counted from 0
     e    column after the last character
   Longest match; comments and white space separate tokens and vanish.        *)
EXTENDS F64, EelFuncs

NL == 10
IsDigit(c)  == c >= 48 /\ c <= 57
IsUpper(c)  == c >= 65 /\ c <= 90
IsLower(c)  == c >= 97 /\ c <= 122
IsNameC(c)  == IsLower(c) \/ IsUpper(c) \/ c = 95 \/ IsDigit(c)
IsHex(c)    == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
IsBlank(c)  == c \in {32, 13, 9, 11, 12}
Low(c)      == IF IsUpper(c) THEN c + 32 ELSE c
LowSeq(s)   == [i \in 1..Len(s) |-> Low(s[i])]

At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0

RECURSIVE EndName(_, _)
EndName(s, p) == IF IsNameC(At(s, p)) THEN EndName(s, p + 1) ELSE p
RECURSIVE EndDigits(_, _)
EndDigits(s, p) == IF IsDigit(At(s, p)) THEN EndDigits(s, p + 1) ELSE p
RECURSIVE EndHex(_, _)
EndHex(s, p) == IF IsHex(At(s, p)) THEN EndHex(s, p + 1) ELSE p

(* Position after an exponent starting at p, or p if there is none. *)
EndExp(s, p) ==
  IF Low(At(s, p)) # 101 THEN p
  ELSE LET q == IF At(s, p + 1) \in {43, 45} THEN p + 2 ELSE p + 1
           r == EndDigits(s, q)
       IN IF r > q THEN r ELSE p

(* Position after a decimal number starting at p, or p if there is none. *)
EndNum(s, p) ==
  LET a == EndDigits(s, p)
      b == IF At(s, a) = 46 THEN EndDigits(s, a + 1) ELSE a
      isNum == a > p \/ b > a + 1
      q == IF b > a THEN b ELSE a
  IN IF isNum THEN EndExp(s, q) ELSE p

Ops2 == {<<43, 61>>, <<45, 61>>, <<37, 61>>, <<124, 61>>, <<38, 61>>, <<47, 61>>, <<42, 61>>, <<94, 61>>,
         <<61, 61>>, <<60, 61>>, <<62, 61>>, <<33, 61>>, <<124, 124>>, <<38, 38>>}
Ops1 == {60, 62, 43, 45, 42, 47, 37, 94, 38, 124, 33, 61, 40, 41, 91, 93, 63, 58, 44, 59}

MathConst ==   \* spelled name -> value
  [pi |-> FParseDec(<<51,46,49,52,49,53,57,50,54,53,51,53,56,57,55,57,51>>),   \* 3.141592653589793
   e  |-> FParseDec(<<50,46,55,49,56,50,56,49,56,51>>),                         \* 2.71828183
   phi |-> FParseDec(<<49,46,54,49,56,48,51,51,57,57>>)]                        \* 1.61803399

LowStr(s, p, q) == CodesToStr(LowSeq(SubSeq(s, p, q)))

(* The token starting at p (which is neither blank nor a comment): <<kind, value, length>>. *)
TokenAt(s, p) ==
  LET c == s[p]
      n == EndNum(s, p)
  IN CASE n > p -> <<"NUM", FParseDec(SubSeq(s, p, n - 1)), n - p>>
       [] IsNameC(c) /\ n = p ->
            LET q == EndName(s, p)
                nm == LowStr(s, p, q - 1)
            IN IF nm = "gmem" THEN <<"GMEM", <<>>, q - p>>
               ELSE IF nm \in FuncNames THEN <<"FUNC", nm, q - p>>
               ELSE <<"VAR", nm, q - p>>
       [] c = 36 ->   \* $
            IF Low(At(s, p + 1)) = 120 /\ IsHex(At(s, p + 2))
            THEN LET q == EndHex(s, p + 2) IN <<"NUM", FParseHex(SubSeq(s, p + 2, q - 1)), q - p>>
            ELSE IF At(s, p + 1) = 39 /\ At(s, p + 2) \notin {0, NL} /\ At(s, p + 3) = 39
            THEN <<"NUM", FFromInt(At(s, p + 2)), 4>>
            ELSE IF p + 3 <= Len(s) /\ LowStr(s, p + 1, p + 3) = "phi" THEN <<"NUM", MathConst.phi, 4>>
            ELSE IF p + 2 <= Len(s) /\ LowStr(s, p + 1, p + 2) = "pi" THEN <<"NUM", MathConst.pi, 3>>
            ELSE IF Low(At(s, p + 1)) = 101 THEN <<"NUM", MathConst.e, 2>>
            ELSE <<"BAD", <<>>, 1>>
       [] OTHER ->
            IF <<c, At(s, p + 1)>> \in Ops2 THEN <<CodesToStr(<<c, s[p + 1]>>), <<>>, 2>>
            ELSE IF c \in Ops1 THEN <<CodesToStr(<<c>>), <<>>, 1>>
            ELSE <<"BAD", <<>>, 1>>

(* Where a run ends that starts at p.  m = 0: white space, ended by any other character; 1: block comment, ended by
   the position of its "*/"; 2: line comment, ended by the line.  Examines n characters, then twice as many... *)
RunEnds(s, q, m) ==
  CASE m = 0 -> ~(IsBlank(s[q]) \/ s[q] = NL)
    [] m = 1 -> s[q] = 42 /\ At(s, q + 1) = 47
    [] m = 2 -> s[q] = NL

RECURSIVE EndRun(_, _, _, _)
EndRun(s, p, m, n) ==
  IF p > Len(s) THEN Len(s) + 1
  ELSE LET hi == IF p + n - 1 > Len(s) THEN Len(s) ELSE p + n - 1
           found == {q \in p..hi : RunEnds(s, q, m)}
       IN IF found = {} THEN EndRun(s, hi + 1, m, 2 * n)
          ELSE CHOOSE q \in found : \A r \in found : q <= r

(* The position after the last end of a line before q, or ls if there is none since p. *)
RECURSIVE LineBegin(_, _, _, _, _)
LineBegin(s, p, q, ls, n) ==
  IF q <= p THEN ls
  ELSE LET lo == IF q - n < p THEN p ELSE q - n
           found == {i \in lo..(q - 1) : s[i] = NL}
       IN IF found = {} THEN LineBegin(s, p, lo, ls, 2 * n)
          ELSE 1 + (CHOOSE i \in found : \A j \in found : j <= i)

(* ln is the current line, ls the position of the first character of it. *)
RECURSIVE LexFrom(_, _, _, _, _)
LexFrom(s, p, ln, ls, acc) ==
  IF p > Len(s)
  THEN Append(acc, [k |-> "EOF", v |-> <<>>, ln |-> ln, c |-> Len(s) + 1 - ls, e |-> Len(s) + 1 - ls])
  ELSE LET c == s[p]
           \* Continue at q after a run which may contain the ends of lines.
           Beyond(q) == LET r == IF q > Len(s) THEN Len(s) + 1 ELSE q
                        IN LexFrom(s, q, ln + Cardinality({i \in p..(r - 1) : s[i] = NL}), LineBegin(s, p, r, ls, 4), acc)
       IN
    IF IsBlank(c) \/ c = NL THEN Beyond(EndRun(s, p + 1, 0, 4))
    ELSE IF c = 47 /\ At(s, p + 1) = 42 THEN Beyond(EndRun(s, p + 2, 1, 16) + 2)
    ELSE IF c = 47 /\ At(s, p + 1) = 47 THEN Beyond(EndRun(s, p + 2, 2, 16))
    ELSE LET t == TokenAt(s, p)
         IN LexFrom(s, p + t[3], ln, ls,
                    Append(acc, [k |-> t[1], v |-> t[2], ln |-> ln, c |-> p - ls, e |-> p - ls + t[3]]))

Lex(s) == LexFrom(s, 1, 1, 1, <<>>)
=============================================================================
