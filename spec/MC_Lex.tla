------------------------------- MODULE MC_Lex -------------------------------
(* All short program texts over a set of characters, as far as they can be
   continued to a program, and one character further.

   TLC compares the scanner of EelLex with the definition of the words of the
   language by shape, and prints every text for replay on the library.        *)
EXTENDS EelLex, EelParse

CONSTANTS Group, MaxLen

VARIABLES text, open       \* open: whether text can be continued

Chars ==
  CASE Group = "number"  -> <<49, 48, 46, 101, 69, 43, 45, 97>>                \* 1 0 . e E + - a
    [] Group = "dollar"  -> <<36, 120, 70, 57, 39, 112, 105, 101, 32>>         \* $ x F 9 ' p i e blank
    [] Group = "golden"  -> <<36, 112, 80, 104, 105, 73>>                      \* $ p P h i I
    [] Group = "comment" -> <<47, 42, 10, 97, 32, 59>>                         \* / * newline a blank ;
    [] Group = "op"      -> <<61, 43, 45, 124, 38, 60, 33, 97>>                \* = + - | & < ! a
    [] Group = "op2"     -> <<61, 42, 47, 37, 94, 62, 33, 97>>                 \* = * / % ^ > ! a
    [] Group = "name"    -> <<97, 95, 49, 66, 40, 41, 61>>                     \* a _ 1 B ( ) =
    [] Group = "byte"    -> <<97, 32, 9, 11, 12, 13, 1, 96, 200, 59, 34, 92>>  \* other bytes

(* ---- the words, by shape ---- *)
All(w, P(_)) == \A i \in 1..Len(w) : P(w[i])
Cut(w, i, j) == SubSeq(w, i, j)
Digits(w) == w # <<>> /\ All(w, IsDigit)
Mantissa(w) == Digits(w) \/ \E i \in 1..Len(w) : /\ w[i] = 46
                                                 /\ All(Cut(w, 1, i - 1), IsDigit) /\ All(Cut(w, i + 1, Len(w)), IsDigit)
                                                 /\ Len(w) > 1                       \* a digit on at least one side
Exponent(w) == /\ Len(w) >= 2 /\ w[1] \in {69, 101}
               /\ Digits(Cut(w, IF w[2] \in {43, 45} THEN 3 ELSE 2, Len(w)))
Decimal(w) == Mantissa(w) \/ \E i \in 2..Len(w) : Mantissa(Cut(w, 1, i - 1)) /\ Exponent(Cut(w, i, Len(w)))
Hexadecimal(w) == Len(w) >= 3 /\ w[1] = 36 /\ w[2] \in {88, 120} /\ All(Cut(w, 3, Len(w)), IsHex)
Character(w) == Len(w) = 4 /\ w[1] = 36 /\ w[2] = 39 /\ w[3] # NL /\ w[4] = 39
Named(w) == Len(w) > 1 /\ w[1] = 36 /\ LowSeq(Cut(w, 2, Len(w))) \in {<<101>>, <<112, 105>>, <<112, 104, 105>>}
Name(w) == w # <<>> /\ ~IsDigit(w[1]) /\ All(w, IsNameC)
Operator(w) == (Len(w) = 2 /\ w \in Ops2) \/ (Len(w) = 1 /\ w[1] \in Ops1)
Word(w) == Decimal(w) \/ Hexadecimal(w) \/ Character(w) \/ Named(w) \/ Name(w) \/ Operator(w)

Kind(w) == CASE Decimal(w) \/ Hexadecimal(w) \/ Character(w) \/ Named(w) -> {"NUM"}
             [] Name(w) -> {"VAR", "FUNC", "GMEM"}
             [] Operator(w) -> {CodesToStr(w)}
             [] OTHER -> {"BAD"}

(* position of the first character of line ln *)
RECURSIVE LineStart(_, _, _)
LineStart(s, ln, p) == IF ln = 1 THEN p ELSE LineStart(s, IF s[p] = NL THEN ln - 1 ELSE ln, p + 1)

(* tokens are the longest words, or single characters which start no word; between them is nothing but white space and
   comments *)
RECURSIVE Gap(_, _, _)
Gap(s, p, q) ==       \* s[p..q] is skipped
  \/ p > q
  \/ (IsBlank(s[p]) \/ s[p] = NL) /\ Gap(s, p + 1, q)
  \/ /\ s[p] = 47 /\ p < q /\ s[p + 1] = 42
     /\ LET ends == {i \in p + 3..Len(s) : s[i - 1] = 42 /\ s[i] = 47} IN
        IF ends = {} THEN q = Len(s) ELSE LET e == CHOOSE e \in ends : \A f \in ends : e <= f IN e <= q /\ Gap(s, e + 1, q)
  \/ /\ s[p] = 47 /\ p < q /\ s[p + 1] = 47
     /\ LET ends == {i \in p + 2..Len(s) : s[i] = NL} IN
        IF ends = {} THEN q = Len(s) ELSE LET e == CHOOSE e \in ends : \A f \in ends : e <= f IN e <= q /\ Gap(s, e, q)
Scanned(s, ts) ==
  LET n == Len(ts) - 1
      first == [i \in 1..n |-> LineStart(s, ts[i].ln, 1) + ts[i].c]
      last == [i \in 1..n |-> LineStart(s, ts[i].ln, 1) + ts[i].e - 1]
  IN /\ ts[n + 1].k = "EOF"
     /\ \A i \in 1..n : LET w == Cut(s, first[i], last[i]) IN
          /\ ts[i].k \in Kind(w)
          /\ IF ts[i].k = "BAD" THEN Len(w) = 1 ELSE Word(w)
          /\ \A j \in last[i] + 1..Len(s) : ~Word(Cut(s, first[i], j))
          /\ Gap(s, IF i = 1 THEN 1 ELSE last[i - 1] + 1, first[i] - 1)
          /\ ~Gap(s, first[i], Len(s)) \/ Word(w)
     /\ Gap(s, IF n = 0 THEN 1 ELSE last[n] + 1, Len(s))

Init == text = <<>> /\ open = TRUE
(* an error before the last token cannot be mended by more characters *)
Alive(s) == \E t \in {Lex(s)} : \E p \in {Parse(t)} : p.ok \/ p.ep >= Len(t) - 1
Next == /\ open /\ Len(text) < MaxLen
        /\ \E i \in 1..Len(Chars) : text' = Append(text, Chars[i])
        /\ open' = Alive(text')
Spec == Init /\ [][Next]_<<text, open>>

RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN CodesToStr(<<48 + n>>) ELSE Dec(n \div 10) \o CodesToStr(<<48 + (n % 10)>>)
RECURSIVE Bytes(_, _)
Bytes(s, i) == IF i > Len(s) THEN "" ELSE Dec(s[i]) \o " " \o Bytes(s, i + 1)
Laws == \E t \in {Lex(text)} : Scanned(text, t) /\ PrintT("C" \o (IF Parse(t).ok THEN "1 " ELSE "0 ") \o Bytes(text, 1))
=============================================================================
