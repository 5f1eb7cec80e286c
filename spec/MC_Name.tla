------------------------------- MODULE MC_Name -------------------------------
(* All short names, and all names which differ by a few edits (a character
   inserted, removed, replaced, or exchanged with its neighbour) from the name of
   a register or of a function.

   TLC compares what the scanner makes of a name, and the place it denotes, with
   their definition by shape, and prints every name for replay: different names
   are different variables of one context, however they are spelled.          *)
EXTENDS EelApi, TLC

CONSTANTS Group,     \* "short", "register", "function"
          Depth,     \* characters, or edits
          Digits,    \* of registers
          Others     \* characters which replace others

VARIABLES name, depth

(* by shape *)
IsName(w) == w # <<>> /\ ~IsDigit(w[1]) /\ \A i \in 1..Len(w) : IsNameC(w[i])
IsRegister(w) == /\ Len(w) = 5
                 /\ w[1] \in {114, 82} /\ w[2] \in {101, 69} /\ w[3] \in {103, 71}
                 /\ w[4] \in 48..57 /\ w[5] \in 48..57
Calls == {StrToCodes(FuncTable[i][1]) : i \in 1..Len(FuncTable)}
GMem == StrToCodes("gmem")

(* ---- the names ---- *)
Bases ==
  CASE Group = "short" -> {<<>>}
    [] Group = "register" -> {<<114, 101, 103, x, y>> : x \in Digits, y \in Digits}
    [] Group = "function" -> Calls \cup {GMem}

Insert(w, i, c) == SubSeq(w, 1, i) \o <<c>> \o SubSeq(w, i + 1, Len(w))
Remove(w, i) == SubSeq(w, 1, i - 1) \o SubSeq(w, i + 1, Len(w))
Swap(w, i) == [w EXCEPT ![i] = w[i + 1], ![i + 1] = w[i]]
Chars(w) == Others \cup {w[i] : i \in 1..Len(w)}
Edits(w) ==
  {Insert(w, i, c) : i \in 0..Len(w), c \in Chars(w)} \cup
  {Remove(w, i) : i \in 1..Len(w)} \cup
  {[w EXCEPT ![i] = c] : i \in 1..Len(w), c \in Chars(w)} \cup
  {Swap(w, i) : i \in 1..(Len(w) - 1)}
Longer(w) == {Append(w, c) : c \in 97..122 \cup 48..57 \cup {95}}

Fixed == /\ ctx = (1 :> [g |-> <<"g", 0>>, r |-> 0, err |-> NoError])
         /\ code = Empty /\ store = EmptyStore /\ bufs = {} /\ glob = 0 /\ gens = 0 /\ reply = <<>>

Init == Fixed /\ name \in Bases /\ depth = 0
Next == /\ depth < Depth
        /\ \E w \in IF Group = "short" THEN Longer(name) ELSE Edits(name) : IsName(w) /\ name' = w
        /\ depth' = depth + 1
        /\ UNCHANGED api
Spec == Init /\ [][Next]_<<name, depth, api>>
View == name

(* ---- laws ---- *)
Upper(w) == [i \in 1..Len(w) |-> IF IsLower(w[i]) THEN w[i] - 32 ELSE w[i]]
Mixed(w) == [i \in 1..Len(w) |-> IF IsLower(w[i]) /\ i % 2 = 1 THEN w[i] - 32 ELSE w[i]]
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN CodesToStr(<<48 + n>>) ELSE Dec(n \div 10) \o CodesToStr(<<48 + (n % 10)>>)

Means(w, t) ==       \* t: the tokens of w, a spelling of name
  /\ Len(t) = 2 /\ t[2].k = "EOF"
  /\ t[1].k = (IF name = GMem THEN "GMEM" ELSE IF name \in Calls THEN "FUNC" ELSE "VAR")
  /\ t[1].k = "VAR" => \E k \in {Key(1, t[1].v)} :
       /\ (k[1] = RegOwner(0)) = IsRegister(w)
       /\ (k[1] = 1) = ~IsRegister(w)
       /\ k[2] = CodesToStr(name)                        \* different names, different places
       /\ IsRegister(w) => RegIndex[k[2]] = 10 * (w[4] - 48) + (w[5] - 48)
Laws == name = <<>> \/
  /\ \A w \in {name, Upper(name), Mixed(name)} : \E t \in {Lex(w)} : Means(w, t)
  /\ PrintT("N" \o CodesToStr(name))
=============================================================================
