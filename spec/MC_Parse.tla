------------------------------ MODULE MC_Parse ------------------------------
(* All token strings up to a length over a vocabulary, as far as they can be
   continued to a program, and one token further.

   TLC compares the deterministic parser of EelParse with the ambiguous grammar,
   written down as the least set of derivable spans, and prints every string for
   replay on the library.                                                     *)
EXTENDS EelLex, EelParse

CONSTANTS Group, MaxLen

VARIABLES toks, open       \* open: whether toks can be continued

(* vocabulary entries are token texts *)
T(s) == s
Vocab ==
  CASE Group = "calls" -> << <<97>>, <<40>>, <<41>>, <<44>>, <<59>>, <<97, 98, 115>>, <<109, 97, 120>>, <<105, 102>> >>           \* a ( ) , ; abs max if
    [] Group = "index" -> << <<97>>, <<91>>, <<93>>, <<40>>, <<41>>, <<43>>, <<103, 109, 101, 109>>, <<59>>, <<45>> >>            \* a [ ] ( ) + gmem ; -
    [] Group = "cond"  -> << <<97>>, <<63>>, <<58>>, <<61>>, <<40>>, <<41>>, <<59>>, <<38, 38>>, <<33>> >>                       \* a ? : = ( ) ; && !
    [] Group = "mixed" -> << <<97>>, <<49>>, <<40>>, <<41>>, <<44>>, <<59>>, <<91>>, <<93>>, <<63>>, <<58>>, <<61>>, <<43>>, <<45>>, <<33>>, <<42>>,
                             <<97, 98, 115>>, <<109, 97, 120>>, <<103, 109, 101, 109>>, <<43, 61>>, <<35>> >>                    \* ... # no token
    [] Group = "signs" -> << <<97>>, <<43>>, <<45>>, <<33>>, <<61>>, <<94>>, <<37>>, <<43, 61>>, <<61, 61>>, <<33, 61>> >>       \* a + - ! = ^ % += == !=

Tokens == [i \in 1..Len(Vocab) |-> Lex(Vocab[i])[1]]
Eof == [k |-> "EOF", v |-> <<>>, ln |-> 1, c |-> 0, e |-> 0]
Seen(ts) == [i \in 1..Len(ts) |-> Tokens[ts[i]]]

-----------------------------------------------------------------------------
(* The grammar.  Spans are <<symbol, first, last>> for "E" expression and "L" list, and <<"A", first, last, count>> for
   argument lists. *)
K(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i].k ELSE "none"
Bins == {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "||", "&&", "|", "&", "==", "!=", ">", ">=", "<", "<=", "-", "+", "*", "/", "%", "^"}
Spans(x, s) == {p \in x : p[1] = s}
Derive(t, x) ==
  LET es == Spans(x, "E")
      ls == Spans(x, "L")
      as == Spans(x, "A")
      n == Len(t)
  IN x
     \cup {<<"E", i, i>> : i \in {i \in 1..n : t[i].k \in {"NUM", "VAR"}}}
     \cup {<<"E", i, i + 2>> : i \in {i \in 1..n : t[i].k = "GMEM" /\ K(t, i + 1) = "[" /\ K(t, i + 2) = "]"}}
     \cup {<<"E", e[2] - 2, e[3] + 1>> : e \in {e \in es : K(t, e[2] - 2) = "GMEM" /\ K(t, e[2] - 1) = "[" /\ K(t, e[3] + 1) = "]"}}
     \cup {<<"E", e[2], e[3] + 2>> : e \in {e \in es : K(t, e[3] + 1) = "[" /\ K(t, e[3] + 2) = "]"}}
     \cup {<<"E", p[1][2], p[2][3] + 1>> : p \in {p \in es \X es : p[2][2] = p[1][3] + 2 /\ K(t, p[1][3] + 1) = "[" /\ K(t, p[2][3] + 1) = "]"}}
     \cup {<<"E", p[1][2], p[2][3]>> : p \in {p \in es \X es : p[2][2] = p[1][3] + 2 /\ K(t, p[1][3] + 1) \in Bins}}
     \cup UNION {{<<"E", p[1][2], e[3]>> : e \in {e \in es : e[2] = p[2][3] + 2}} :
                   p \in {p \in es \X es : p[2][2] = p[1][3] + 2 /\ K(t, p[1][3] + 1) = "?" /\ K(t, p[2][3] + 1) = ":"}}
     \cup {<<"E", e[2] - 1, e[3]>> : e \in {e \in es : K(t, e[2] - 1) \in {"-", "+", "!"}}}
     \cup {<<"E", l[2] - 1, l[3] + 1>> : l \in {l \in ls : K(t, l[2] - 1) = "(" /\ K(t, l[3] + 1) = ")"}}
     \cup {<<"E", a[2] - 2, a[3] + 1>> : a \in {a \in as : /\ K(t, a[2] - 2) = "FUNC" /\ K(t, a[2] - 1) = "(" /\ K(t, a[3] + 1) = ")"
                                                           /\ FuncArity[t[a[2] - 2].v] = a[4]}}
     \cup {<<"L", e[2], e[3]>> : e \in es}
     \cup {<<"L", p[1][2], p[2][3]>> : p \in {p \in ls \X es : p[2][2] = p[1][3] + 2 /\ K(t, p[1][3] + 1) = ";"}}
     \cup {<<"L", l[2], l[3] + 1>> : l \in {l \in ls : K(t, l[3] + 1) = ";"}}
     \cup {<<"L", l[2], l[3] + 3>> : l \in {l \in ls : K(t, l[3] + 1) = ";" /\ K(t, l[3] + 2) = "(" /\ K(t, l[3] + 3) = ")"}}
     \cup {<<"A", l[2], l[3], 1>> : l \in ls}
     \cup {<<"A", p[1][2], p[2][3], p[1][4] + 1>> : p \in {p \in as \X ls : p[2][2] = p[1][3] + 2 /\ K(t, p[1][3] + 1) = ","}}
RECURSIVE Closure(_, _)
Closure(t, x) == LET y == Derive(t, x) IN IF y = x THEN x ELSE Closure(t, y)

(* The tokens i..n can be continued to an expression, list or argument list. *)
RECURSIVE BegE(_, _, _, _), BegL(_, _, _, _), BegA(_, _, _, _)
BegE(t, x, i, n) ==
  \/ i > n \/ <<"E", i, n>> \in x
  \/ K(t, i) \in {"-", "+", "!"} /\ BegE(t, x, i + 1, n)
  \/ K(t, i) = "(" /\ BegL(t, x, i + 1, n)
  \/ K(t, i) = "FUNC" /\ (i = n \/ (K(t, i + 1) = "(" /\ BegA(t, x, i + 2, n)))
  \/ K(t, i) = "GMEM" /\ (i = n \/ (K(t, i + 1) = "[" /\ BegE(t, x, i + 2, n)))
  \/ \E e \in x : /\ e[1] = "E" /\ e[2] = i /\ e[3] < n
                  /\ LET j == e[3] + 1 IN
                     \/ K(t, j) \in Bins \cup {"[", "?"} /\ BegE(t, x, j + 1, n)
                     \/ K(t, j) = "?" /\ \E m \in x : m[1] = "E" /\ m[2] = j + 1 /\ m[3] < n /\ K(t, m[3] + 1) = ":" /\ BegE(t, x, m[3] + 2, n)
BegL(t, x, i, n) ==
  \/ BegE(t, x, i, n)
  \/ \E l \in x : l[1] = "L" /\ l[2] = i /\ l[3] <= n /\ (l[3] = n \/ (K(t, l[3] + 1) = ";" /\ BegE(t, x, l[3] + 2, n)))
BegA(t, x, i, n) ==
  \/ BegL(t, x, i, n)
  \/ \E a \in x : a[1] = "A" /\ a[2] = i /\ a[3] < n /\ K(t, a[3] + 1) = "," /\ BegL(t, x, a[3] + 2, n)

(* the first two steps of the comparison: acceptance and the position of the error *)
Agrees(t, x, p) ==
  LET n == Len(t) IN
  IF p.ok THEN n = 0 \/ <<"L", 1, n>> \in x
  ELSE /\ ~(n = 0 \/ <<"L", 1, n>> \in x)
       /\ IF p.why = "syntax"
          THEN BegL(t, x, 1, p.ep - 1) /\ (p.ep <= n => ~BegL(t, x, 1, p.ep))
          ELSE /\ t[p.ep].k = "FUNC" /\ BegL(t, x, 1, p.ep)
               /\ \E a \in x : a[1] = "A" /\ a[2] = p.ep + 2 /\ K(t, a[3] + 1) = ")" /\ a[4] # FuncArity[t[p.ep].v]

(* the tokens, separated by spaces, are read as these tokens, at the right places *)
RECURSIVE Spaced(_, _)
Spaced(ts, i) == IF i > Len(ts) THEN <<>> ELSE Vocab[ts[i]] \o <<32>> \o Spaced(ts, i + 1)
RECURSIVE Columns(_, _, _)
Columns(ts, i, c) == IF i > Len(ts) THEN <<>> ELSE <<c>> \o Columns(ts, i + 1, c + Len(Vocab[ts[i]]) + 1)
Reads(ts) == \E r \in {Lex(Spaced(ts, 1))} : \E cs \in {Columns(ts, 1, 0)} :
               /\ Len(r) = Len(ts) + 1 /\ r[Len(r)].k = "EOF"
               /\ \A i \in 1..Len(ts) : /\ r[i].k = Tokens[ts[i]].k /\ r[i].v = Tokens[ts[i]].v
                                        /\ r[i].ln = 1 /\ r[i].c = cs[i] /\ r[i].e = cs[i] + Len(Vocab[ts[i]])

Outcome(ts) == Parse(Append(Seen(ts), Eof))
Init == toks = <<>> /\ open = TRUE
Next == /\ open /\ Len(toks) < MaxLen
        /\ \E i \in 1..Len(Vocab) : toks' = Append(toks, i)
        /\ open' = (LET p == Outcome(toks') IN p.ok \/ p.ep > Len(toks'))
Spec == Init /\ [][Next]_<<toks, open>>

Laws == \E t \in {Seen(toks)} : \E x \in {Closure(t, {})} : \E p \in {Outcome(toks)} :
          /\ Agrees(t, x, p)
          /\ Reads(toks)
          /\ PrintT("S" \o (IF p.ok THEN "1" ELSE "0") \o (IF open THEN "1 " ELSE "0 ") \o CodesToStr(Spaced(toks, 1)))
=============================================================================
