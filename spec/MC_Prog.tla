------------------------------ MODULE MC_Prog -------------------------------
(* All programs up to a size over a vocabulary.  A state is the beginning of a
   tree in prefix notation; need is the number of subtrees still missing.
   In every complete state TLC checks the laws below, and prints the program
   for replay on the library.

   Vocabulary entries are <<kind, name, arity>>: "n" a number (name its index
   in Numbers), "v" a variable, "d" the next distinct variable, "l" a list,
   "c" a function of the given meaning, "m" a whole expression.               *)
EXTENDS EelOpt, EelPrint

CONSTANTS Group, MaxSize

VARIABLES pre, need

NumberTexts == <<<<48>>, <<49>>, <<50>>, <<51>>, <<46, 53>>, <<55>>>>           \* 0 1 2 3 .5 7
NumberTable == [i \in 1..Len(NumberTexts) |-> <<CodesToStr(NumberTexts[i]), FParseDec(NumberTexts[i])>>]

Op2(f, x, y) == <<"c", f, <<x, y>>>>
VA == <<"v", "a">>
VB == <<"v", "b">>
NumAt(i) == <<"n", NumberTable[i][2]>>
Macro == <<Op2("add=", VA, NumAt(2)), Op2("set", VB, Op2("sub", VA, VB)),            \* a+=1   b=a-b
           Op2("sub=", VA, NumAt(2)), Op2("add=", VB, VA)>>                         \* a-=1   b+=a

Leaf(vs, ns) == [i \in 1..Len(vs) |-> <<"v", vs[i], 0>>] \o [i \in 1..Len(ns) |-> <<"n", ns[i], 0>>]
Calls(ms, n) == [i \in 1..Len(ms) |-> <<"c", ms[i], n>>]
Macros(ms) == [i \in 1..Len(ms) |-> <<"m", ms[i], 0>>]
Lists(ns) == [i \in 1..Len(ns) |-> <<"l", "", ns[i]>>]
AB == <<"a", "b">>
Vocab ==
  CASE Group = "ctrl" -> Leaf(AB, <<1, 3>>) \o Calls(<<"set", "sub", "andalso", "orelse">>, 2) \o Calls(<<"if">>, 3) \o Lists(<<2>>)
    [] Group = "list" -> Leaf(<<"a">>, <<2, 4>>) \o Calls(<<"set", "add">>, 2) \o Calls(<<"mem", "abs">>, 1)
                         \o Lists(<<2, 3>>)
    [] Group = "prune" -> Leaf(<<"a">>, <<2>>) \o Macros(<<1, 2>>) \o Calls(<<"abs">>, 1) \o Lists(<<2>>)
    [] Group = "args" -> Leaf(<<"b">>, <<3>>) \o Macros(<<1, 2>>) \o Calls(<<"sub", "exec2">>, 2) \o Calls(<<"if">>, 3) \o Lists(<<2>>)
    [] Group = "down" -> Leaf(<<"b">>, <<1, 4>>) \o Macros(<<3, 4>>) \o Calls(<<"loop", "andalso">>, 2) \o Calls(<<"while">>, 1) \o Lists(<<2>>)
    [] Group = "exec" -> Leaf(AB, <<2>>) \o Calls(<<"set", "exec2">>, 2) \o Calls(<<"exec3", "if">>, 3) \o Lists(<<2, 3>>)
    [] Group = "loop" -> Leaf(AB, <<1, 4>>) \o Calls(<<"set", "sub", "sub=", "loop">>, 2) \o Calls(<<"while">>, 1) \o Lists(<<2>>)
    [] Group = "inc" -> Leaf(AB, <<1, 3, 4>>) \o Calls(<<"add=", "loop", "sub">>, 2) \o Calls(<<"while">>, 1) \o Lists(<<2>>)
    [] Group = "fold" -> Leaf(<<"a">>, <<1, 3, 5>>)
                         \o Calls(<<"neg", "not", "abs", "sqr", "floor", "ceil", "int", "sign", "sqrt">>, 1)
                         \o Calls(<<"add", "sub", "mul", "div", "mod", "and", "or", "pow", "eq", "ne", "lt", "gt", "le", "ge", "min", "max",
                                    "band", "bor", "andalso", "orelse", "exec2", "loop">>, 2)
                         \o Calls(<<"if">>, 3) \o Lists(<<2>>)
    [] Group = "mem" -> Leaf(<<"a">>, <<1, 2, 3>>) \o Calls(<<"mem", "gmem">>, 1) \o Calls(<<"set", "add=", "add">>, 2)
                        \o Calls(<<"memset", "memcpy">>, 3) \o Lists(<<2>>)
    [] Group = "asg" -> Leaf(AB, <<3>>) \o Calls(<<"set", "add=", "sub=", "mul=", "div=", "mod=", "or=", "and=", "pow=">>, 2)
                        \o Calls(<<"mem">>, 1) \o Calls(<<"if">>, 3) \o Lists(<<2>>)
    [] Group = "leak" -> Leaf(AB, <<3>>) \o Calls(<<"set", "add=", "max", "loop", "exec2">>, 2) \o Calls(<<"mem", "abs", "sign", "while">>, 1)
                         \o Calls(<<"if">>, 3) \o Lists(<<2>>)
    [] Group = "ops" -> <<<<"d", "", 0>>>> \o Calls(<<"neg", "not", "mem">>, 1) \o Calls(<<"if">>, 3)
                        \o Calls(<<"set", "add=", "sub=", "mul=", "div=", "mod=", "or=", "and=", "pow=", "add", "sub", "mul", "div", "mod", "and",
                                   "or", "pow", "eq", "ne", "lt", "gt", "le", "ge", "andalso", "orelse">>, 2)
    [] Group = "bool" -> Leaf(AB, <<1, 5>>) \o Calls(<<"not">>, 1)
                         \o Calls(<<"eq", "ne", "lt", "gt", "le", "ge", "band", "bor", "andalso", "orelse">>, 2) \o Calls(<<"if">>, 3)
Distinct == <<"a", "b", "c", "d", "f", "g">>
Vars == {"a", "b", "c", "d", "f", "g"}

Init == pre = <<>> /\ need = 1
Next == /\ need > 0
        /\ \E i \in 1..Len(Vocab) :
             /\ Len(pre) + need + Vocab[i][3] <= MaxSize
             /\ pre' = Append(pre, i) /\ need' = need - 1 + Vocab[i][3]
Spec == Init /\ [][Next]_<<pre, need>>

(* the tree starting at position p, as <<tree, next position, distinct variables used>> *)
RECURSIVE Tree(_, _), Trees(_, _, _, _)
Tree(p, d) ==
  LET w == Vocab[pre[p]] IN
  CASE w[1] = "n" -> <<<<"n", NumberTable[w[2]][2]>>, p + 1, d>>
    [] w[1] = "v" -> <<<<"v", w[2]>>, p + 1, d>>
    [] w[1] = "m" -> <<Macro[w[2]], p + 1, d>>
    [] w[1] = "d" -> <<<<"v", Distinct[d + 1]>>, p + 1, d + 1>>
    [] OTHER -> LET s == Trees(w[3], p + 1, d, <<>>) IN
                <<IF w[1] = "l" THEN <<"l", s[1]>> ELSE <<"c", w[2], s[1]>>, s[2], s[3]>>
Trees(n, p, d, acc) == IF n = 0 THEN <<acc, p, d>> ELSE LET s == Tree(p, d) IN Trees(n - 1, s[2], s[3], Append(acc, s[1]))

-----------------------------------------------------------------------------
I(n) == FFromInt(n)
Frac(n, d) == FDiv(I(n), I(d))
ValuesOf(s) ==
  IF s = 1 THEN [x \in Vars |-> F0]
  ELSE IF s = 2 THEN [x \in Vars |-> CASE x = "a" -> I(3) [] x = "b" -> I(-2) [] x = "c" -> I(2) [] x = "d" -> Frac(5, 2) [] x = "f" -> I(5) [] x = "g" -> I(4)]
  ELSE [x \in Vars |-> CASE x = "a" -> I(1) [] x = "b" -> I(2) [] x = "c" -> I(-1) [] x = "d" -> I(7) [] x = "f" -> I(3) [] x = "g" -> I(-4)]
Start(s) == [NoStore EXCEPT !.v = ValuesOf(s), !.mb = <<"c", 1>>, !.gb = <<"g", 1>>,
               !.m = [b \in {<<"c", 1>>, <<"g", 1>>} |-> EmptyMem]]

Same(x, y) == /\ FSame(Val(x[1], x[2]), Val(y[1], y[2]))
              /\ \A k \in Vars : FSame(x[2].v[k], y[2].v[k])
              /\ x[2].m = y[2].m
(* y does the same as x where that is specified *)
Refines(y, x) == x[2].hz = "" => y[2].hz = "" /\ Same(x, y)

RECURSIVE Expand(_), Refs(_), Targets(_)
(* a OP= b as a = a OP b, where a is a variable *)
Expand(t) ==
  CASE t[1] = "l" -> <<"l", [i \in 1..Len(t[2]) |-> Expand(t[2][i])]>>
    [] t[1] = "c" ->
       LET a == [i \in 1..Len(t[3]) |-> Expand(t[3][i])] IN
       IF t[2] \in Compound /\ a[1][1] = "v" THEN <<"c", "set", <<a[1], <<"c", CompoundOp[t[2]], a>>>>>> ELSE <<"c", t[2], a>>
    [] OTHER -> t
(* the variables the value of t can be a reference to *)
Refs(t) ==
  CASE t[1] = "v" -> {t[2]}
    [] t[1] = "l" -> Refs(t[2][Len(t[2])])
    [] t[1] = "c" -> CASE t[2] \in Compound \cup {"set"} -> Refs(t[3][1])
                       [] t[2] = "if" -> Refs(t[3][2]) \cup Refs(t[3][3])
                       [] t[2] \in {"exec2", "exec3", "loop", "while"} -> Refs(t[3][Len(t[3])])
                       [] OTHER -> {}
    [] OTHER -> {}
(* the variables t can change *)
Targets(t) ==
  CASE t[1] = "l" -> UNION {Targets(t[2][i]) : i \in 1..Len(t[2])}
    [] t[1] = "c" -> (IF t[2] \in Compound \cup {"set"} THEN Refs(t[3][1]) ELSE {}) \cup UNION {Targets(t[3][i]) : i \in 1..Len(t[3])}
    [] OTHER -> {}
Logic == {"not", "eq", "ne", "lt", "gt", "le", "ge", "band", "bor", "andalso", "orelse"}

Starts == {1, 2, 3}
(* L02 *)
Transparent(t, e) == \E o \in {Optimised(t)} : \A s \in Starts : Refines(Ev(o, Start(s)), e[s])
(* L12 *)
Compounds(t, e) == \E o \in {Expand(t)} : o # t => \A s \in Starts : \E x \in {Ev(o, Start(s))} : x[2].hz = "" /\ e[s][2].hz = "" => Same(x, e[s])
(* L03 *)
OnlyTargets(t, e) == \E g \in {Targets(t)} : \A s \in Starts, k \in Vars :
                       e[s][2].hz = "" /\ k \notin g => FSame(e[s][2].v[k], ValuesOf(s)[k])
(* L13 *)
Booleans(t, e) == t[1] = "c" /\ t[2] \in Logic => \A s \in Starts : Val(e[s][1], e[s][2]) \in {F0, F1}
(* L06: all the ways to write a program mean the program *)
Grouping(t) == \A i \in 1..Len(Styles) : \E p \in {Parse(WithEnd(Show(t, Styles[i])))} : p.ok /\ p.ast = t

(* L05: the evaluator's short cuts for long loops *)
Counted(b, k, S) == LET w == AddAll(Increments(b), 1, k, S) IN <<V(w.v[CounterKey(b)]), w>>
Unrolled(x) == <<x[1], [x[2] EXCEPT !.it = 0]>>
Shortcuts(t) ==
  t[1] = "c" /\ t[2] \in {"loop", "while"} =>
    \E b \in {t[3][Len(t[3])]} : \A s \in Starts :
      IsCounter(b, Start(s)) =>
        /\ \A k \in 1..9 : Same(Unrolled(EvLoop(b, k, V(F0), Start(s))), Counted(b, k, Start(s)))
        /\ t[2] = "while" /\ Diverges(b, Start(s)) =>
             \A j \in 0..4 : \E x \in {EvWhile(b, j, Start(s))} : ~x[3] /\ Same(Unrolled(<<x[1], x[2]>>), Counted(b, 2^j, Start(s)))

Fits(e, s) == IF e[s][2].hz = "" THEN "1" ELSE "0"
RECURSIVE Texts(_, _)
Texts(t, i) == IF i > Len(Styles) THEN "" ELSE Text(Show(t, Styles[i]), 1) \o "~" \o Texts(t, i + 1)
Laws ==
  need = 0 =>
  \E t \in {Tree(1, 0)[1]} :
  \E e \in {[s \in Starts |-> Ev(t, Start(s))]} :
    /\ Transparent(t, e)
    /\ Compounds(t, e)
    /\ OnlyTargets(t, e)
    /\ Booleans(t, e)
    /\ Grouping(t)
    /\ Shortcuts(t)
    /\ PrintT("T" \o Fits(e, 1) \o Fits(e, 2) \o Fits(e, 3) \o " " \o Texts(t, 1))
=============================================================================
