------------------------------ MODULE EelExec -------------------------------
(* The meaning of programs: a big-step evaluator of trees over a store.

   A store S is a record
     v    variable values, a function from keys to numbers
     m    buffer contents, a function from buffer ids to EelMem memories
     mb   id of the buffer megabuf denotes,  gb  id of the one gmegabuf denotes
     rnd  the numbers the next rand() calls yield (an oracle taken from the
          observed execution), bad  TRUE if one of them was impossible
     al   the blocks <<buffer, number>> allocated so far
     fm   TRUE while no further block can be allocated (fault injection)
     hz   why the outcome is unspecified, or ""
     it   loop iterations evaluated by the current execution
     ap   TRUE if results are only compared approximately; otherwise inexact
          results of transcendental functions count as unspecified

   The result of an evaluation is a value <<"V", number>>, a reference
   <<"R", key>> or <<"M", buffer, index>>, or <<"Q", number, result>>, the
   value of a construct of which it is unspecified whether it is a reference.

   Variables in trees are resolved: <<"v", key>>.                            *)
EXTENDS EelMem, Integers, Sequences

CONSTANTS Single,       \* numbers are binary32
          Strict,       \* follow the documentation where the code is known not to (see DESIGN.md, known findings)
          MaxLoop,      \* iteration limit, 2^20
          SpecLoop      \* largest number of iterations the evaluator goes through itself

Rd(x) == IF Single THEN FRnd32(x) ELSE x
Bool(b) == IF b THEN F1 ELSE F0

(* numbers treated as 0 by boolean operators, comparisons and division *)
Tiny  == IF Single THEN FRnd32(FParseDec(<<49, 101, 45, 52, 49>>)) ELSE FParseDec(<<49, 101, 45, 51, 48, 48>>)
Close == Rd(FParseDec(<<48, 46, 48, 48, 48, 48, 49>>))      \* 0.00001
IsTiny(x) == IF Strict THEN FEq(x, F0) ELSE FLt(FAbs(x), Tiny)
NotTiny(x) == IF Strict THEN ~FEq(x, F0) ELSE FLt(Tiny, FAbs(x))
Nonzero(x) == IF Strict THEN ~FEq(x, F0) ELSE FLt(Close, FAbs(x))   \* operands of band() and bor()
IsTrue(x) == ~FEq(x, F0)                                    \* conditions of if() and ?:
Half == FParseDec(<<48, 46, 53>>)

(* What the operators and functions of numbers compute. *)
Fn1(f, x) ==
  CASE f = "neg" -> FNeg(x)
    [] f = "not" -> Bool(IsTiny(x))
    [] f = "abs" -> FAbs(x)
    [] f = "sqr" -> Rd(FMul(x, x))
    [] f = "floor" -> FFloor(x)
    [] f = "ceil" -> FCeil(x)
    [] f = "int" -> IF Strict THEN FTrunc(x) ELSE FFloor(x)
    [] f = "sign" -> IF FEq(x, F0) THEN F0 ELSE IF FLt(x, F0) THEN FM1 ELSE F1
    [] f = "sqrt" -> Rd(FSqrt(x))
    [] f = "sin" -> Rd(FSin(x))
    [] f = "cos" -> Rd(FCos(x))
    [] f = "tan" -> Rd(FTan(x))
    [] f = "asin" -> Rd(FAsin(x))
    [] f = "acos" -> Rd(FAcos(x))
    [] f = "atan" -> Rd(FAtan(x))
    [] f = "exp" -> Rd(FExp(x))
    [] f = "log" -> Rd(FLog(x))
    [] f = "log10" -> Rd(FLog10(x))
    [] f = "invsqrt" -> Rd(FDiv(F1, FSqrt(x)))

Ints(x, y) == FFitsInt(x) /\ FFitsInt(y)
Fn2(f, x, y) ==
  CASE f = "add" -> Rd(FAdd(x, y))
    [] f = "sub" -> Rd(FSub(x, y))
    [] f = "mul" -> Rd(FMul(x, y))
    [] f = "div" -> IF IsTiny(y) THEN F0 ELSE Rd(FDiv(x, y))
    [] f = "mod" -> IF FToInt(y) = 0 THEN F0 ELSE Rd(FIRem(x, y))
    [] f = "and" -> Rd(FIAnd(x, y))
    [] f = "or" -> Rd(FIOr(x, y))
    [] f = "pow" -> Rd(FPow(x, y))
    [] f = "eq" -> Bool(IsTiny(Rd(FSub(x, y))))
    [] f = "ne" -> Bool(NotTiny(Rd(FSub(x, y))))
    [] f = "lt" -> Bool(FLt(x, y))
    [] f = "gt" -> Bool(FLt(y, x))
    [] f = "le" -> Bool(FLe(x, y))
    [] f = "ge" -> Bool(FLe(y, x))
    [] f = "min" -> IF FLt(x, y) THEN x ELSE y
    [] f = "max" -> IF FLt(y, x) THEN x ELSE y
    [] f = "band" -> Bool(Nonzero(x) /\ Nonzero(y))
    [] f = "bor" -> Bool(Nonzero(x) \/ Nonzero(y))
    [] f = "atan2" -> Rd(FAtan2(x, y))
    [] f = "sigmoid" -> LET t == FAdd(F1, FExp(FNeg(Rd(FMul(x, y))))) IN
                        IF FLt(Close, FAbs(t)) THEN Rd(FDiv(F1, t)) ELSE F0

Unary == {"neg", "not", "abs", "sqr", "floor", "ceil", "int", "sign", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan",
          "exp", "log", "log10", "invsqrt"}
Binary == {"add", "sub", "mul", "div", "mod", "and", "or", "pow", "eq", "ne", "lt", "gt", "le", "ge", "min", "max",
           "band", "bor", "atan2", "sigmoid"}
IntOps == {"mod", "and", "or"}
Compound == {"add=", "sub=", "mul=", "div=", "mod=", "or=", "and=", "pow="}
CompoundOp == [o \in Compound |->
  CASE o = "add=" -> "add" [] o = "sub=" -> "sub" [] o = "mul=" -> "mul" [] o = "div=" -> "div"
    [] o = "mod=" -> "mod" [] o = "or=" -> "or" [] o = "and=" -> "and" [] o = "pow=" -> "pow"]

(* Operands with an unspecified result: integer operators on numbers which are no 32-bit integers, NaN min/max. *)
IsInt(x) == FIsFinite(x) /\ FEq(FTrunc(x), x)
ExactPow(x, y) == \/ ~FIsFinite(x) \/ ~FIsFinite(y)
                  \/ FEq(y, F0) \/ FEq(y, F1) \/ FEq(x, F0) \/ FEq(x, F1)
                  \/ FLt(x, F0) /\ ~IsInt(y)
                  \/ IsInt(x) /\ IsInt(y) /\ FLe(F0, y) /\ FLe(FAbs(FPow(x, y)), Lim)
(* Results of which the last digits are left open. *)
Inexact(f, x, y) ==
  CASE f = "pow" -> ~ExactPow(x, y)
    [] f \in {"sin", "cos", "tan", "asin", "atan", "exp"} -> ~FEq(x, F0)
    [] f \in {"acos", "log", "log10"} -> ~FEq(x, F1)
    [] f = "atan2" -> ~(FEq(x, F0) /\ FLt(F0, y))
    [] f = "sigmoid" -> ~(FEq(x, F0) \/ FEq(y, F0))
    [] f = "invsqrt" -> TRUE
    [] OTHER -> FALSE
Unspec2(f, x, y) == \/ f \in IntOps /\ ~Ints(x, y)
                    \/ f \in {"min", "max"} /\ (FIsNaN(x) \/ FIsNaN(y))
Unspec1(f, x) == \/ f = "invsqrt" /\ ~(FLt(F0, x) /\ FIsFinite(x))
                 \/ f = "sign" /\ FIsNaN(x)

-----------------------------------------------------------------------------
BlockSize == 65536
BlockOf(i) == i \div BlockSize
Blocks(b, lo, hi) == IF lo >= hi THEN {} ELSE {<<b, k>> : k \in BlockOf(lo)..BlockOf(hi - 1)}
(* The blocks bs are needed: they are allocated unless that fails. *)
Touch(S, bs) == IF S.fm \/ bs \subseteq S.al THEN S ELSE [S EXCEPT !.al = @ \cup bs]
Usable(S, bs) == ~S.fm \/ bs \subseteq S.al

Val(r, S) == CASE r[1] \in {"V", "Q"} -> r[2]
               [] r[1] = "R" -> S.v[r[2]]
               [] r[1] = "M" -> MRead(S.m[r[2]], r[3])
V(x) == <<"V", x>>
Hz(S, why) == [S EXCEPT !.hz = why]
HzIf(c, S, why) == IF c THEN Hz(S, why) ELSE S

Store(r, x, S) ==
  CASE r[1] = "R" -> [S EXCEPT !.v[r[2]] = x]
    [] r[1] = "M" -> [S EXCEPT !.m[r[2]] = MWrite(S.m[r[2]], r[3], x)]
    [] r[1] = "V" -> S
    [] r[1] = "Q" -> Hz(S, "assignment to a loop or memory function")
(* the result of an assignment is its target, or the value if that is no reference *)
Target(r, x) == IF r[1] \in {"R", "M"} THEN r ELSE V(x)

(* an access to cell x of buffer b: <<result, store>> *)
MemRef(S, b, x) ==
  LET i == FIndex(x)
      bs == {<<b, BlockOf(FToInt(i))>>}
  IN IF ~InRange(i) \/ ~Usable(S, bs) THEN <<V(F0), S>>
     ELSE <<<<"M", b, FToInt(i)>>, HzIf(MUnspec(S.m[b], FToInt(i)), Touch(S, bs), "cell unspecified after a failed allocation")>>

(* The contents of buffers are recorded as operations on them; bound their number. *)
Logged(S) == HzIf(Len(S.m[S.mb]) > 500, S, "long loop")

(* memset and memcpy on buffer b.  If not all the blocks involved can be allocated, the cells of the existing blocks in
   the destination range may or may not be written. *)
DoSet(S, b, x) ==
  LET w == MSet(S.m[b], x[1], x[2], x[3])
      l == IF w = S.m[b] THEN <<"f", 0, 0>> ELSE Head(w)
      bs == Blocks(b, l[2], l[3])
  IN IF Usable(S, bs) THEN [Touch(S, bs) EXCEPT !.m[b] = w]
     ELSE [S EXCEPT !.m[b] = MLoose(@, l[2], l[3], {k[2] : k \in bs \cap S.al})]
DoCopy(S, b, x) ==
  LET w == MMove(S.m[b], x[1], x[2], x[3])
      l == IF w = S.m[b] THEN <<"c", 0, 0, 0>> ELSE Head(w)
      to == Blocks(b, l[2], l[3])
      from == Blocks(b, l[2] - l[4], l[3] - l[4])
  IN IF Usable(S, to \cup from) THEN [Touch(S, to \cup from) EXCEPT !.m[b] = w]
     ELSE [S EXCEPT !.m[b] = MLoose(@, l[2], l[3], {k[2] : k \in to \cap S.al})]

(* A reference whose contents changed after it was evaluated: which value the operator uses is unspecified. *)
Late(q, x, S) == LET r == IF q[1] = "Q" THEN q[3] ELSE q IN r[1] \in {"R", "M"} /\ ~FSame(Val(r, S), x)

-----------------------------------------------------------------------------
(* Loops longer than SpecLoop are understood only if the body merely adds constants to distinct variables. *)
Increments(b) == IF b[1] = "l" THEN b[2] ELSE <<b>>
IsInc(i) == /\ i[1] = "c" /\ i[2] = "add=" /\ i[3][1][1] = "v" /\ i[3][2][1] = "n"
BigInt == FFromInt(1073741824)
SmallInt == FFromInt(1000)
IsCounter(b, S) ==
  /\ b[1] \in {"c", "l"}
  /\ \A j \in 1..Len(Increments(b)) : LET i == Increments(b)[j] IN
       /\ IsInc(i)
       /\ FSame(FTrunc(i[3][2][2]), i[3][2][2]) /\ FLe(FAbs(i[3][2][2]), SmallInt)
       /\ LET x == S.v[i[3][1][2]] IN FSame(FTrunc(x), x) /\ FLe(FAbs(x), BigInt)
  /\ \A j, k \in 1..Len(Increments(b)) : j # k => Increments(b)[j][3][1][2] # Increments(b)[k][3][1][2]
RECURSIVE AddAll(_, _, _, _)
AddAll(is, j, n, S) ==
  IF j > Len(is) THEN S
  ELSE LET key == is[j][3][1][2] IN
       AddAll(is, j + 1, n, [S EXCEPT !.v[key] = Rd(FAdd(@, FMul(FFromInt(n), is[j][3][2][2])))])
CounterKey(b) == LET is == Increments(b) IN is[Len(is)][3][1][2]
CounterStep(b) == LET is == Increments(b) IN is[Len(is)][3][2][2]
(* the counter never becomes 0 again *)
Diverges(b, S) == LET x == S.v[CounterKey(b)]  c == CounterStep(b) IN
  (FLe(F0, x) /\ FLt(F0, c)) \/ (FLe(x, F0) /\ FLt(c, F0))

RECURSIVE Ev(_, _), EvItems(_, _, _), EvLoop(_, _, _, _), EvWhile(_, _, _), EvVals(_, _, _, _)

EvItems(items, i, S) ==
  LET e == Ev(items[i], S) IN IF i = Len(items) THEN e ELSE EvItems(items, i + 1, e[2])

(* n more iterations, halved for the sake of a shallow recursion; r is the result so far *)
EvLoop(b, n, r, S) ==
  IF n = 0 THEN <<r, S>>
  ELSE IF S.it > SpecLoop \/ S.hz # "" THEN <<r, Hz(S, "long loop")>>
  ELSE IF n = 1 THEN Ev(b, [S EXCEPT !.it = @ + 1])
  ELSE LET h == n \div 2  e == EvLoop(b, h, r, S) IN EvLoop(b, n - h, e[1], e[2])

(* up to 2^k more iterations: <<result, store, whether the loop has ended>> *)
EvWhile(b, k, S) ==
  IF k = 0
  THEN LET e == Ev(b, [S EXCEPT !.it = @ + 1])  go == NotTiny(Val(e[1], e[2]))
       IN IF go /\ e[2].it > SpecLoop THEN <<e[1], Hz(e[2], "long loop"), TRUE>>
          ELSE <<e[1], e[2], ~go \/ e[2].hz # "">>
  ELSE LET h == EvWhile(b, k - 1, S) IN IF h[3] THEN h ELSE EvWhile(b, k - 1, h[2])

(* all arguments, as <<numbers, store, first result>>; the store gets hz if a reference changed after its evaluation *)
EvVals(args, i, S, acc) ==
  IF i > Len(args)
  THEN <<[j \in 1..Len(acc) |-> acc[j][2]],
         HzIf(\E j \in 1..Len(acc) : Late(acc[j][1], acc[j][2], S), S, "reference changed before its use"), acc[1][1]>>
  ELSE LET e == Ev(args[i], S) IN EvVals(args, i + 1, e[2], Append(acc, <<e[1], Val(e[1], e[2])>>))

Quasi(e) == <<<<"Q", Val(e[1], e[2]), IF e[1][1] = "Q" THEN e[1][3] ELSE e[1]>>, e[2]>>

(* the result of memset and memcpy, their first argument *)
Dest(e, S) == <<<<"Q", e[1][1], V(F0)>>, HzIf(Late(e[3], e[1][1], S), S, "destination index changed")>>

Ev(t, S) ==
  CASE t[1] = "n" -> <<V(Rd(t[2])), S>>
    [] t[1] = "v" -> <<<<"R", t[2]>>, S>>
    [] t[1] = "0" -> <<V(F0), S>>
    [] t[1] = "l" -> EvItems(t[2], 1, S)
    [] t[1] = "c" ->
       LET f == t[2]
           a == t[3]
       IN
       CASE f \in Binary ->
              LET e == EvVals(a, 1, S, <<>>)  x == e[1][1]  y == e[1][2]
              IN <<V(Fn2(f, x, y)), HzIf(Unspec2(f, x, y) \/ (~S.ap /\ Inexact(f, x, y)), e[2], f)>>
         [] f \in Unary ->
              LET e == Ev(a[1], S)  x == Val(e[1], e[2]) IN <<V(Fn1(f, x)), HzIf(Unspec1(f, x) \/ (~S.ap /\ Inexact(f, x, x)), e[2], f)>>
         [] f = "set" ->
              LET e1 == Ev(a[1], S)  e2 == Ev(a[2], e1[2])  x == Val(e2[1], e2[2])
              IN <<Target(e1[1], x), Store(e1[1], x, e2[2])>>
         [] f \in Compound ->
              LET e1 == Ev(a[1], S)  x0 == Val(e1[1], e1[2])  e2 == Ev(a[2], e1[2])
                  y == Val(e2[1], e2[2])
                  o == CompoundOp[f]
                  x == Fn2(o, x0, y)
                  S2 == HzIf(Late(e1[1], x0, e2[2]) \/ Unspec2(o, x0, y) \/ (~S.ap /\ Inexact(o, x0, y)), e2[2], f)
              IN <<Target(e1[1], x), Store(e1[1], x, S2)>>
         [] f = "if" ->
              LET e == Ev(a[1], S)
              IN IF IsTrue(Val(e[1], e[2])) THEN Ev(a[2], e[2]) ELSE Ev(a[3], e[2])
         [] f = "andalso" ->
              LET e == Ev(a[1], S) IN
              IF ~NotTiny(Val(e[1], e[2])) THEN <<V(F0), e[2]>>
              ELSE LET e2 == Ev(a[2], e[2]) IN <<V(Bool(NotTiny(Val(e2[1], e2[2])))), e2[2]>>
         [] f = "orelse" ->
              LET e == Ev(a[1], S) IN
              IF ~IsTiny(Val(e[1], e[2])) THEN <<V(F1), e[2]>>
              ELSE LET e2 == Ev(a[2], e[2]) IN <<V(Bool(NotTiny(Val(e2[1], e2[2])))), e2[2]>>
         [] f = "exec2" -> LET e == Ev(a[1], S) IN Ev(a[2], e[2])
         [] f = "exec3" -> LET e == Ev(a[1], S)  e2 == Ev(a[2], e[2]) IN Ev(a[3], e2[2])
         [] f = "loop" ->
              LET e == Ev(a[1], S)
                  x == Val(e[1], e[2])
                  n == IF FLt(FFromInt(MaxLoop), x) THEN MaxLoop ELSE FToInt(x)
              IN IF n < 1 THEN Quasi(<<V(x), HzIf(FIsNaN(x), e[2], "loop count NaN")>>)
                 ELSE IF n <= SpecLoop THEN Quasi(EvLoop(a[2], n, V(F0), e[2]))
                 ELSE IF IsCounter(a[2], e[2])
                 THEN LET S2 == AddAll(Increments(a[2]), 1, n, e[2])
                      IN <<<<"Q", S2.v[CounterKey(a[2])], <<"R", CounterKey(a[2])>>>>, S2>>
                 ELSE <<V(F0), Hz(e[2], "long loop")>>
         [] f = "while" ->
              IF IsCounter(a[1], S) /\ Diverges(a[1], S)
              THEN LET S2 == AddAll(Increments(a[1]), 1, MaxLoop, S)
                   IN <<<<"Q", S2.v[CounterKey(a[1])], <<"R", CounterKey(a[1])>>>>, S2>>
              ELSE Quasi(EvWhile(a[1], 20, S))
         [] f = "mem" -> LET e == Ev(a[1], S) IN MemRef(e[2], S.mb, Val(e[1], e[2]))
         [] f = "gmem" -> LET e == Ev(a[1], S) IN MemRef(e[2], S.gb, Val(e[1], e[2]))
         [] f = "freembuf" -> LET e == Ev(a[1], S) IN <<V(F0), e[2]>>
         [] f = "memset" ->
              LET e == EvVals(a, 1, S, <<>>) IN Dest(e, DoSet(Logged(e[2]), S.mb, e[1]))
         [] f = "memcpy" ->
              LET e == EvVals(a, 1, S, <<>>) IN Dest(e, DoCopy(Logged(e[2]), S.mb, e[1]))
         [] f = "rand" ->
              LET e == Ev(a[1], S)
                  x == Val(e[1], e[2])
                  top == IF FLe(F1, x) THEN FFloor(x) ELSE F1
              IN IF e[2].rnd = <<>> THEN <<V(F0), Hz(e[2], "unknown random number")>>
                 ELSE LET r == Head(e[2].rnd)
                      IN <<V(r), [e[2] EXCEPT !.rnd = Tail(@), !.bad = @ \/ ~(FLe(F0, r) /\ FLe(r, top))]>>
=============================================================================
