------------------------------ MODULE EelParse ------------------------------
(* The grammar: a deterministic recursive-descent acceptor of the ambiguous
   expression grammar with the language's operator precedences.

   Parse(tokens) is
     [ok |-> TRUE,  ast |-> tree]                        or
     [ok |-> FALSE, ep |-> i, why |-> "syntax" | "arity"]
   where i is the index of the first token that cannot continue any program,
   or of the function name of the first call with a wrong number of arguments.

   Trees:  <<"n", number>>   <<"v", name>>   <<"c", meaning, args>>
           <<"l", items>> with two or more items        <<"0">> empty program *)
EXTENDS Integers, Sequences, EelFuncs

Prec == [t \in {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "||", "&&", "|", "&", "==", "!=",
                ">", ">=", "<", "<=", "-", "+", "*", "/", "%", "^"} |->
  CASE t = "=" -> 2
    [] t \in {"+=", "-="} -> 3
    [] t \in {"*=", "/=", "%="} -> 4
    [] t \in {"^=", "|=", "&="} -> 5
    [] t = "||" -> 7
    [] t = "&&" -> 8
    [] t = "|" -> 9
    [] t = "&" -> 10
    [] t \in {"==", "!="} -> 11
    [] t \in {">", ">="} -> 12
    [] t \in {"<", "<="} -> 13
    [] t \in {"-", "+"} -> 14
    [] t \in {"*", "/"} -> 15
    [] t = "%" -> 16
    [] t = "^" -> 18]
PrecTernary == 6
PrecNot == 17
PrecSign == 19
RightAssoc(t) == Prec[t] <= 5
BinOps == DOMAIN Prec

OpMeaning == [t \in BinOps |->
  CASE t = "=" -> "set"  [] t = "+=" -> "add=" [] t = "-=" -> "sub=" [] t = "*=" -> "mul=" [] t = "/=" -> "div="
    [] t = "%=" -> "mod=" [] t = "^=" -> "pow=" [] t = "|=" -> "or=" [] t = "&=" -> "and="
    [] t = "||" -> "orelse" [] t = "&&" -> "andalso" [] t = "|" -> "or" [] t = "&" -> "and"
    [] t = "==" -> "eq" [] t = "!=" -> "ne" [] t = ">" -> "gt" [] t = ">=" -> "ge" [] t = "<" -> "lt"
    [] t = "<=" -> "le" [] t = "-" -> "sub" [] t = "+" -> "add" [] t = "*" -> "mul" [] t = "/" -> "div"
    [] t = "%" -> "mod" [] t = "^" -> "pow"]

Num(v) == <<"n", v>>
Call(f, a) == <<"c", f, a>>
Ok(ast, p) == [ok |-> TRUE, ast |-> ast, p |-> p]
Err(p) == [ok |-> FALSE, ep |-> p, why |-> "syntax"]
ArityErr(p) == [ok |-> FALSE, ep |-> p, why |-> "arity"]

StartsExpr(k) == k \in {"NUM", "VAR", "GMEM", "FUNC", "(", "-", "+", "!"}
ZeroNum == <<"n", <<0, 0>>>>

RECURSIVE PExpr(_, _, _), PPrimary(_, _), PTail(_, _, _, _), PList(_, _), PListTail(_, _, _), PArgs(_, _, _)

(* An expression at p with operators binding at least as tight as min. *)
PExpr(t, p, min) ==
  LET a == PPrimary(t, p) IN IF a.ok THEN PTail(t, a.ast, a.p, min) ELSE a

PPrimary(t, p) ==
  LET k == t[p].k IN
  CASE k = "NUM" -> Ok(Num(t[p].v), p + 1)
    [] k = "VAR" -> Ok(<<"v", t[p].v>>, p + 1)
    [] k = "GMEM" ->
         IF t[p + 1].k # "[" THEN Err(p + 1)
         ELSE IF t[p + 2].k = "]" THEN Ok(Call("gmem", <<ZeroNum>>), p + 3)
         ELSE LET e == PExpr(t, p + 2, 0) IN
              IF ~e.ok THEN e
              ELSE IF t[e.p].k # "]" THEN Err(e.p)
              ELSE Ok(Call("gmem", <<e.ast>>), e.p + 1)
    [] k = "FUNC" ->
         IF t[p + 1].k # "(" THEN Err(p + 1)
         ELSE LET a == PArgs(t, p + 2, <<>>) IN
              IF ~a.ok THEN a
              ELSE IF Len(a.ast) # FuncArity[t[p].v] THEN ArityErr(p)
              ELSE Ok(Call(FuncMeaning[t[p].v], a.ast), a.p)
    [] k = "(" ->
         LET l == PList(t, p + 1) IN
         IF ~l.ok THEN l ELSE IF t[l.p].k # ")" THEN Err(l.p) ELSE Ok(l.ast, l.p + 1)
    [] k = "-" -> LET e == PExpr(t, p + 1, PrecSign) IN IF e.ok THEN Ok(Call("neg", <<e.ast>>), e.p) ELSE e
    [] k = "+" -> PExpr(t, p + 1, PrecSign)
    [] k = "!" -> LET e == PExpr(t, p + 1, PrecNot) IN IF e.ok THEN Ok(Call("not", <<e.ast>>), e.p) ELSE e
    [] OTHER -> Err(p)

PTail(t, left, p, min) ==
  LET k == t[p].k IN
  CASE k = "[" ->
         IF t[p + 1].k = "]" THEN PTail(t, Call("mem", <<left>>), p + 2, min)
         ELSE LET e == PExpr(t, p + 1, 0) IN
              IF ~e.ok THEN e
              ELSE IF t[e.p].k # "]" THEN Err(e.p)
              ELSE PTail(t, Call("mem", <<Call("add", <<left, e.ast>>)>>), e.p + 1, min)
    [] k = "?" /\ PrecTernary >= min ->
         LET m == PExpr(t, p + 1, 0) IN
         IF ~m.ok THEN m
         ELSE IF t[m.p].k # ":" THEN Err(m.p)
         ELSE LET r == PExpr(t, m.p + 1, PrecTernary) IN
              IF ~r.ok THEN r ELSE PTail(t, Call("if", <<left, m.ast, r.ast>>), r.p, min)
    [] k \in BinOps /\ Prec[k] >= min ->
         LET r == PExpr(t, p + 1, IF RightAssoc(k) THEN Prec[k] ELSE Prec[k] + 1) IN
         IF ~r.ok THEN r ELSE PTail(t, Call(OpMeaning[k], <<left, r.ast>>), r.p, min)
    [] OTHER -> Ok(left, p)

(* One or more expressions separated by ";"; later ones may be empty or "()". *)
PList(t, p) == LET e == PExpr(t, p, 0) IN IF e.ok THEN PListTail(t, <<e.ast>>, e.p) ELSE e
PListTail(t, items, p) ==
  IF t[p].k # ";" THEN Ok(IF Len(items) = 1 THEN items[1] ELSE <<"l", items>>, p)
  ELSE IF t[p + 1].k = "(" /\ t[p + 2].k = ")" THEN PListTail(t, items, p + 3)
  ELSE IF ~StartsExpr(t[p + 1].k) THEN PListTail(t, items, p + 1)
  ELSE LET e == PExpr(t, p + 1, 0) IN IF e.ok THEN PListTail(t, Append(items, e.ast), e.p) ELSE e

PArgs(t, p, args) ==
  LET l == PList(t, p) IN
  IF ~l.ok THEN l
  ELSE IF t[l.p].k = "," THEN PArgs(t, l.p + 1, Append(args, l.ast))
  ELSE IF t[l.p].k = ")" THEN Ok(Append(args, l.ast), l.p + 1)
  ELSE Err(l.p)

Parse(t) ==
  IF t[1].k = "EOF" THEN Ok(<<"0">>, 1)
  ELSE LET l == PList(t, 1) IN
       IF ~l.ok THEN l ELSE IF t[l.p].k = "EOF" THEN l ELSE Err(l.p)
=============================================================================
