------------------------------- MODULE EelOpt -------------------------------
(* The compiler's simplifications, as a function of trees: constant expressions
   are replaced with their value, and list items without an effect vanish.
   EelExec is the meaning of programs; MC_Prog checks that Optimised(t) always
   means the same as t.

   A compiled expression is a record
     t    the simplified tree        list  whether it is an instruction list
     ic   its last instruction is constant    is  ... changes the state
     lc   all its instructions are constant   ls  ... one changes the state     *)
EXTENDS EelExec

CONSTANT Rule           \* "code", or the name of a wrong rule (negative controls)

Changing(f) == f \in Compound \cup {"set", "mem", "gmem", "freembuf", "memcpy", "memset"}
Constant(f) == ~Changing(f) /\ f # "rand"

NoStore == [v |-> [x \in {} |-> F0], m |-> [x \in {} |-> <<>>], mb |-> <<>>, gb |-> <<>>, rnd |-> <<>>, bad |-> FALSE,
            al |-> {}, fm |-> FALSE, hz |-> "", it |-> 0, ap |-> FALSE]

Fold(c) ==
  IF ~c.ic \/ c.is THEN c
  ELSE LET e == Ev(c.t, NoStore) IN
       IF e[2].hz # "" THEN c      \* a value the specification leaves open
       ELSE [c EXCEPT !.t = <<"n", Val(e[1], e[2])>>, !.list = FALSE]

AddItem(l, i) ==
  IF ~l.list /\ ~l.is THEN i
  ELSE LET items == IF l.list THEN l.t[2] ELSE <<l.t>>
           kept == IF ~l.is /\ Len(items) > 1 THEN SubSeq(items, 1, Len(items) - 1) ELSE items
       IN [t |-> <<"l", Append(kept, i.t)>>, list |-> TRUE,
           ic |-> i.lc, is |-> IF Rule = "last flag" THEN i.is ELSE i.ls,
           lc |-> l.lc /\ i.lc, ls |-> IF Rule = "list flag" THEN i.ls ELSE l.ls \/ i.ls]

RECURSIVE Cmp(_), AddItems(_, _, _)
AddItems(items, i, l) == IF i > Len(items) THEN l ELSE AddItems(items, i + 1, AddItem(l, Cmp(items[i])))
Cmp(t) ==
  CASE t[1] \in {"n", "0"} -> [t |-> t, list |-> FALSE, ic |-> TRUE, is |-> FALSE, lc |-> TRUE, ls |-> FALSE]
    [] t[1] = "v" -> [t |-> t, list |-> FALSE, ic |-> FALSE, is |-> FALSE, lc |-> FALSE, ls |-> FALSE]
    [] t[1] = "l" -> AddItems(t[2], 2, Cmp(t[2][1]))
    [] t[1] = "c" ->
       LET as == [i \in 1..Len(t[3]) |-> Cmp(t[3][i])]
           const == Constant(t[2]) /\ \A i \in 1..Len(as) : IF Rule = "last constant" THEN as[i].ic ELSE as[i].lc
           change == Changing(t[2]) \/ \E i \in 1..Len(as) : IF Rule = "last change" THEN as[i].is ELSE as[i].ls
       IN Fold([t |-> <<"c", t[2], [i \in 1..Len(as) |-> as[i].t]>>, list |-> FALSE,
                ic |-> const, is |-> change, lc |-> const, ls |-> change])
Optimised(t) == Cmp(t).t
=============================================================================
