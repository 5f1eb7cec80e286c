------------------------------- MODULE EelApi -------------------------------
(* The library as a state machine: one action per call of the public API.

   ctx    live contexts: id -> [g, r, err], g the buffer gmegabuf denotes,
          r the register array (0 is the built-in one), err the last error
   code   live code handles: id -> [c, t, g], context id, resolved tree, and
          the buffer gmegabuf denoted when it was compiled
   store  the contents of variables and memory (see EelExec)
   bufs   the live buffers created by the host
   glob   number of the current built-in global buffer, 0 if there is none
   gens   built-in global buffers created so far
   reply  what the last call returned

   Buffers are <<"c", i>> (megabuf of context i), <<"h", i>> (created by the
   host) and <<"g", i>> (i-th built-in one).  Variables are <<owner, name>>,
   owner i > 0 being context i and owner -1 - r register array r.             *)
EXTENDS EelLex, EelParse, EelExec

VARIABLES ctx, code, store, bufs, glob, gens, reply
api == <<ctx, code, store, bufs, glob, gens, reply>>

Empty == [x \in {} |-> 0]
Put(f, k, x) == [j \in DOMAIN f \cup {k} |-> IF j = k THEN x ELSE f[j]]
Drop(f, ks) == [j \in DOMAIN f \ ks |-> f[j]]

EmptyStore == [v |-> Empty, m |-> Empty, mb |-> <<>>, gb |-> <<>>, rnd |-> <<>>, bad |-> FALSE,
               al |-> {}, fm |-> FALSE, hz |-> "", it |-> 0, ap |-> FALSE]
NoError == [is |-> FALSE, ln |-> 0, c |-> 0, lo |-> 0]

ApiInit == /\ ctx = Empty /\ code = Empty /\ store = EmptyStore
           /\ bufs = {} /\ glob = 0 /\ gens = 0 /\ reply = <<>>

-----------------------------------------------------------------------------
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RegName == [i \in 0..99 |-> "reg" \o Digit[(i \div 10) + 1] \o Digit[(i % 10) + 1]]
RegNames == {RegName[i] : i \in 0..99}
RegIndex == [n \in RegNames |-> CHOOSE i \in 0..99 : RegName[i] = n]

RegOwner(r) == -1 - r
(* The variable a name denotes in context c. *)
Key(c, name) == IF name \in RegNames THEN <<RegOwner(ctx[c].r), name>> ELSE <<c, name>>
Value(k) == IF k \in DOMAIN store.v THEN store.v[k] ELSE F0
Mem(b) == IF b \in DOMAIN store.m THEN store.m[b] ELSE EmptyMem

RECURSIVE Resolve(_, _), VarsOf(_)
Resolve(c, t) ==
  CASE t[1] = "v" -> <<"v", Key(c, t[2])>>
    [] t[1] = "c" -> <<"c", t[2], [i \in 1..Len(t[3]) |-> Resolve(c, t[3][i])]>>
    [] t[1] = "l" -> <<"l", [i \in 1..Len(t[2]) |-> Resolve(c, t[2][i])]>>
    [] OTHER -> t
VarsOf(t) ==
  CASE t[1] = "v" -> {t[2]}
    [] t[1] = "c" -> UNION {VarsOf(t[3][i]) : i \in 1..Len(t[3])}
    [] t[1] = "l" -> UNION {VarsOf(t[2][i]) : i \in 1..Len(t[2])}
    [] OTHER -> {}
(* variables come into existence with value 0 *)
WithVars(v, ks) == IF ks \subseteq DOMAIN v THEN v
                   ELSE [k \in DOMAIN v \cup ks |-> IF k \in DOMAIN v THEN v[k] ELSE F0]

-----------------------------------------------------------------------------
NewBuffer(b) ==
  /\ b \notin bufs
  /\ bufs' = bufs \cup {b}
  /\ store' = [store EXCEPT !.m = Put(@, <<"h", b>>, EmptyMem)]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, glob, gens>>

DropMem(s, bs) == [s EXCEPT !.m = Drop(@, bs), !.al = {x \in @ : x[1] \notin bs}]

(* a buffer must outlive the contexts and the code using it *)
InUse(g) == \/ \E c \in DOMAIN ctx : ctx[c].g = g
            \/ \E k \in DOMAIN code : code[k].g = g /\ code[k].c \in DOMAIN ctx
DestroyBuffer(b) ==
  /\ b \in bufs /\ ~InUse(<<"h", b>>)
  /\ bufs' = bufs \ {b}
  /\ store' = DropMem(store, {<<"h", b>>})
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, glob, gens>>

(* g is a host buffer or 0 for the built-in one, which is created when first needed *)
NewContext(c, g, r) ==
  /\ c \notin DOMAIN ctx /\ (g = 0 \/ g \in bufs)
  /\ LET fresh == g = 0 /\ glob = 0
         n == IF fresh THEN gens + 1 ELSE glob
         b == IF g = 0 THEN <<"g", n>> ELSE <<"h", g>>
         m1 == Put(store.m, <<"c", c>>, EmptyMem)
     IN /\ ctx' = Put(ctx, c, [g |-> b, r |-> r, err |-> NoError])
        /\ glob' = IF fresh THEN n ELSE glob
        /\ gens' = IF fresh THEN n ELSE gens
        /\ store' = [store EXCEPT !.m = IF fresh THEN Put(m1, b, EmptyMem) ELSE m1]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<code, bufs>>

(* Failing to create a context changes nothing, except that the built-in buffer may exist from now on. *)
FailContext(c, g, r) ==
  /\ c \notin DOMAIN ctx /\ (g = 0 \/ g \in bufs)
  /\ reply' = <<"null">>
  /\ UNCHANGED <<ctx, code, store, bufs, glob, gens>>

DestroyContext(c) ==
  /\ c \in DOMAIN ctx
  /\ ctx' = Drop(ctx, {c})
  /\ store' = [DropMem(store, {<<"c", c>>}) EXCEPT !.v = Drop(@, {k \in DOMAIN @ : k[1] = c})]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<code, bufs, glob, gens>>

DestroyGlobal ==
  /\ ~InUse(<<"g", glob>>)
  /\ glob' = 0
  /\ store' = DropMem(store, {<<"g", glob>>})
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, bufs, gens>>

Register(c, name) ==
  /\ c \in DOMAIN ctx
  /\ store' = [store EXCEPT !.v = WithVars(@, {Key(c, name)})]
  /\ reply' = <<"var", Key(c, name)>>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>

(* the host writes a variable through its pointer *)
SetVar(k, x) ==
  /\ k \in DOMAIN store.v
  /\ store' = [store EXCEPT !.v[k] = x]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>

(* An error is reported at the token the parser stumbles upon; if that is the end of the text, somewhere between the
   last token and the end. *)
ErrorAt(toks, p) ==
  LET t == toks[p.ep] IN
  [is |-> TRUE, ln |-> t.ln, c |-> IF t.k = "EOF" THEN -1 ELSE t.c,
   lo |-> IF t.k # "EOF" THEN t.ln ELSE IF Len(toks) = 1 THEN 1 ELSE toks[Len(toks) - 1].ln]

Compile(c, k, src) ==
  /\ c \in DOMAIN ctx /\ k \notin DOMAIN code
  /\ \E toks \in {Lex(src)} : \E p \in {Parse(toks)} :     \* (\E makes TLC evaluate these only once)
        IF p.ok
        THEN \E t \in {Resolve(c, p.ast)} :
             /\ code' = Put(code, k, [c |-> c, t |-> t, g |-> ctx[c].g])
             /\ store' = [store EXCEPT !.v = WithVars(@, VarsOf(t))]
             /\ ctx' = [ctx EXCEPT ![c].err = NoError]
             /\ reply' = <<"code">>
        ELSE /\ ctx' = [ctx EXCEPT ![c].err = ErrorAt(toks, p)]
             /\ reply' = <<"fail", p.why>>
             /\ UNCHANGED <<code, store>>
  /\ UNCHANGED <<bufs, glob, gens>>

(* rnd are the numbers rand() yields.  If approx, results of transcendental functions are specified approximately; Adjust
   may replace the variable contents by others the specification allows. *)
ExecuteWith(k, rnd, approx, Adjust(_)) ==
  /\ k \in DOMAIN code /\ code[k].c \in DOMAIN ctx
  /\ \E c \in {code[k].c} :
     \E e \in {Ev(code[k].t, [store EXCEPT !.mb = <<"c", c>>, !.gb = code[k].g, !.rnd = rnd, !.ap = approx])} :
        /\ store' = Adjust([e[2] EXCEPT !.mb = <<>>, !.gb = <<>>, !.rnd = <<>>, !.it = 0, !.ap = FALSE])
        /\ reply' = <<"val", Val(e[1], e[2]), Len(e[2].rnd), e[2]>>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>
Execute(k, rnd) == ExecuteWith(k, rnd, FALSE, LAMBDA s : s)

DestroyCode(k) ==
  /\ k \in DOMAIN code
  /\ code' = Drop(code, {k})
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, store, bufs, glob, gens>>

FreeMemory(c) ==
  /\ c \in DOMAIN ctx
  /\ store' = [DropMem(store, {<<"c", c>>}) EXCEPT !.m = Put(@, <<"c", c>>, EmptyMem)]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>

ResetVars(c) ==
  /\ c \in DOMAIN ctx
  /\ store' = [store EXCEPT !.v = [k \in DOMAIN @ |-> IF k[1] = c THEN F0 ELSE @[k]]]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>

(* gmegabuf of code compiled from now on in context c is buffer b (ns-eel2 shim only) *)
SetGram(c, g) ==
  /\ c \in DOMAIN ctx /\ g \in bufs
  /\ ctx' = [ctx EXCEPT ![c].g = <<"h", g>>]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<code, store, bufs, glob, gens>>

AllocFail(on) ==
  /\ store' = [store EXCEPT !.fm = on]
  /\ reply' = <<"ok">>
  /\ UNCHANGED <<ctx, code, bufs, glob, gens>>

(* The application may change its locale at any time, which is no part of the library's state: numbers keep their decimal
   point and names are compared as before. *)
HostLocale == UNCHANGED api
=============================================================================
