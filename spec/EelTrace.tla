------------------------------ MODULE EelTrace ------------------------------
(* Trace validation: replays a recorded execution of the library event by event
   against the actions of EelApi.  A trace is a sequence of histories, each
   started by a "new" event in a fresh process.  Every event carries the
   arguments of one call and what could be observed afterwards.

   l     next event            slot   registered pointers: slot -> variable
   obs   values seen in slots  hreg   host register arrays: variable -> value
   skip  TRUE until the next history after a mismatch, or after something with
         an unspecified outcome happened
   draws random numbers drawn: code -> set
   bad   number of mismatches found so far                                     *)
EXTENDS EelApi, EelLock, Json, IOUtils

CONSTANTS JudgeLock,    \* judge how the host's mutex is used
          JudgeOutput   \* judge whether anything was printed
CONSTANT Shim           \* the trace was recorded through the ns-eel2 shim, which returns no results and no positions

VARIABLES l, slot, obs, hreg, draws, skip, bad
vars == <<ctx, code, store, bufs, glob, gens, reply, l, slot, obs, hreg, draws, skip, bad>>

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
ASSUME FLoaded

TraceInit == /\ ApiInit /\ l = 1 /\ slot = Empty /\ obs = Empty /\ hreg = Empty /\ draws = Empty /\ skip = FALSE /\ bad = 0

Ev1 == Trace[l]
Is(name) == /\ l <= Len(Trace) /\ Trace[l].e = name /\ ~skip /\ l' = l + 1
            /\ name # "exec" => UNCHANGED draws

Show(e, why) == PrintT(<<"REJECT", l, e.hid, e.e, why>>)
(* all of cs must hold; each is <<condition, reason>> *)
Judge(e, cs) ==
  \E wrong \in {{i \in 1..Len(cs) : ~cs[i][1]}} :
  IF wrong = {} THEN /\ skip' = (store'.hz # "") /\ bad' = bad
                     /\ (store'.hz # "" => PrintT(<<"SKIP", l, e.hid, store'.hz>>))
  ELSE /\ skip' = TRUE /\ bad' = bad + 1
       /\ Show(e, [i \in wrong |-> cs[i][2]])
Quiet(e) == <<<<JudgeOutput => e.out = 0, "output">>, <<JudgeLock => LockFaults(e.sy) = {}, <<"mutex", LockFaults(e.sy)>>>>>>
Known == UNCHANGED <<slot, obs, hreg>>
Drawn(k) == IF k \in DOMAIN draws THEN draws[k] ELSE {}

Eq(x, y, tol) == IF tol = 0 THEN FSame(x, y) ELSE FNear(x, y, tol)

(* ---- observed values of registered variables and host registers ---- *)
ObsAfter(e) == [s \in DOMAIN obs |-> LET d == {i \in 1..Len(e.d) : e.d[i][1] = s} IN
                                     IF d = {} THEN obs[s] ELSE LET i == CHOOSE i \in d : TRUE IN <<e.d[i][2], e.d[i][3]>>]
HregAfter(e) == LET ks == {<<RegOwner(e.h[i][1]), RegName[e.h[i][2]]>> : i \in 1..Len(e.h)} IN
  [k \in DOMAIN hreg \cup ks |->
     LET d == {i \in 1..Len(e.h) : <<RegOwner(e.h[i][1]), RegName[e.h[i][2]]>> = k} IN
     IF d = {} THEN hreg[k] ELSE LET i == CHOOSE i \in d : TRUE IN <<e.h[i][3], e.h[i][4]>>]
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE F0
WrongSlots(o, tol) == {s \in DOMAIN o : ~Eq(Get(store'.v, slot[s]), o[s], tol)}
WrongHreg(h, tol) ==
  {k \in DOMAIN h : ~Eq(Get(store'.v, k), h[k], tol)}
  \cup {k \in DOMAIN store'.v : k[1] <= -2 /\ ~Eq(store'.v[k], Get(h, k), tol)}
Detail(o, ss) == [s \in ss |-> <<slot[s], "is", FStr(o[s]), "expected", FStr(Get(store'.v, slot[s]))>>]

TNew == /\ l <= Len(Trace) /\ Trace[l].e = "new"
        /\ l' = l + 1
        /\ ctx' = Empty /\ code' = Empty /\ store' = EmptyStore /\ bufs' = {} /\ glob' = 0 /\ gens' = 0
        /\ reply' = <<>> /\ slot' = Empty /\ obs' = Empty /\ hreg' = Empty /\ draws' = Empty /\ skip' = FALSE /\ bad' = bad

TSkip == /\ l <= Len(Trace) /\ skip /\ Trace[l].e # "new"
         /\ l' = l + 1 /\ UNCHANGED <<ctx, code, store, bufs, glob, gens, reply, slot, obs, hreg, draws, skip>>
         /\ IF Trace[l].e = "crash" /\ store.hz # "" THEN /\ bad' = bad + 1 /\ Show(Trace[l], {"crash"}) ELSE bad' = bad

TCrash == /\ Is("crash") /\ UNCHANGED <<ctx, code, store, bufs, glob, gens, reply, slot, obs, hreg>>
          /\ Judge(Ev1, <<<<FALSE, Ev1.why>>>>)

TBuf  == Is("buf")  /\ NewBuffer(Ev1.b) /\ Known /\ Judge(Ev1, <<<<Ev1.ok = 1, "null">>>> \o Quiet(Ev1))
TDbuf == Is("dbuf") /\ DestroyBuffer(Ev1.b) /\ Known /\ Judge(Ev1, Quiet(Ev1))
TCtx  == /\ Is("ctx") /\ Known
         /\ IF Ev1.fail > 0   \* that many allocations were made to fail
            THEN FailContext(Ev1.c, Ev1.g, Ev1.r) /\ Judge(Ev1, <<<<Ev1.ok = 0, "created">>>> \o Quiet(Ev1))
            ELSE NewContext(Ev1.c, Ev1.g, Ev1.r) /\ Judge(Ev1, <<<<Ev1.ok = 1, "null">>>> \o Quiet(Ev1))
TDctx == /\ Is("dctx") /\ DestroyContext(Ev1.c)
         /\ LET ks == {s \in DOMAIN slot : slot[s][1] = Ev1.c} IN slot' = Drop(slot, ks) /\ obs' = Drop(obs, ks)
         /\ UNCHANGED hreg /\ Judge(Ev1, Quiet(Ev1))
TGlob == Is("dglob") /\ DestroyGlobal /\ Known /\ Judge(Ev1, Quiet(Ev1))

TReg  == /\ Is("reg") /\ Register(Ev1.c, CodesToStr(LowSeq(Ev1.n))) /\ UNCHANGED hreg
         /\ LET k == reply'[2]
                same == {s \in DOMAIN slot : slot[s] = k} \cup {Ev1.s}
                first == CHOOSE s \in same : \A t \in same : s <= t
            IN /\ slot' = Put(slot, Ev1.s, k)
               /\ obs' = Put(obs, Ev1.s, Ev1.val)
               /\ Judge(Ev1, <<<<Ev1.ok = 1, "null">>,
                    <<Ev1.al = first, <<"location", k, "shared with slot", Ev1.al>>>>,
                    <<Ev1.hr = (IF k[1] <= -2 THEN <<-1 - k[1], RegIndex[k[2]]>> ELSE <<0, 0>>), "register location">>,
                    <<FSame(Ev1.val, store'.v[k]), <<"value of", k, "is", FStr(Ev1.val), "expected", FStr(store'.v[k])>>>>>>
                    \o Quiet(Ev1))
(* the host writes a slot; all slots of that variable change *)
TSet  == /\ Is("set") /\ SetVar(slot[Ev1.s], Ev1.x) /\ UNCHANGED slot
         /\ obs' = [s \in DOMAIN obs |-> IF slot[s] = slot[Ev1.s] THEN Ev1.x ELSE obs[s]]
         /\ hreg' = IF slot[Ev1.s][1] <= -2 THEN Put(hreg, slot[Ev1.s], Ev1.x) ELSE hreg
         /\ Judge(Ev1, <<>>)

ErrOk(err, e) == /\ (e.err = 1) = err.is
                 /\ err.is /\ ~Shim =>
                              /\ e.ln >= err.lo /\ e.ln <= err.ln
                              /\ (err.c >= 0 => e.col = err.c)
Same(o, h, tol) == LET ws == WrongSlots(o, tol)  wh == WrongHreg(h, tol) IN
   <<<<ws = {}, Detail(o, ws)>>, <<wh = {}, <<"registers", wh>>>>>>
TComp == /\ Is("comp") /\ Compile(Ev1.c, Ev1.k, Ev1.src) /\ UNCHANGED slot
         /\ obs' = ObsAfter(Ev1) /\ hreg' = HregAfter(Ev1)
         /\ Judge(Ev1, <<<<Ev1.ok = (IF reply'[1] = "code" THEN 1 ELSE 0), <<"expected", reply'>>>>,
                         <<ErrOk(ctx'[Ev1.c].err, Ev1), <<"error", Ev1.err, Ev1.ln, Ev1.col, "expected", ctx'[Ev1.c].err>>>>>>
                       \o (IF "nul" \in DOMAIN Ev1 THEN <<<<FSame(Ev1.nul, FFromInt(0)), <<"executing no program gives", Ev1.nul>>>>>> ELSE <<>>)
                       \o Same(obs', hreg', 0) \o Quiet(Ev1))
TErr  == /\ Is("err") /\ UNCHANGED api /\ Known
         /\ Judge(Ev1, <<<<ErrOk(ctx[Ev1.c].err, Ev1), <<"error", Ev1.err, Ev1.ln, Ev1.col, "expected", ctx[Ev1.c].err>>>>>>)

(* After at least 100 draws between 0 and Ev1.top: they differ and spread over the whole range. *)
TDrawn == /\ Is("drawn") /\ UNCHANGED api /\ Known
          /\ LET ds == Drawn(Ev1.k)
                 Quarter(i) == FMul(Ev1.top, FDiv(FFromInt(i), FFromInt(4)))
             IN Judge(Ev1, <<<<Cardinality(ds) >= 20, <<"only", Cardinality(ds), "different random numbers">>>>,
                            <<\A i \in 0..3 : \E d \in ds : FLe(Quarter(i), d) /\ FLe(d, Quarter(i + 1)), "part of the range is never drawn">>>>)

(* The variables named by a program take the observed values: after results which are only specified approximately, so
   that errors do not add up, and after an unspecified result of a program which changes no memory. *)
Adopt(o, ks, s) == [s EXCEPT !.hz = "", !.bad = FALSE,
                             !.v = [k \in DOMAIN @ |-> LET x == {t \in DOMAIN o : slot[t] = k} IN
                                       IF x = {} \/ k \notin ks THEN @[k] ELSE o[CHOOSE t \in x : TRUE]]]
RECURSIVE UsesMemory(_)
UsesMemory(t) == CASE t[1] = "c" -> \/ t[2] \in {"mem", "gmem", "memset", "memcpy"}
                                    \/ \E i \in 1..Len(t[3]) : UsesMemory(t[3][i])
                   [] t[1] = "l" -> \E i \in 1..Len(t[2]) : UsesMemory(t[2][i])
                   [] OTHER -> FALSE
TExec == /\ Is("exec") /\ UNCHANGED slot
         /\ obs' = ObsAfter(Ev1) /\ hreg' = HregAfter(Ev1)
         /\ \E t \in {code[Ev1.k].t} : \E ks \in {VarsOf(t)} :
            LET tol == Ev1.tol
                visible == ks \subseteq {slot[s] : s \in DOMAIN slot} /\ ~UsesMemory(t)
                Adjust(s) == IF (tol > 0 /\ s.hz = "") \/ (s.hz # "" /\ visible) THEN Adopt(obs', ks, s) ELSE s
            IN /\ ExecuteWith(Ev1.k, Ev1.rnd, tol > 0, Adjust)
               /\ LET was == reply'[4]      \* the store according to the specification alone
                      ws == {s \in DOMAIN obs' : ~Eq(Get(was.v, slot[s]), obs'[s], IF slot[s] \in ks THEN tol ELSE 0)}
                  IN /\ draws' = IF Ev1.rnd = <<>> \/ was.hz # "" THEN draws
                                 ELSE Put(draws, Ev1.k, Drawn(Ev1.k) \cup {Ev1.rnd[i] : i \in 1..Len(Ev1.rnd)})
                     /\ IF was.hz # "" THEN Judge(Ev1, IF store'.hz # "" THEN <<>> ELSE Same(obs', hreg', 0) \o Quiet(Ev1))
                        ELSE Judge(Ev1, <<<<Shim \/ Eq(reply'[2], Ev1.res, tol), <<"result", FStr(Ev1.res), "expected", FStr(reply'[2])>>>>,
                                          <<~was.bad, "impossible random number">>,
                                          <<reply'[3] = 0, "rand not evaluated">>,
                                          <<ws = {}, [s \in ws |-> <<slot[s], "is", FStr(obs'[s]), "expected", FStr(Get(was.v, slot[s]))>>]>>>>
                                        \o Same(obs', hreg', 0) \o Quiet(Ev1))
TDcode == Is("dcode") /\ DestroyCode(Ev1.k) /\ Known /\ Judge(Ev1, Quiet(Ev1))
TFree  == Is("free") /\ FreeMemory(Ev1.c) /\ UNCHANGED slot /\ obs' = ObsAfter(Ev1) /\ hreg' = HregAfter(Ev1)
          /\ Judge(Ev1, Same(obs', hreg', 0) \o Quiet(Ev1))
TReset == Is("reset") /\ ResetVars(Ev1.c) /\ UNCHANGED slot /\ obs' = ObsAfter(Ev1) /\ hreg' = HregAfter(Ev1)
          /\ Judge(Ev1, Same(obs', hreg', 0) \o Quiet(Ev1))
TGram  == Is("gram") /\ SetGram(Ev1.c, Ev1.g) /\ Known /\ Judge(Ev1, Quiet(Ev1))
TLocale == Is("locale") /\ HostLocale /\ Known /\ Judge(Ev1, <<>>)
TFault == Is("fault") /\ AllocFail(Ev1.on = 1) /\ Known /\ Judge(Ev1, <<>>)

(* Run-length encoded contents of a range of cells: runs of <<lo, hi, value>>.  Reading allocates blocks. *)
TScan == /\ Is("scan") /\ UNCHANGED <<code, bufs, glob, gens, reply>> /\ Known
         /\ ctx' = [ctx EXCEPT ![Ev1.c].err = NoError]    \* the inspection program was compiled
         /\ LET b == IF Ev1.w = "m" THEN <<"c", Ev1.c>> ELSE ctx[Ev1.c].g
                wrong == {i \in 1..Len(Ev1.runs) : LET r == Ev1.runs[i] IN ~MAll(Mem(b), r[1], r[2], <<r[3], r[4]>>)}
            IN /\ store' = Touch(store, Blocks(b, Ev1.lo, Ev1.hi))
               /\ Judge(Ev1, <<<<Ev1.ok = 1, "inspection failed">>, <<wrong = {}, <<"cells", b, {<<Ev1.runs[i][1], Ev1.runs[i][2],
                                                            FStr(<<Ev1.runs[i][3], Ev1.runs[i][4]>>)>> : i \in wrong}>>>>>>
                             \o Quiet(Ev1))

(* A large program of simple shape, checked without building its tree.  Ev1.kind: "sum" of n times a variable holding x,
   n "par"entheses around it, a "list" of n increments of it, "neg" n signs before it. *)
TDeep == /\ Is("deep") /\ UNCHANGED api /\ Known
         /\ LET n == FFromInt(Ev1.n)
                r == CASE Ev1.kind = "sum" -> Rd(FMul(n, Ev1.x))
                       [] Ev1.kind = "list" -> Rd(FAdd(n, Ev1.x))
                       [] Ev1.kind = "neg" -> IF Ev1.n % 2 = 0 THEN Ev1.x ELSE FNeg(Ev1.x)
                       [] OTHER -> Ev1.x
            IN Judge(Ev1, <<<<Ev1.ok = 1 \/ (Ev1.kind \in {"par", "neg", "not"} /\ Ev1.n > 3000), "does not compile">>,
                            <<Ev1.ok = 0 \/ Shim \/ FSame(Ev1.res, r), <<"result", FStr(Ev1.res), "expected", FStr(r)>>>>>>
                          \o Quiet(Ev1))

(* All code, contexts and buffers of the history are destroyed. *)
TEnd == /\ Is("end") /\ UNCHANGED api /\ Known
        /\ Judge(Ev1, <<<<DOMAIN ctx = {} /\ DOMAIN code = {} /\ bufs = {} /\ glob = 0 => Ev1.live = 0,
                          <<"allocations left", Ev1.live>>>>>>)

TraceNext == \/ TNew \/ TSkip \/ TCrash \/ TBuf \/ TDbuf \/ TCtx \/ TDctx \/ TGlob \/ TReg \/ TSet \/ TComp \/ TErr
             \/ TExec \/ TDcode \/ TFree \/ TReset \/ TGram \/ TLocale \/ TFault \/ TScan \/ TDeep \/ TDrawn \/ TEnd
TraceSpec == TraceInit /\ [][TraceNext]_vars

(* Every event was explained by an action. *)
TraceDone == /\ PrintT(<<"DONE", TLCGet("stats").diameter - 1, Len(Trace)>>)
             /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
