------------------------------- MODULE MC_Api -------------------------------
(* All histories of a few contexts, buffers and pieces of code: every reachable
   state of EelApi for small constants, and every call possible in it.

   TLC checks that the specification itself has the isolation properties it is
   meant to express, and prints every transition; harness/models.py builds
   histories which cover these transitions and replays them on the library.

   op  the last call: <<name, arguments...>>                                  *)
EXTENDS EelApi, Json, IOUtils, TLCExt

CONSTANTS MaxCtx, MaxBuf, MaxReg, MaxCode, MaxGens, WithShim

VARIABLE op

Progs == ndJsonDeserialize(IOEnv.MCIN)          \* byte sequences
Ctxs == 1..MaxCtx
Codes == 1..MaxCode

View == <<ctx, code, store, bufs, glob, gens>>
Init == ApiInit /\ op = <<"init">>

Next ==
  \/ \E b \in 1..MaxBuf : NewBuffer(b) /\ op' = <<"B", b>>
  \/ \E b \in 1..MaxBuf : DestroyBuffer(b) /\ op' = <<"b", b>>
  \/ \E c \in Ctxs, g \in IF WithShim THEN {0} ELSE 0..MaxBuf, r \in 0..MaxReg :
        /\ \A k \in DOMAIN code : code[k].c # c          \* numbers of contexts are not reused while code of theirs exists
        /\ NewContext(c, g, r) /\ op' = <<"C", c, g, r>>
  \/ \E c \in Ctxs : DestroyContext(c) /\ op' = <<"c", c>>
  \/ glob # 0 /\ DestroyGlobal /\ op' = <<"G">>
  \/ \E c \in Ctxs, k \in Codes, p \in 1..Len(Progs) :
        Compile(c, k, Progs[p]) /\ op' = <<"P", k, c, p>>
  \/ \E k \in Codes : Execute(k, <<>>) /\ op' = <<"X", k>>
  \/ \E k \in Codes : DestroyCode(k) /\ op' = <<"p", k>>
  \/ \E c \in Ctxs : FreeMemory(c) /\ op' = <<"F", c>>
  \/ \E c \in Ctxs : ResetVars(c) /\ op' = <<"Z", c>>
  \/ WithShim /\ \E c \in Ctxs, g \in 1..MaxBuf : SetGram(c, g) /\ op' = <<"S", c, g>>
Spec == Init /\ [][Next]_<<ctx, code, store, bufs, glob, gens, reply, op>>

Bounded == gens <= MaxGens
Log == PrintT(<<"E", TLCFP(View), TLCFP(<<View, 1>>), TLCFP(View'), TLCFP(<<View', 1>>), op'>>)

-----------------------------------------------------------------------------
(* Everything that exists belongs to something alive. *)
NoGarbage ==
  /\ DOMAIN store.m = {<<"c", c>> : c \in DOMAIN ctx} \cup {<<"h", b>> : b \in bufs} \cup (IF glob = 0 THEN {} ELSE {<<"g", glob>>})
  /\ \A k \in DOMAIN store.v : k[1] < 0 \/ k[1] \in DOMAIN ctx
  /\ \A a \in store.al : a[1] \in DOMAIN store.m
(* A context's buffers exist; contexts on the built-in buffer share it. *)
Sane == \A c \in DOMAIN ctx : /\ ctx[c].g \in DOMAIN store.m
                              /\ ctx[c].g[1] = "g" => ctx[c].g[2] = glob
                              /\ store.hz = ""

SameVars(ks) == \A k \in DOMAIN store.v \cap ks : k \in DOMAIN store'.v /\ store'.v[k] = store.v[k]
SameMem(bs) == \A b \in DOMAIN store.m \cap bs : b \in DOMAIN store'.m /\ store'.m[b] = store.m[b]
AllVars == DOMAIN store.v
AllBufs == DOMAIN store.m
Own(c) == {k \in AllVars : k[1] = c}
Regs(r) == {k \in AllVars : k[1] = RegOwner(r)}

(* V03, M05, L10, M04 as properties of single calls *)
ResetExact == [][op'[1] = "Z" => /\ \A k \in Own(op'[2]) : store'.v[k] = F0
                                 /\ SameVars(AllVars \ Own(op'[2])) /\ store'.m = store.m /\ code' = code /\ ctx' = ctx]_op
FreeExact == [][op'[1] = "F" => /\ store'.m[<<"c", op'[2]>>] = EmptyMem
                                /\ SameMem(AllBufs \ {<<"c", op'[2]>>}) /\ store'.v = store.v /\ code' = code /\ ctx' = ctx]_op
GlobalExact == [][op'[1] = "G" => /\ SameMem(AllBufs \ {<<"g", glob>>}) /\ store'.v = store.v]_op
FailedCompile == [][op'[1] = "P" /\ reply'[1] = "fail" => /\ store' = store /\ code' = code
                                                          /\ \A c \in DOMAIN ctx : c # op'[3] => ctx'[c] = ctx[c]]_op
CompileQuiet == [][op'[1] = "P" => /\ SameVars(AllVars) /\ store'.m = store.m /\ \A k \in DOMAIN code : code'[k] = code[k]]_op
ExecuteLocal == [][op'[1] = "X" => LET c == code[op'[2]].c IN
                     /\ SameVars(AllVars \ (Own(c) \cup Regs(ctx[c].r)))
                     /\ SameMem(AllBufs \ {<<"c", c>>, code[op'[2]].g})
                     /\ ctx' = ctx /\ code' = code]_op
NewQuiet == [][op'[1] \in {"B", "C"} => SameVars(AllVars) /\ SameMem(AllBufs) /\ code' = code]_op
FreshGlobal == [][op'[1] = "C" /\ glob' # glob => store'.m[<<"g", glob'>>] = EmptyMem]_op
DestroyLocal == [][op'[1] = "c" => /\ SameVars(AllVars \ Own(op'[2])) /\ SameMem(AllBufs \ {<<"c", op'[2]>>}) /\ code' = code]_op
=============================================================================
