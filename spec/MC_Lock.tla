------------------------------ MODULE MC_Lock ------------------------------
(* Several threads using one buffer, step by step: looking for the block,
   acquiring the mutex, looking again, making the block, publishing it,
   releasing the mutex, accessing the cell.

   TLC explores every interleaving of every assignment of programs to threads,
   with memory running out at any moment if Faults, and checks that the buffer
   behaves like an array of cells accessed at once (C01), that no block is made
   twice, that every call uses the mutex as EelLock demands (C02), that nobody
   waits for ever, and that a failed allocation is like an access outside the
   buffer (F01).  The built-in global buffer (C03) is made by the same protocol:
   op "g" asks for block 1 itself.

   Alg is "double", what the code does, or another algorithm: "locked" and
   "early" are right as well, the others are wrong and must be found out.

   Operation <<"w", i, j>> writes the thread's number to the j-th cell of block
   i, <<"r", i, j>> reads it.  If Private, threads only use cells of their own;
   these programs are replayed on the library in every interleaving, which the
   transitions printed by Log describe.                                       *)
EXTENDS EelLock, FiniteSets, TLC, TLCExt

CONSTANTS Threads, OpsEach, Alg, Faults, Global, Private

VARIABLES prog,    \* thread -> its operations
          at,      \* thread -> number of the current one
          pc,      \* thread -> where it is in it
          got,     \* thread -> the block it found or made, 0: none
          log,     \* thread -> what it did to the mutex and the blocks in this call
          lock,    \* the thread holding the mutex, 0: none
          blocks,  \* buffer: index -> block, 0: none
          cells,   \* block -> values of its two cells
          made,    \* index -> number of blocks published there
          ids,     \* blocks made so far
          ideal,   \* what the cells should hold
          full,    \* no more memory
          wrong    \* what went wrong
vars == <<prog, at, pc, got, log, lock, blocks, cells, made, ids, ideal, full, wrong>>

T == 1..Threads
Idx == 0..1
Ops(t) == IF Global THEN {<<"g", 0, 1>>}
          ELSE IF Private THEN {<<"w", 0, t>>, <<"w", 1, t>>, <<"r", 0, t>>}
          ELSE {<<"w", 0, 1>>, <<"w", 0, 2>>, <<"w", 1, 1>>, <<"r", 0, 1>>, <<"r", 1, 1>>}
Op(t) == prog[t][at[t]]
Blk(t) == Op(t)[2]
Done(t) == at[t] > Len(prog[t])

Init == /\ prog \in [T -> UNION {[1..OpsEach -> Ops(t)] : t \in T}] /\ \A t \in T : prog[t] \in [1..OpsEach -> Ops(t)]
        /\ at = [t \in T |-> 1] /\ pc = [t \in T |-> "start"] /\ got = [t \in T |-> 0] /\ log = [t \in T |-> <<>>]
        /\ lock = 0 /\ blocks = [i \in Idx |-> 0] /\ cells = <<>> /\ made = [i \in Idx |-> 0] /\ ids = 0
        /\ ideal = [i \in Idx |-> [j \in T |-> 0]] /\ full = FALSE /\ wrong = {}

Go(t, where) == pc' = [pc EXCEPT ![t] = where]
Note(t, k, b) == log' = [log EXCEPT ![t] = Append(@, <<k, b>>)]
Same(xs) == UNCHANGED xs

(* the first look, without the mutex *)
Look(t) == /\ pc[t] = "start" /\ ~Done(t)
           /\ IF Alg = "locked" THEN got' = got /\ Go(t, "lock")
              ELSE /\ got' = [got EXCEPT ![t] = blocks[Blk(t)]]
                   /\ Go(t, IF blocks[Blk(t)] # 0 THEN "access"
                            ELSE IF Alg \in {"early", "nolock"} THEN "make" ELSE "lock")
           /\ Same(<<prog, at, log, lock, blocks, cells, made, ids, ideal, full, wrong>>)
(* acquiring the mutex, and the second look *)
Acquire(t) == /\ pc[t] = "lock" /\ lock = 0
              /\ lock' = t /\ Note(t, "L", 0)
              /\ IF Alg = "early"
                 THEN Same(got) /\ Go(t, IF blocks[Blk(t)] # 0 THEN "drop" ELSE "publish")
                 ELSE IF Alg = "norecheck" THEN Same(got) /\ Go(t, "make")
                 ELSE /\ got' = [got EXCEPT ![t] = blocks[Blk(t)]]
                      /\ Go(t, IF blocks[Blk(t)] # 0 THEN "unlock" ELSE IF Alg = "unlocked" THEN "release" ELSE "make")
              /\ Same(<<prog, at, blocks, cells, made, ids, ideal, full, wrong>>)
Make(t) == /\ pc[t] = "make"
           /\ IF full
              THEN /\ got' = [got EXCEPT ![t] = 0]
                   /\ Go(t, IF Alg \in {"early", "nolock", "unlocked"} \/ Alg = "leave" THEN "access" ELSE "unlock")
                   /\ Same(<<log, cells, ids>>)
              ELSE /\ ids' = ids + 1 /\ cells' = Append(cells, [j \in T |-> 0]) /\ Note(t, "N", ids + 1)
                   /\ got' = [got EXCEPT ![t] = ids + 1]
                   /\ Go(t, IF Alg = "early" THEN "lock" ELSE "publish")
           /\ Same(<<prog, at, lock, blocks, made, ideal, full, wrong>>)
Publish(t) == /\ pc[t] = "publish"
              /\ blocks' = [blocks EXCEPT ![Blk(t)] = got[t]] /\ made' = [made EXCEPT ![Blk(t)] = @ + 1]
              /\ Go(t, IF Alg \in {"nolock", "unlocked"} THEN "access" ELSE "unlock")
              /\ Same(<<prog, at, got, log, lock, cells, ids, ideal, full, wrong>>)
(* somebody was faster: give the own block back *)
Discard(t) == /\ pc[t] = "drop"
              /\ Note(t, "F", got[t]) /\ got' = [got EXCEPT ![t] = blocks[Blk(t)]] /\ Go(t, "unlock")
              /\ Same(<<prog, at, lock, blocks, cells, made, ids, ideal, full, wrong>>)
Release(t) == /\ pc[t] \in {"unlock", "release"}
              /\ lock' = 0 /\ Note(t, "U", 0) /\ Go(t, IF pc[t] = "release" THEN "make" ELSE "access")
              /\ Same(<<prog, at, got, blocks, cells, made, ids, ideal, full, wrong>>)
(* the access, and the return to the caller *)
Access(t) ==
  /\ pc[t] = "access"
  /\ LET o == Op(t)  b == got[t]  i == o[2]  j == o[3] IN
     /\ cells' = IF o[1] = "w" /\ b # 0 THEN [cells EXCEPT ![b][j] = t] ELSE cells
     /\ ideal' = IF o[1] = "w" /\ b # 0 THEN [ideal EXCEPT ![i][j] = t] ELSE ideal
     /\ wrong' = wrong \cup LockFaults(log[t])
                       \cup (IF o[1] = "r" /\ b # 0 /\ cells[b][j] # ideal[i][j] THEN {"wrong value"} ELSE {})
                       \cup (IF b = 0 /\ ~full THEN {"no block"} ELSE {})
                       \cup (IF o[1] = "g" /\ b # 0 /\ b # blocks[0] THEN {"another global buffer"} ELSE {})
  /\ at' = [at EXCEPT ![t] = @ + 1] /\ Go(t, "start") /\ log' = [log EXCEPT ![t] = <<>>] /\ got' = [got EXCEPT ![t] = 0]
  /\ Same(<<prog, lock, blocks, made, ids, full>>)
Exhaust == /\ Faults /\ ~full /\ full' = TRUE
           /\ Same(<<prog, at, pc, got, log, lock, blocks, cells, made, ids, ideal, wrong>>)
Step(t) == Look(t) \/ Acquire(t) \/ Make(t) \/ Publish(t) \/ Discard(t) \/ Release(t) \/ Access(t)
Next == \/ \E t \in T : Step(t)
        \/ Exhaust
        \/ (\A t \in T : Done(t)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t))

Right == wrong = {}
Once == \A i \in Idx : made[i] <= 1
(* nothing written gets lost: where a block exists it holds what it should; where none does nothing was stored *)
Kept == \A i \in Idx, j \in T : IF blocks[i] = 0 THEN ideal[i][j] = 0 ELSE cells[blocks[i]][j] = ideal[i][j]
Mutex == \A t \in T : pc[t] \in {"unlock", "release", "drop"} => lock = t
Ends == <>(\A t \in T : Done(t))
N(x) == " " \o ToString(x)
Log == \E t \in T : pc'[t] # pc[t] /\ PrintT("E" \o N(TLCFP(vars)) \o N(TLCFP(<<vars, 1>>)) \o N(TLCFP(vars')) \o N(TLCFP(<<vars', 1>>))
                                          \o N(t) \o N(pc[t]) \o N(prog))
=============================================================================
