------------------------------ MODULE EelLock ------------------------------
(* How a call may use the host's mutex.

   What a call does is observed as a sequence of <<kind, block>>: "L" acquires
   the mutex, "U" releases it, "N" makes a block of cells, "F" frees one, "G"
   frees one which was in no buffer any more when the call released the mutex.
   "P": the blocks in some buffer were changed while nobody held the mutex; "D":
   a freed block stayed in its buffer when the mutex was released, and the
   buffer exists longer than the call.
   Blocks belong to buffers which other threads may be looking at, so they are
   made and freed while holding the mutex; only a block which the same call
   made and did not give to a buffer yet, or took out of its buffer while
   holding the mutex, is its own business.                                    *)
EXTENDS Integers, Sequences

LockStart == [held |-> FALSE, own |-> {}, why |-> {}]
LockStep(s, e) ==
  CASE e[1] = "L" -> [held |-> TRUE, own |-> {}, why |-> s.why \cup IF s.held THEN {"acquired twice"} ELSE {}]
    [] e[1] = "U" -> [s EXCEPT !.held = FALSE, !.why = @ \cup IF s.held THEN {} ELSE {"released without being held"}]
    [] e[1] = "N" -> IF s.held THEN s ELSE [s EXCEPT !.own = @ \cup {e[2]}]
    [] e[1] = "F" -> IF s.held THEN s
                     ELSE IF e[2] \in s.own THEN [s EXCEPT !.own = @ \ {e[2]}]
                     ELSE [s EXCEPT !.why = @ \cup {"block freed without the lock"}]
    [] e[1] = "G" -> s
    [] e[1] = "P" -> [s EXCEPT !.why = @ \cup {"blocks of a buffer changed without the lock"}]
    [] e[1] = "D" -> [s EXCEPT !.why = @ \cup {"freed block left in a buffer when the lock was released"}]
RECURSIVE LockRun(_, _, _)
LockRun(es, i, s) == IF i > Len(es) THEN s ELSE LockRun(es, i + 1, LockStep(s, es[i]))
(* what is wrong with a call *)
LockFaults(es) ==
  IF es = <<>> THEN {}
  ELSE LET s == LockRun(es, 1, LockStart) IN
       s.why \cup (IF s.held THEN {"not released"} ELSE {}) \cup (IF s.own # {} THEN {"block added without the lock"} ELSE {})
=============================================================================
