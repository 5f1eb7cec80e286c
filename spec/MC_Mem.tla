------------------------------- MODULE MC_Mem -------------------------------
(* EelMem represents the 2^23 cells of a buffer by the operations on them.
   Here a buffer has a few cells, and every sequence of Depth operations with
   every argument, inside, outside and across the ends of the buffer, is
   executed three times: on EelMem's representation, on a plain array of cells
   following the definition of memset and memcpy cell by cell, and on the array
   the way the library does it, in pieces which do not cross the borders of
   blocks of Block cells, from the front or from the back.

   The sequences are printed and replayed on the library with the few cells laid
   at the front, at the end and across a border of blocks of the real buffer.  *)
EXTENDS EelMem, Integers, Sequences, TLC

CONSTANTS Block, Depth, Below, High, Most, How

VARIABLES m,       \* EelMem's representation
          n,       \* plain cells
          full,    \* whether the cells were 1, 2, ... at first, not 0
          ops      \* what was done

I(x) == FFromInt(x)
All == 0..(Cells - 1)
Values == {5, 6}
Args == (-Below)..High
Counts == (-1)..Most

(* what memset and memcpy mean *)
PlainSet(c, d, v, k) == [i \in All |-> IF i >= d /\ i < d + k THEN v ELSE c[i]]
PlainMove(c, d, s, k) == [i \in All |-> IF i >= d /\ i < d + k /\ s + (i - d) \in All THEN c[s + (i - d)] ELSE c[i]]

(* how the library does it *)
Least(x, y) == IF x < y THEN x ELSE y
Piece(c, d, s, k) == [i \in All |-> IF i >= d /\ i < d + k THEN c[s + (i - d)] ELSE c[i]]        \* within blocks
RECURSIVE FromBack(_, _, _, _), FromFront(_, _, _, _), SetPieces(_, _, _, _)
FromBack(c, d, s, k) ==
  IF k <= 0 THEN c
  ELSE LET len == Least(k, Least(((d + k - 1) % Block) + 1, ((s + k - 1) % Block) + 1))
       IN FromBack(Piece(c, d + k - len, s + k - len, len), d, s, k - len)
FromFront(c, d, s, k) ==
  IF k <= 0 THEN c
  ELSE LET len == Least(k, Least(Block - (d % Block), Block - (s % Block)))
       IN FromFront(Piece(c, d, s, len), d + len, s + len, k - len)
LibMove(c, d0, s0, k0) ==
  LET d1 == IF s0 < 0 THEN d0 - s0 ELSE d0
      s1 == IF s0 < 0 THEN 0 ELSE s0
      k1 == IF s0 < 0 THEN k0 + s0 ELSE k0
      d2 == IF d1 < 0 THEN 0 ELSE d1
      s2 == IF d1 < 0 THEN s1 - d1 ELSE s1
      k2 == IF d1 < 0 THEN k1 + d1 ELSE k1
      k3 == Least(k2, Cells - d2)
      k4 == Least(k3, Cells - s2)
      k == IF How = "untrimmed" THEN k3 ELSE k4
  IN IF d2 > s2 /\ How # "front" THEN FromBack(c, d2, s2, k) ELSE FromFront(c, d2, s2, k)
SetPieces(c, d, v, k) ==
  IF k <= 0 THEN c
  ELSE LET len == Least(k, Block - (d % Block)) IN SetPieces([i \in All |-> IF i >= d /\ i < d + len THEN v ELSE c[i]], d + len, v, k - len)
LibSet(c, d0, v, k0) ==
  LET d == IF d0 < 0 THEN 0 ELSE d0
      k == IF d0 < 0 THEN k0 + d0 ELSE k0
  IN IF d >= Cells THEN c ELSE SetPieces(c, d, v, IF d + k > Cells THEN Cells - d ELSE k)

-----------------------------------------------------------------------------
Full == [i \in All |-> I(i + 1)]
Init == /\ ops = <<>>
        /\ full \in BOOLEAN
        /\ m = (IF full THEN <<<<"w", Full>>>> ELSE EmptyMem)
        /\ n = (IF full THEN Full ELSE [i \in All |-> F0])
Did(o) == ops' = Append(ops, o)
Next ==
  /\ Len(ops) < Depth /\ UNCHANGED full
  /\ \/ \E i \in All : m' = MWrite(m, i, I(7)) /\ n' = [n EXCEPT ![i] = I(7)] /\ Did(<<"w", i>>)
     \/ \E d \in Args, v \in Values, k \in Counts :
          /\ m' = MSet(m, I(d), I(v), I(k)) /\ n' = PlainSet(n, d, I(v), k) /\ Did(<<"s", d, v, k>>)
          /\ Assert(LibSet(n, d, I(v), k) = n', <<"memset in pieces", n, d, v, k>>)
     \/ \E d \in Args, s \in Args, k \in Counts :
          /\ m' = MMove(m, I(d), I(s), I(k)) /\ n' = PlainMove(n, d, s, k) /\ Did(<<"m", d, s, k>>)
          /\ Assert(LibMove(n, d, s, k) = n', <<"memcpy in pieces", n, d, s, k>>)
Spec == Init /\ [][Next]_<<m, n, full, ops>>

Same == \A i \in All : FSame(MRead(m, i), n[i]) /\ ~MUnspec(m, i)
Ranges == \A lo \in 0..Cells, hi \in 0..Cells, v \in {F0, I(5), I(7), I(2)} :
            lo <= hi => (MAll(m, lo, hi, v) <=> \A i \in lo..(hi - 1) : FSame(n[i], v))
Log == Len(ops') = Depth => PrintT("O" \o ToString(<<full, ops'>>))
=============================================================================
