------------------------------- MODULE EelMem -------------------------------
(* The contents of one memory buffer.

   A memory is a sequence of layers, newest first:
     <<"w", f>>         cells written one by one, f is a function index -> value
     <<"f", lo, hi, v>> cells lo..hi-1 filled with v
     <<"c", lo, hi, d>> cells lo..hi-1 are copies of what the older layers hold
                        at index - d
     <<"u", lo, hi>>    cells lo..hi-1 hold something unspecified (only after
                        allocation failures)
   A cell no layer mentions reads 0.  This represents 2^23 cells exactly, with
   cost proportional to the number of operations, not of cells.               *)
EXTENDS F64, FiniteSets, FiniteSetsExt

CONSTANTS Cells,        \* number of cells of a buffer, 2^23
          RoundIndex    \* indices are rounded as documented, not truncated

EmptyMem == <<>>
EmptyFcn == [i \in {} |-> F0]

RECURSIVE MRead(_, _)
MRead(m, i) ==
  IF m = <<>> THEN F0
  ELSE LET h == Head(m) IN
    CASE h[1] = "w" -> IF i \in DOMAIN h[2] THEN h[2][i] ELSE MRead(Tail(m), i)
      [] h[1] = "f" -> IF i >= h[2] /\ i < h[3] THEN h[4] ELSE MRead(Tail(m), i)
      [] h[1] = "c" -> IF i >= h[2] /\ i < h[3] THEN MRead(Tail(m), i - h[4]) ELSE MRead(Tail(m), i)
      [] h[1] = "u" -> MRead(Tail(m), i)

RECURSIVE MUnspec(_, _)
MUnspec(m, i) ==
  IF \A j \in 1..Len(m) : m[j][1] # "u" THEN FALSE
  ELSE LET h == Head(m) IN
    CASE h[1] = "w" -> i \notin DOMAIN h[2] /\ MUnspec(Tail(m), i)
      [] h[1] = "f" -> ~(i >= h[2] /\ i < h[3]) /\ MUnspec(Tail(m), i)
      [] h[1] = "c" -> MUnspec(Tail(m), IF i >= h[2] /\ i < h[3] THEN i - h[4] ELSE i)
      [] h[1] = "u" -> (i >= h[2] /\ i < h[3]) \/ MUnspec(Tail(m), i)

MWrite(m, i, v) ==
  IF m # <<>> /\ Head(m)[1] = "w" /\ Cardinality(DOMAIN Head(m)[2]) < 400
  THEN LET f == Head(m)[2] IN <<<<"w", [j \in DOMAIN f \cup {i} |-> IF j = i THEN v ELSE f[j]]>>>> \o Tail(m)
  ELSE <<<<"w", [j \in {i} |-> v]>>>> \o m

(* the part of lo..hi-1 in the given blocks becomes unspecified *)
MLoose(m, lo, hi, blocks) ==
  FoldSet(LAMBDA k, acc : LET a == IF lo > k * 65536 THEN lo ELSE k * 65536
                              b == IF hi < (k + 1) * 65536 THEN hi ELSE (k + 1) * 65536
                          IN IF a >= b THEN acc ELSE <<<<"u", a, b>>>> \o acc, m, blocks)

(* forget the latest entries while they only concern cells in lo..hi-1 *)
RECURSIVE MForget(_, _, _)
MForget(m, lo, hi) ==
  IF m = <<>> THEN m
  ELSE LET h == Head(m) IN
       IF IF h[1] = "w" THEN \A j \in DOMAIN h[2] : j >= lo /\ j < hi ELSE h[2] >= lo /\ h[3] <= hi
       THEN MForget(Tail(m), lo, hi) ELSE m

(* lo <= hi, both within 0..Cells *)
MFill(m, lo, hi, v) == IF lo >= hi THEN m ELSE <<<<"f", lo, hi, v>>>> \o MForget(m, lo, hi)
MCopy(m, lo, hi, d) == IF lo >= hi \/ d = 0 THEN m
                       ELSE <<<<"c", lo, hi, d>>>> \o (IF lo - d >= hi \/ hi - d <= lo THEN MForget(m, lo, hi) ELSE m)

(* All cells lo..hi-1 hold v. *)
RECURSIVE MAll(_, _, _, _)
MAll(m, lo, hi, v) ==
  IF lo >= hi THEN TRUE
  ELSE IF m = <<>> THEN FSame(v, F0)
  ELSE LET h == Head(m) IN
    IF h[1] = "w"
    THEN LET in == {j \in DOMAIN h[2] : j >= lo /\ j < hi} IN
         IF in = {} THEN MAll(Tail(m), lo, hi, v)
         ELSE LET j == Min(in) IN FSame(h[2][j], v) /\ MAll(Tail(m), lo, j, v) /\ MAll(m, j + 1, hi, v)
    ELSE LET a == IF h[2] > lo THEN h[2] ELSE lo
             b == IF h[3] < hi THEN h[3] ELSE hi
         IN IF a >= b THEN MAll(Tail(m), lo, hi, v)
            ELSE /\ CASE h[1] = "f" -> FSame(h[4], v)
                      [] h[1] = "c" -> MAll(Tail(m), a - h[4], b - h[4], v)
                      [] h[1] = "u" -> TRUE
                 /\ MAll(Tail(m), lo, a, v)
                 /\ MAll(Tail(m), b, hi, v)

-----------------------------------------------------------------------------
Half0 == FParseDec(<<48, 46, 53>>)
FRound(v) == IF FLt(v, F0) THEN FTrunc(FSub(v, Half0)) ELSE FTrunc(FAdd(v, Half0))
(* Numbers used as indices and counts: truncated toward zero after moving them
   0.0001 away from it; +-2^53 for anything larger, -2^53 for NaN.             *)
Nudge == FParseDec(<<48, 46, 48, 48, 48, 49>>)
Lim   == FParseDec(<<57,48,48,55,49,57,57,50,53,52,55,52,48,57,57,50>>)   \* 2^53
FIndex(v) ==
  LET w == IF FLt(v, F0) THEN FSub(v, Nudge) ELSE FAdd(v, Nudge)
  IN IF FIsNaN(w) \/ FLe(w, FNeg(Lim)) THEN FNeg(Lim)
     ELSE IF FLe(Lim, w) THEN Lim ELSE IF RoundIndex THEN FRound(v) ELSE FTrunc(w)

FCells == FFromInt(Cells)
InRange(x) == FLe(F0, x) /\ FLt(x, FCells)
(* clip an index to 0..Cells *)
Clip(x) == IF FLt(x, F0) THEN 0 ELSE IF FLt(FCells, x) THEN Cells ELSE FToInt(x)

(* memset(dest, v, count) *)
MSet(m, dest, v, count) ==
  LET d == FIndex(dest)  n == FIndex(count) IN MFill(m, Clip(d), Clip(FAdd(d, n)), v)

(* memcpy(dest, src, count): the k with 0 <= k < count for which both dest + k and src + k are cells. *)
MMove(m, dest, src, count) ==
  LET d == FIndex(dest)  s == FIndex(src)  n == FIndex(count)
      lowest == IF FLt(d, s) THEN d ELSE s
      k0 == IF FLt(lowest, F0) THEN FNeg(lowest) ELSE F0
      dlo == FAdd(d, k0)
      slo == FAdd(s, k0)
      left == FSub(n, k0)
      most == IF FLt(dlo, slo) THEN FSub(FCells, slo) ELSE FSub(FCells, dlo)
      len == IF FLt(left, most) THEN left ELSE most
  IN IF FLe(len, F0) THEN m
     ELSE MCopy(m, FToInt(dlo), FToInt(FAdd(dlo, len)), FToInt(FSub(dlo, slo)))
=============================================================================
