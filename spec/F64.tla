-------------------------------- MODULE F64 --------------------------------
(* Numeric kernel: IEEE-754 binary64 values are pairs <<hi, lo>> of 32-bit
   integers (TLC integers are 32 bit wide).  The arithmetic is the standard's
   and is delegated to the Java class F64 (java/F64.java), which TLC loads as
   the override of this module; the definitions below only fail loudly if the
   override is missing.                                                      *)
EXTENDS Integers, Sequences, TLC

LOCAL Missing == Assert(FALSE, "Java override F64 is not on the class path")

FLoaded == FALSE
FAdd(a, b) == Missing        FSub(a, b) == Missing
FMul(a, b) == Missing        FDiv(a, b) == Missing
FNeg(a) == Missing           FAbs(a) == Missing
FSqrt(a) == Missing          FFloor(a) == Missing
FCeil(a) == Missing          FTrunc(a) == Missing
FSin(a) == Missing           FCos(a) == Missing
FTan(a) == Missing           FAsin(a) == Missing
FAcos(a) == Missing          FAtan(a) == Missing
FAtan2(a, b) == Missing      FExp(a) == Missing
FLog(a) == Missing           FLog10(a) == Missing
FPow(a, b) == Missing
FLt(a, b) == Missing         FLe(a, b) == Missing
FEq(a, b) == Missing         FIsNaN(a) == Missing
FIsFinite(a) == Missing
FSame(a, b) == Missing       \* equal values; zeros of any sign; any two NaNs
FNear(a, b, e) == Missing    \* equal up to a relative error of 10^-e
FFromInt(n) == Missing
FFitsInt(a) == Missing       \* trunc(a) is a 32-bit integer
FToInt(a) == Missing         \* trunc(a), saturating
FIAnd(a, b) == Missing       FIOr(a, b) == Missing    \* on trunc(a), trunc(b)
FIRem(a, b) == Missing       \* remainder with the sign of the dividend
FRnd32(a) == Missing         \* rounded to binary32
FParseDec(s) == Missing      \* correctly rounded decimal literal (char codes)
FParseHex(s) == Missing      \* hexadecimal digits (char codes)
FStr(a) == Missing           \* for diagnostics
CodesToStr(s) == Missing     \* char codes to a string
StrToCodes(s) == Missing

(* constants *)
F0   == <<0, 0>>
F1   == <<1072693248, 0>>
FM1  == <<-1074790400, 0>>
=============================================================================
