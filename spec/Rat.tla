-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic for TLC.  A rational is a canonical string     *)
(* "n/d" (lowest terms, d > 1) or "n".  TLC's integers are 32 bit, so the    *)
(* operators below are overridden by Rat.java (arbitrary precision).  The    *)
(* module RatSelf checks the overrides against plain integer definitions.    *)
(* RSqrt/RExp/RLn/RRoot are exact where the result is rational and otherwise *)
(* correct to 40 significant digits (see RatSelf for their defining laws).   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

RFrac(n, d)  == Print("Rat override missing", FALSE)   \* the rational n/d, n d integers
RAdd(a, b)   == Print("Rat override missing", FALSE)
RSub(a, b)   == Print("Rat override missing", FALSE)
RMul(a, b)   == Print("Rat override missing", FALSE)
RDiv(a, b)   == Print("Rat override missing", FALSE)
RLt(a, b)    == Print("Rat override missing", FALSE)
RLe(a, b)    == Print("Rat override missing", FALSE)
RSqrt(a)     == Print("Rat override missing", FALSE)
RExp(a)      == Print("Rat override missing", FALSE)
RLn(a)       == Print("Rat override missing", FALSE)
RSin(a)      == Print("Rat override missing", FALSE)
RCos(a)      == Print("Rat override missing", FALSE)
RRoot(a, n)  == Print("Rat override missing", FALSE)   \* a^(1/n), a >= 0
RPi(x)       == Print("Rat override missing", FALSE)
RRound(a)    == Print("Rat override missing", FALSE)   \* 40 significant digits
RFloor(a)    == Print("Rat override missing", FALSE)   \* largest integer not above a, as a rational
RIsSquare(a) == Print("Rat override missing", FALSE)   \* a is the square of a rational
RSum(s)      == Print("Rat override missing", FALSE)   \* sum of a sequence
RDot(s, t)   == Print("Rat override missing", FALSE)   \* inner product of sequences
MMul(a, b)   == Print("Rat override missing", FALSE)   \* matrices: sequences of rows
MDet(a)      == Print("Rat override missing", FALSE)
MInv(a)      == Print("Rat override missing", FALSE)
RandInt(lo, hi) == Print("Rat override missing", FALSE) \* simulation only
Emit(s)      == Print("Rat override missing", FALSE)   \* append a line to the trace file

RInt(n)  == RFrac(n, 1)
RNeg(a)  == RSub("0", a)
RAbs(a)  == IF RLt(a, "0") THEN RNeg(a) ELSE a
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(a, b) THEN a ELSE b
RSq(a)   == RMul(a, a)
=============================================================================
