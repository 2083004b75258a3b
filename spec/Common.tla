------------------------------- MODULE Common -------------------------------
(***************************************************************************)
(* Helpers shared by all specifications of this directory.                  *)
(*                                                                          *)
(* Every specification is a state machine whose variable `hist' records the *)
(* calls made so far: a sequence of [op, a, e] records (operation, its       *)
(* arguments, and what the specification says a caller must observe).        *)
(* `hist' never influences a transition; exhaustive configurations hide it   *)
(* with a VIEW.  EmitT / Stop hand finished histories to the replay driver.  *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sim,     \* TRUE: random simulation, FALSE: exhaustive search
          MaxLen   \* number of operations of a history

Range(s) == {s[i] : i \in 1..Len(s)}

\* One of the elements of the sequence s.
Pick(s) == IF Sim THEN {s[RandInt(1, Len(s))]} ELSE Range(s)
PickN(lo, hi) == IF Sim THEN {RandInt(lo, hi)} ELSE lo..hi
\* A sequence of n elements of s.
PickVec(n, s) == IF Sim THEN {TLCEval([i \in 1..n |-> s[RandInt(1, Len(s))]])}
                        ELSE [1..n -> Range(s)]
\* An r x c matrix of elements of s (simulation) / all such matrices.
PickMat(r, c, s) == IF Sim
   THEN {TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> s[RandInt(1, Len(s))]])])}
   ELSE [1..r -> [1..c -> Range(s)]]

\* TRUE once in k times (simulation); always in exhaustive search.
Often(k) == Sim => RandInt(1, k) = 1

Step(o, args, exp) == [op |-> o, a |-> args, e |-> exp]

Force(f) == TLCEval(f)

\* Sequence helpers
RECURSIVE FoldSeq(_, _, _)
FoldSeq(Op(_, _), acc, s) == IF s = <<>> THEN acc ELSE FoldSeq(Op, Op(acc, Head(s)), Tail(s))
MapSeq(F(_), s) == Force([i \in 1..Len(s) |-> F(s[i])])
MinSet(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxSet(S) == CHOOSE x \in S : \A y \in S : y <= x

\* Vectors of rationals
VSum(v)      == RSum(v)
VAdd(v, w)   == Force([i \in 1..Len(v) |-> RAdd(v[i], w[i])])
VSub(v, w)   == Force([i \in 1..Len(v) |-> RSub(v[i], w[i])])
VScale(c, v) == Force([i \in 1..Len(v) |-> RMul(c, v[i])])
VConst(n, c) == Force([i \in 1..n |-> c])
Normal(v)    == LET s == RSum(v) IN Force([i \in 1..Len(v) |-> RDiv(v[i], s)])
Uniform(n)   == VConst(n, RFrac(1, n))

\* A draw u is usable when it is 0 or keeps a margin from every border of the
\* cumulative sums: there any rounding of the sums selects the same interval.
Margin == "1/100000000"
RECURSIVE CumFrom(_, _, _)
CumFrom(p, i, acc) == IF i > Len(p) THEN <<>>
   ELSE LET c == Force(RAdd(acc, p[i])) IN <<c>> \o CumFrom(p, i + 1, c)
Cum(p) == Force(CumFrom(p, 1, "0"))
Clear(c, u) == \/ u = "0"
               \/ /\ RLe(Margin, u) /\ RLe(u, "1")
                  /\ \A i \in 1..Len(c) : RLe(Margin, RAbs(RSub(c[i], u)))
\* Inversion: the first index whose cumulative sum exceeds the draw (from 1).
Invert(c, u) == MinSet({i \in 1..Len(c) : RLt(u, c[i])})
InvertP(p, u) == Invert(Cum(p), u)

\* Ripley's ordered uniforms made from n independent ones
RECURSIVE RipleyFrom(_, _)
RipleyFrom(u, i) == IF i > Len(u) THEN <<>>
   ELSE LET rest == Force(RipleyFrom(u, i + 1))
            r == Force(RRoot(u[i], i))
        IN  <<IF rest = <<>> THEN r ELSE RRound(RMul(r, rest[1]))>> \o rest
Ripley(u) == Force(RipleyFrom(u, 1))
=============================================================================
