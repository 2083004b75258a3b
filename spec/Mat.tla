-------------------------------- MODULE Mat ---------------------------------
(***************************************************************************)
(* Matrices of rationals (sequences of rows), Gaussian densities and the     *)
(* random matrices of the simulations.                                       *)
(***************************************************************************)
EXTENDS Common

Rows(a) == Len(a)
Cols(a) == IF a = <<>> THEN 0 ELSE Len(a[1])
T(a) == Force([j \in 1..Cols(a) |-> [i \in 1..Rows(a) |-> a[i][j]]])
MatVec(a, v) == Force([i \in 1..Rows(a) |-> RDot(a[i], v)])
MAdd(a, b) == Force([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> RAdd(a[i][j], b[i][j])]])
MSub(a, b) == Force([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> RSub(a[i][j], b[i][j])]])
MScale(c, a) == Force([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> RMul(c, a[i][j])]])
Ident(n) == Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN "1" ELSE "0"]])
Zeros(r, c) == Force([i \in 1..r |-> [j \in 1..c |-> "0"]])
MRound(a) == Force([i \in 1..Rows(a) |-> [j \in 1..Cols(a) |-> RRound(a[i][j])]])
VRound(v) == Force([i \in 1..Len(v) |-> RRound(v[i])])
Sandwich(f, p) == MMul(MMul(f, p), T(f))       \* F P F^T
Quad(m, v) == RDot(v, MatVec(m, v))            \* v^T M v
Symmetric(a) == \A i, j \in 1..Rows(a) : a[i][j] = a[j][i]
Sq(l) == MMul(l, T(l))                         \* L L^T
Lead(a, k) == [i \in 1..k |-> [j \in 1..k |-> a[i][j]]]
PosDef(a) == \A k \in 1..Rows(a) : RLt("0", MDet(Force(Lead(a, k))))

\* random matrices (simulation)
One(S) == CHOOSE x \in S : TRUE
RVec(n, s) == Force(One(PickVec(n, s)))
RMat(r, c, s) == Force(One(PickMat(r, c, s)))
\* lower triangular with a positive diagonal
RLow(n, diag, off) == Force([i \in 1..n |-> Force([j \in 1..n |->
    IF i = j THEN diag[RandInt(1, Len(diag))] ELSE IF j < i THEN off[RandInt(1, Len(off))] ELSE "0"])])

\* Density of a Gaussian with covariance L L^T, at distance r from its mean.
RECURSIVE Fwd(_, _, _)
Fwd(l, r, i) == IF i = 0 THEN <<>>
   ELSE LET y == Force(Fwd(l, r, i - 1))
        IN Append(y, RDiv(RSub(r[i], RDot([j \in 1..(i-1) |-> l[i][j]], y)), l[i][i]))
Whiten(l, r) == Force(Fwd(l, r, Len(r)))
Diag(l) == Force([i \in 1..Rows(l) |-> l[i][i]])
Prod(v) == FoldSeq(LAMBDA a, b : RMul(a, b), "1", v)
Root2Pi == RSqrt(RMul("2", RPi(0)))
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN "1" ELSE RMul(x, Pow(x, n - 1))
Dist2(l, r) == LET y == Whiten(l, r) IN RDot(y, y)
DensityL(l, r) == RRound(RDiv(RExp(RMul("-1/2", Dist2(l, r))), RMul(Pow(Root2Pi, Len(r)), Prod(Diag(l)))))
\* the same from the covariance
DensityS(s, r) == RRound(RDiv(RExp(RMul("-1/2", Quad(MInv(s), r))), RMul(Pow(Root2Pi, Len(r)), RSqrt(MDet(s)))))
\* Cholesky factor
RECURSIVE CholRow(_, _, _, _), CholRows(_, _)
CholRow(a, ls, i, j) == IF j = 0 THEN <<>>
  ELSE LET q == Force(CholRow(a, ls, i, j - 1))
           s == RSub(a[i][j], RDot(q, [k \in 1..(j-1) |-> IF j < i THEN ls[j][k] ELSE q[k]]))
       IN Append(q, IF j < i THEN RRound(RDiv(s, ls[j][j])) ELSE RRound(RSqrt(s)))
CholRows(a, i) == IF i = 0 THEN <<>> ELSE LET ls == Force(CholRows(a, i - 1)) IN Append(ls, CholRow(a, ls, i, i))
Chol(a) == LET l == CholRows(a, Rows(a)) IN Force([i \in 1..Rows(a) |-> [j \in 1..Rows(a) |-> IF j <= i THEN l[i][j] ELSE "0"]])
\* well enough conditioned for floating point
RECURSIVE Minors(_, _)
Minors(a, k) == IF k = 0 THEN <<"1">> ELSE Append(Minors(a, k - 1), MDet(Force(Lead(a, k))))
Firm(a) == LET m == Minors(a, Rows(a)) IN \A k \in 1..Rows(a) : RLe(RMul("1/100", m[k]), m[k + 1])
Bounded(a) == \A i \in 1..Rows(a) : \A j \in 1..Rows(a) : RLe(RAbs(a[i][j]), "1000")
=============================================================================
