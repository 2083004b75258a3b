------------------------------ MODULE KfModels ------------------------------
(***************************************************************************)
(* Models and single steps of the extended Kalman filter:                     *)
(*   y_i = sum_j a_ij x_j + c_ij x_j^2 + b u + mu + noise of covariance         *)
(*         (1 + g x_1^2) q                                                     *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Gains, Quads, Diags, Offs, NoiseG

\* ---------------------------------------------------------------- models
RandomM(r, c, k, lin) ==
   [nu |-> k, lin |-> lin, a |-> RMat(r, c, Gains), c |-> IF lin THEN Zeros(r, c) ELSE RMat(r, c, Quads),
    b |-> IF k = 0 THEN <<>> ELSE RMat(r, k, Gains),
    mu |-> RVec(r, Gains), q |-> Sq(RLow(r, Diags, Offs)), g |-> IF lin THEN "0" ELSE One(Pick(NoiseG))]
F(m, x, u) == LET y == Force([i \in 1..Rows(m.a) |-> RAdd(RDot(m.a[i], x), RAdd(RDot(m.c[i], [j \in 1..Len(x) |-> RSq(x[j])]), m.mu[i]))])
              IN IF m.nu = 0 THEN y ELSE VAdd(y, MatVec(m.b, u))
Jac(m, x) == Force([i \in 1..Rows(m.a) |-> [j \in 1..Len(x) |-> RAdd(m.a[i][j], RMul("2", RMul(m.c[i][j], x[j])))]])
Noise(m, x) == IF m.g = "0" THEN m.q ELSE MScale(RAdd("1", RMul(m.g, RSq(x[1]))), m.q)

\* the parts of a model that can be given another value, and such a value
Editable(m) == (IF m.lin THEN <<"a", "mu", "q">> ELSE <<"a", "mu", "q", "c", "g">>) \o (IF m.nu > 0 THEN <<"b">> ELSE <<>>)
NewPart(m, w) == CASE w = "q" -> Sq(RLow(Rows(m.a), Diags, Offs))
                   [] w = "mu" -> RVec(Rows(m.a), Gains)
                   [] w = "g" -> One(Pick(NoiseG))
                   [] w = "c" -> RMat(Rows(m.a), Cols(m.a), Quads)
                   [] OTHER -> RMat(Rows(m[w]), Cols(m[w]), Gains)

\* ---------------------------------------------------------------- filters
Tame(v, p) == /\ \A i \in 1..Len(v) : RLe(RAbs(v[i]), "300")
              /\ \A i \in 1..Rows(p) : RLe(p[i][i], "300")
Predict(m, x, p, u) == LET f == Jac(m, x) IN
   [mu |-> VRound(F(m, x, u)), pp |-> MRound(MAdd(Sandwich(f, p), Noise(m, x)))]
\* measurement update with the model linearised: prediction Z, Jacobian H, noise R
Correct(x, p, z, zp, h, r) ==
   LET s == MAdd(Sandwich(h, p), r)
       k == MMul(MMul(p, T(h)), MInv(s))
   IN [mu |-> VRound(VAdd(x, MatVec(k, VSub(z, zp)))), pp |-> MRound(MSub(p, MMul(MMul(k, h), p)))]
=============================================================================
