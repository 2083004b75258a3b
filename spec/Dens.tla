-------------------------------- MODULE Dens --------------------------------
(***************************************************************************)
(* Densities over vectors, as records [t, d, a, b]:                          *)
(*    t = "g": Gaussian, a = mean, b = lower triangular L, covariance L L^T    *)
(*    t = "u": uniform on a box, a = centre, b = widths (in one row)           *)
(***************************************************************************)
EXTENDS Mat

Half(w) == RDiv(w, "2")
Inside(o, x) == \A i \in 1..o.d : RLe(RAbs(RSub(x[i], o.a[i])), Half(o.b[1][i]))
Density(o, x) == IF o.t = "g" THEN DensityL(o.b, VSub(x, o.a))
                 ELSE IF Inside(o, x) THEN RDiv("1", Prod(o.b[1])) ELSE "0"
LnDensity(o, x) == RRound(RSub(RMul("-1/2", Dist2(o.b, VSub(x, o.a))),
   RAdd(RMul(RFrac(o.d, 2), RLn(RMul("2", RPi(0)))), RLn(Prod(Diag(o.b))))))
\* the sample a block of d draws gives
FromDraws(o, z) == IF o.t = "g" THEN VAdd(o.a, MatVec(o.b, z))
   ELSE Force([i \in 1..o.d |-> RAdd(RSub(o.a[i], Half(o.b[1][i])), RMul(z[i], o.b[1][i]))])
=============================================================================
