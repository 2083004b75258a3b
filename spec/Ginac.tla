------------------------------- MODULE Ginac --------------------------------
(***************************************************************************)
(* Conditional Gaussians given by symbolic functions, and the system and       *)
(* measurement models made of them.                                          *)
(*                                                                          *)
(* A density is [nx, nu, f, cond, mu, l, x, u]: f has one polynomial per        *)
(* output, a sequence of monomials [c, e] with the exponents e of the nx state  *)
(* and nu input symbols.                                                     *)
(*   cond = <<>>:  y = f(x, u) + N(mu, l l^T)                                  *)
(*   otherwise:    y = f(x, u + noise on the inputs cond), linearised about      *)
(*                 the mean of the noise                                      *)
(* A model has its own copy of the density it was made from.                   *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS StateDims, InputDims, OutDims, Terms, Exps, Coeffs, Vals, Diags, Offs, Normals, Lists, MaxPdfs, MaxMods, Setups, Ops

VARIABLES pdfs, mods, hist, done
vars == <<pdfs, mods, hist, done>>

\* ------------------------------------------------------------ polynomials
Monomial(m, v) == RMul(m.c, Prod([i \in 1..Len(v) |-> Pow(v[i], m.e[i])]))
Value(p, v) == RSum(Force([k \in 1..Len(p) |-> Monomial(p[k], v)]))
DMono(m, i) == IF m.e[i] = 0 THEN [c |-> "0", e |-> m.e]
               ELSE [c |-> RMul(m.c, RInt(m.e[i])), e |-> [m.e EXCEPT ![i] = @ - 1]]
Diff(p, i) == Force([k \in 1..Len(p) |-> DMono(p[k], i)])

\* -------------------------------------------------------------- densities
NF(p) == Len(p.f)
Ready(p) == p.x # <<>> /\ p.u # <<>>
\* where the function is evaluated: the state, and the inputs with the mean of their noise
Shift(p) == Force([i \in 1..p.nu |-> LET at == {j \in 1..Len(p.cond) : p.cond[j] = i}
                                   IN IF at = {} THEN p.u[i] ELSE RAdd(p.u[i], p.mu[CHOOSE j \in at : TRUE])])
Point(p) == p.x \o Shift(p)
Mean(p) == LET y == Force([r \in 1..NF(p) |-> Value(p.f[r], Point(p))]) IN IF p.cond = <<>> THEN VAdd(y, p.mu) ELSE y
Df(p) == Force([r \in 1..NF(p) |-> [k \in 1..p.nx |-> Value(Diff(p.f[r], k), Point(p))]])
DCond(p) == Force([r \in 1..NF(p) |-> [j \in 1..Len(p.cond) |-> Value(Diff(p.f[r], p.nx + p.cond[j]), Point(p))]])
Cov(p) == IF p.cond = <<>> THEN Sq(p.l) ELSE Sandwich(DCond(p), Sq(p.l))
Good(p) == LET c == Cov(p) IN Firm(c) /\ Bounded(c)
FromDraws(p, z) == VAdd(Mean(p), MatVec(IF p.cond = <<>> THEN p.l ELSE Chol(Cov(p)), z))
Dist(p, y) == Quad(MInv(Cov(p)), VSub(y, Mean(p)))

ObsP(p) == [d |-> NF(p), n |-> 2, mu |-> p.mu, sig |-> Sq(p.l)] @@
  (IF Ready(p) THEN [x |-> p.x, u |-> p.u, mean |-> Mean(p), cov |-> Cov(p), df |-> Df(p)] ELSE <<>>)
Do(o, args, ex, ps, ms) == \E p1 \in {ps} : \E m1 \in {ms} :
   /\ pdfs' = p1 /\ mods' = m1
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force([k \in 1..Len(p1) |-> ObsP(p1[k])]),
                                          mod |-> Force([j \in 1..Len(m1) |-> ObsP(m1[j].p) @@ [size |-> NF(m1[j].p), plain |-> FALSE]])] @@ ex))
   /\ UNCHANGED done

RPoly(n, k) == Force([t \in 1..k |-> [c |-> One(Pick(Coeffs)), e |-> RVec(n, Exps)]])
Sigmas(d) == IF Sim THEN {RLow(d, Diags, Offs)} ELSE {MScale(c, Ident(d)) : c \in Pick(Diags)}
NewPdf(x) ==
  LET nx == Force(One(Pick(StateDims))) nu == Force(One(Pick(InputDims)))
      nf == Force(LET o == One(Pick(OutDims)) IN IF o = 0 THEN nx ELSE o)
      kind == Force(RandInt(0, 2))
      off == Force(RandInt(0, nu - 1))
      cond == Force(IF kind = 0 THEN <<>> ELSE [j \in 1..RandInt(1, nu) |-> ((j + off - 1) % nu) + 1])
      d == IF cond = <<>> THEN nf ELSE Len(cond)
  IN IF ~Sim THEN Pick(Setups) ELSE
     {[nx |-> nx, nu |-> nu, cond |-> cond, f |-> Force([r \in 1..nf |-> RPoly(nx + nu, One(Pick(Terms)))]),
      mu |-> RVec(d, Vals), l |-> RLow(d, Diags, Offs), x |-> <<>>, u |-> <<>>]}
New == /\ Len(pdfs) < MaxPdfs
       /\ \E p \in NewPdf(hist) :
          Do("new", [nx |-> p.nx, nu |-> p.nu, cond |-> p.cond, f |-> p.f, mu |-> p.mu, q |-> Sq(p.l)], <<>>, Append(pdfs, p), mods)
Copy == /\ Len(pdfs) < MaxPdfs
        /\ \E k \in PickN(1, Len(pdfs)), how \in Pick(<<"copy", "clone">>) :
           Do("copy", [k |-> k, how |-> how], <<>>, Append(pdfs, pdfs[k]), mods)
Assign == \E k \in PickN(1, Len(pdfs)), j \in PickN(1, Len(pdfs)) :
   /\ k # j /\ NF(pdfs[k]) = NF(pdfs[j])
   /\ Do("assign", [k |-> k, from |-> j], <<>>, [pdfs EXCEPT ![k] = pdfs[j]], mods)
SetX == \E k \in PickN(1, Len(pdfs)) : \E v \in PickVec(pdfs[k].nx, Vals) :
   Do("x", [k |-> k, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = v]], mods)
SetU == \E k \in PickN(1, Len(pdfs)) : \E v \in PickVec(pdfs[k].nu, Vals) :
   Do("u", [k |-> k, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.u = v]], mods)
SetBoth == \E k \in PickN(1, Len(pdfs)) : \E x \in PickVec(pdfs[k].nx, Vals), u \in PickVec(pdfs[k].nu, Vals) :
   Do("xu", [k |-> k, x |-> x, u |-> u], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = x, !.u = u]], mods)
SetMu == \E k \in PickN(1, Len(pdfs)) : \E v \in PickVec(Len(pdfs[k].mu), Vals) :
   Do("mu", [k |-> k, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.mu = v]], mods)
SetSigma == \E k \in PickN(1, Len(pdfs)) : \E l \in Sigmas(Len(pdfs[k].mu)) :
   Do("sigma", [k |-> k, q |-> Sq(l)], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.l = l]], mods)
Prob == \E k \in PickN(1, Len(pdfs)) : \E p \in {pdfs[k]} : \E dy \in PickVec(NF(p), Vals) :
   /\ Ready(p) /\ Good(p)
   /\ \E y \in {VAdd(Mean(p), dy)} :
      /\ RLe(Dist(p, y), "1000")
      /\ \E q \in {DensityS(Cov(p), VSub(y, Mean(p)))} : Do("prob", [k |-> k, y |-> y], [p |-> q], pdfs, mods)
Samples == \E k \in PickN(1, Len(pdfs)), n \in Pick(Lists), pre \in Pick(<<0, 3>>), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E p \in {pdfs[k]} :
   /\ Ready(p) /\ Good(p)
   /\ \E z \in PickMat(IF n = 0 THEN 1 ELSE n, NF(p), Normals) :
      Do("sample", [k |-> k, n |-> n, z |-> z, pre |-> pre, how |-> how],
         [ret |-> TRUE, s |-> [i \in 1..Len(z) |-> FromDraws(p, z[i])]], pdfs, mods)
\* symbols and function handed out
Symbols == \E k \in PickN(1, Len(pdfs)) :
   Do("get", [k |-> k], [same |-> [f |-> TRUE, x |-> TRUE, u |-> TRUE, c |-> TRUE]], pdfs, mods)

\* ----------------------------------------------------------------- models
NewModel == /\ Len(mods) < MaxMods
            /\ \E k \in PickN(1, Len(pdfs)), t \in Pick(<<"sys", "meas">>), cls \in Pick(<<"ginac", "ginac", "ana">>) :
               /\ (t = "sys" => NF(pdfs[k]) = pdfs[k].nx)
               /\ Do("mnew", [t |-> t, p |-> k, cls |-> cls], <<>>, pdfs, Append(mods, [t |-> t, cls |-> cls, p |-> pdfs[k]]))
MSymbols == \E j \in PickN(1, Len(mods)) :
   /\ mods[j].cls = "ginac"
   /\ Do("mget", [j |-> j], [same |-> [f |-> TRUE, x |-> TRUE, u |-> TRUE, c |-> TRUE]], pdfs, mods)
With(p, x, u) == [p EXCEPT !.x = x, !.u = u]
SetM(j, p) == [mods EXCEPT ![j] = [@ EXCEPT !.p = p]]
MNoise == \E j \in PickN(1, Len(mods)) : \E v \in PickVec(Len(mods[j].p.mu), Vals), l \in Sigmas(Len(mods[j].p.mu)) :
   Do("mnoise", [j |-> j, mu |-> v, q |-> Sq(l)], <<>>, pdfs, SetM(j, [mods[j].p EXCEPT !.mu = v, !.l = l]))
Ask == \E j \in PickN(1, Len(mods)), what \in Pick(<<"pred", "mcov", "mdf">>) : \E p0 \in {mods[j].p} :
   \E x \in PickVec(p0.nx, Vals), u \in PickVec(p0.nu, Vals) : \E p \in {With(p0, x, u)} :
      Do(what, [j |-> j, x |-> x, u |-> u], [r |-> IF what = "pred" THEN Mean(p) ELSE IF what = "mcov" THEN Cov(p) ELSE Df(p)], pdfs, SetM(j, p))
MProb == \E j \in PickN(1, Len(mods)) : \E p0 \in {mods[j].p} :
   \E x \in PickVec(p0.nx, Vals), u \in PickVec(p0.nu, Vals), dy \in PickVec(NF(p0), Vals) : \E p \in {With(p0, x, u)} :
   /\ Good(p)
   /\ \E y \in {VAdd(Mean(p), dy)} :
      /\ RLe(Dist(p, y), "1000")
      /\ \E q \in {DensityS(Cov(p), VSub(y, Mean(p)))} : Do("mprob", [j |-> j, x |-> x, u |-> u, y |-> y], [p |-> q], pdfs, SetM(j, p))
Simulate == \E j \in PickN(1, Len(mods)), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E p0 \in {mods[j].p} :
   \E x \in PickVec(p0.nx, Vals), u \in PickVec(p0.nu, Vals), z \in PickVec(NF(p0), Normals) : \E p \in {With(p0, x, u)} :
   /\ Good(p)
   /\ Do("msim", [j |-> j, x |-> x, u |-> u, z |-> z, how |-> how], [s |-> FromDraws(p, z)], pdfs, SetM(j, p))

Init == pdfs = <<>> /\ mods = <<>> /\ hist = <<>> /\ done = FALSE
Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<pdfs, mods, hist>>
Live == pdfs # <<>>
Modelled == mods # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => Often(3)) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "copy" \in Ops /\ Often(2) /\ Assign
              \/ Live /\ SetX
              \/ Live /\ SetU
              \/ Live /\ SetBoth
              \/ Live /\ SetMu
              \/ Live /\ SetSigma
              \/ Live /\ "prob" \in Ops /\ Prob
              \/ Live /\ "sample" \in Ops /\ Samples
              \/ Live /\ Often(4) /\ Symbols
              \/ Live /\ "model" \in Ops /\ NewModel
              \/ Modelled /\ Often(4) /\ MSymbols
              \/ Modelled /\ MNoise
              \/ Modelled /\ Ask
              \/ Modelled /\ Ask
              \/ Modelled /\ Ask
              \/ Modelled /\ MProb
              \/ Modelled /\ Simulate
        \/ Stop
Spec == Init /\ [][Next]_vars

EmitT == ~Sim => Emit(ToJson(hist'))
View == <<pdfs, mods, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
All == {pdfs[k] : k \in 1..Len(pdfs)} \cup {mods[j].p : j \in 1..Len(mods)}
\* the derivative is the limit of difference quotients: for exponents up to 2 the
\* central difference has an error of second order in the step only in mixed terms
Eps == "1/100000000"
Moved(p, k, h) == [p EXCEPT !.x = [@ EXCEPT ![k] = RAdd(@, h)]]
Quotient(p, k) == VScale(RDiv("1", RMul("2", Eps)), VSub(Mean(Moved(p, k, Eps)), Mean(Moved(p, k, RNeg(Eps)))))
Tangent == \A p \in All : Ready(p) => \A k \in 1..p.nx : LET q == Quotient(p, k) d == Df(p) IN
   \A r \in 1..NF(p) : RLe(RAbs(RSub(q[r], d[r][k])), "1/1000000")
\* the factor used for samples is one of the covariance
FactorOK == (Last.op = "sample") => LET p == pdfs[Last.a.k] c == Cov(p) q == Sq(IF p.cond = <<>> THEN p.l ELSE Chol(c)) IN
   \A i \in 1..Rows(c) : \A j \in 1..Rows(c) : RLe(RAbs(RSub(c[i][j], q[i][j])), "1/100000000000000000000")
\* asking changes no density and of a model only the arguments it was asked for; copies equal their original
Reads == {"prob", "sample", "get", "mget"}
Frame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in Reads) => (pdfs' = pdfs /\ mods' = mods)]_vars
CopySame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "copy") => pdfs'[Len(pdfs')] = pdfs[hist'[Len(hist')].a.k]]_vars
\* models and densities are apart: a call on one side leaves the other
Apart == [][Len(hist') > Len(hist) => (pdfs' = pdfs \/ mods' = mods)]_vars
CovSymmetric == \A p \in All : Ready(p) => Symmetric(Cov(p))
=============================================================================
