----------------------------- MODULE CondGauss ------------------------------
(***************************************************************************)
(* Conditional Gaussian densities p(y | x_1, x_2, ...) and the system and     *)
(* measurement models built on them, changed and queried in any order.       *)
(*                                                                          *)
(* pdfs[k] = [t, d, dims, m, c, mu, l, g, x]                                  *)
(*    y = m[1] x_1 + m[2] x_2 + ... + c x_1^2 (elementwise) + mu + noise,      *)
(*    noise covariance (1 + g (x_1)_1^2) l l^T;                               *)
(*    t = "lin": the library's linear class (c = 0, g = 0)                     *)
(*    t = "user": a class a user derives from the analytic conditional         *)
(*                Gaussian with additive noise                                 *)
(*    t = "plain": a class a user derives from the conditional Gaussian with    *)
(*                additive noise that has no derivatives                       *)
(*    dims: dimensions of the arguments; x: their values (<<>>: not given)      *)
(* mods[j] = [t: "sys"/"meas", cls: "lin"/"ana"/"base", p: the pdf it refers to] *)
(* A model refers to its pdf: it sees changes of the pdf, and asking it         *)
(* something leaves the asked-for arguments in the pdf.                        *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Types, Dims, ArgCounts, Vals, Gains, Quads, NoiseG, Diags, Offs, Normals, Lists, MaxPdfs, MaxMods, Ops

VARIABLES pdfs, mods, hist, done
vars == <<pdfs, mods, hist, done>>

Lows(n) == IF Sim THEN {RLow(n, Diags, Offs)}
   ELSE {Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dg[i] ELSE IF j < i THEN of[i][j] ELSE "0"]]) :
            dg \in [1..n -> Range(Diags)], of \in [1..n -> [1..n -> Range(Offs)]]}
\* L with the rows and columns of the zero diagonal elements cleared
Clean(l) == Force([i \in 1..Rows(l) |-> [j \in 1..Rows(l) |-> IF l[i][i] = "0" \/ l[j][j] = "0" THEN "0" ELSE l[i][j]]])

NArgs(p) == Len(p.dims)
Ready(p) == \A i \in 1..NArgs(p) : p.x[i] # <<>>
Sq1(v) == Force([i \in 1..Len(v) |-> RMul(v[i], v[i])])
RECURSIVE SumArgs(_, _)
SumArgs(p, i) == IF i = 0 THEN p.mu ELSE VAdd(SumArgs(p, i - 1), MatVec(p.m[i], p.x[i]))
Mean(p) == LET s == SumArgs(p, NArgs(p)) IN IF p.t = "lin" THEN s ELSE VAdd(s, MatVec(p.c, Sq1(p.x[1])))
Factor(p) == IF p.t = "lin" THEN "1" ELSE RAdd("1", RMul(p.g, RMul(p.x[1][1], p.x[1][1])))
Cov(p) == MScale(Factor(p), Sq(p.l))
\* derivative with respect to argument i
Df(p, i) == IF p.t = "lin" \/ i > 1 THEN p.m[i]
   ELSE Force([r \in 1..p.d |-> [k \in 1..p.dims[1] |-> RAdd(p.m[1][r][k], RMul("2", RMul(p.c[r][k], p.x[1][k])))]])
\* the factor whose square is the covariance, when the factor of it is a square
Regular(p) == \A i \in 1..p.d : p.l[i][i] # "0"
Dist(p, y) == RDiv(Dist2(p.l, VSub(y, Mean(p))), Factor(p))
Density(p, y) == RRound(RDiv(RExp(RMul("-1/2", Dist(p, y))),
     RMul(Pow(RMul(Root2Pi, RSqrt(Factor(p))), p.d), Prod(Diag(p.l)))))
FromDraws(p, z) == VAdd(Mean(p), VScale(IF Factor(p) = "1" THEN "1" ELSE RSqrt(Factor(p)), MatVec(p.l, z)))

ObsP(p) == [d |-> p.d, n |-> NArgs(p), mu |-> p.mu, sig |-> Sq(p.l),
            x |-> [i \in 1..NArgs(p) |-> p.x[i]],
            m |-> IF p.t = "lin" THEN p.m ELSE <<>>]
  @@ (IF Ready(p) THEN [mean |-> Mean(p), cov |-> Cov(p), df |-> IF p.t = "plain" THEN <<>> ELSE [i \in 1..NArgs(p) |-> Df(p, i)]] ELSE <<>>)
ObsM(m, ps) == [size |-> ps[m.p].d, plain |-> NArgs(ps[m.p]) = 1, p |-> m.p]
  @@ (IF m.cls = "lin" THEN [m |-> ps[m.p].m] ELSE <<>>)
Do(o, args, ex, ps, ms) == \E p1 \in {ps} : \E m1 \in {ms} :
   /\ pdfs' = p1 /\ mods' = m1
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force([k \in 1..Len(p1) |-> ObsP(p1[k])]),
                                          mod |-> Force([j \in 1..Len(m1) |-> ObsM(m1[j], p1)])] @@ ex))
   /\ UNCHANGED done

\* ----------------------------------------------------------------- pdfs
NewPdf(x) == {[t |-> t, d |-> d, dims |-> ds] : t \in Pick(Types), d \in Pick(Dims), ds \in UNION {PickVec(n, Dims) : n \in Pick(ArgCounts)}}
Mats(q) == IF Sim THEN {Force([i \in 1..Len(q.dims) |-> RMat(q.d, q.dims[i], Gains)])}
           ELSE {f \in [1..Len(q.dims) -> UNION {[1..q.d -> [1..n -> Range(Gains)]] : n \in Range(q.dims)}] :
                   \A i \in 1..Len(q.dims) : Cols(f[i]) = q.dims[i]}
New == /\ Len(pdfs) < MaxPdfs
       /\ \E q0 \in NewPdf(hist) :
          \E q \in {IF q0.t # "lin" /\ Len(q0.dims) > 2 THEN [q0 EXCEPT !.dims = <<@[1], @[2]>>] ELSE q0} :
          \E m \in Mats(q), mu \in PickVec(q.d, Vals), l \in {Clean(w) : w \in Lows(q.d)},
             c \in (IF q.t = "lin" THEN {<<>>} ELSE PickMat(q.d, q.dims[1], Quads)), g \in (IF q.t = "lin" THEN {"0"} ELSE Pick(NoiseG)), one \in Pick(<<TRUE, FALSE>>), late \in (IF q.t = "lin" THEN {FALSE} ELSE Pick(<<TRUE, FALSE>>)) :
          Do("new", [t |-> q.t, d |-> q.d, dims |-> q.dims, m |-> m, mu |-> mu, q |-> Sq(l), c |-> c, g |-> g, one |-> one /\ Len(m) = 1, late |-> late], <<>>,
             Append(pdfs, [t |-> q.t, d |-> q.d, dims |-> q.dims, m |-> m, mu |-> mu, l |-> l, c |-> c, g |-> g,
                           x |-> [i \in 1..Len(q.dims) |-> IF q.t = "lin" THEN VConst(q.dims[i], "0") ELSE <<>>]]), mods)
Copy == /\ Len(pdfs) < MaxPdfs
        /\ \E k \in PickN(1, Len(pdfs)), how \in Pick(<<"copy", "clone">>) :
           Do("copy", [k |-> k, how |-> how], <<>>, Append(pdfs, pdfs[k]), mods)
\* the models keep referring to the pdf; what it needs must stay the same
Assign == \E k \in PickN(1, Len(pdfs)), j \in PickN(1, Len(pdfs)) :
   /\ k # j /\ pdfs[k].t = pdfs[j].t /\ pdfs[k].d = pdfs[j].d /\ pdfs[k].dims = pdfs[j].dims
   /\ Do("assign", [k |-> k, from |-> j], <<>>, [pdfs EXCEPT ![k] = pdfs[j]], mods)
SetArg == \E k \in PickN(1, Len(pdfs)) : \E i \in PickN(1, NArgs(pdfs[k])) : \E v \in PickVec(pdfs[k].dims[i], Vals) :
   Do("arg", [k |-> k, i |-> i, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = [@ EXCEPT ![i] = v]]], mods)
ArgVecs(p) == IF Sim THEN {Force([i \in 1..NArgs(p) |-> RVec(p.dims[i], Vals)])}
              ELSE {f \in [1..NArgs(p) -> UNION {[1..n -> Range(Vals)] : n \in Range(p.dims)}] : \A i \in 1..NArgs(p) : Len(f[i]) = p.dims[i]}
SetArgs == \E k \in PickN(1, Len(pdfs)) : \E xs \in ArgVecs(pdfs[k]) :
   Do("args", [k |-> k, v |-> xs], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = xs]], mods)
SetMat == \E k \in PickN(1, Len(pdfs)) : \E i \in PickN(1, NArgs(pdfs[k])) : \E m \in PickMat(pdfs[k].d, pdfs[k].dims[i], Gains) :
   /\ pdfs[k].t = "lin"
   /\ Do("mat", [k |-> k, i |-> i, m |-> m], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.m = [@ EXCEPT ![i] = m]]], mods)
\* the value given is a reference to one a density holds (perhaps the same)
Lend == \E k \in PickN(1, Len(pdfs)), j \in PickN(1, Len(pdfs)), what \in Pick(<<"arg", "args", "mat", "mu", "sigma">>) :
   \E i \in PickN(1, NArgs(pdfs[k])), b \in PickN(1, NArgs(pdfs[j])) : \E p \in {pdfs[k]}, q \in {pdfs[j]} :
   /\ (what = "arg" => p.dims[i] = q.dims[b] /\ q.x[b] # <<>>) /\ (what = "args" => p.dims = q.dims /\ Ready(q))
   /\ (what = "mat" => p.t = "lin" /\ q.t = "lin" /\ p.d = q.d /\ p.dims[i] = q.dims[b]) /\ (what \in {"mu", "sigma"} => p.d = q.d)
   /\ Do("lend", [k |-> k, from |-> j, what |-> what, i |-> i, b |-> b], <<>>, [pdfs EXCEPT ![k] =
         CASE what = "arg" -> [p EXCEPT !.x = [@ EXCEPT ![i] = q.x[b]]] [] what = "args" -> [p EXCEPT !.x = q.x]
           [] what = "mat" -> [p EXCEPT !.m = [@ EXCEPT ![i] = q.m[b]]] [] what = "mu" -> [p EXCEPT !.mu = q.mu]
           [] OTHER -> [p EXCEPT !.l = q.l]], mods)
\* another number of arguments: those kept stay, those added are given a matrix and a value
NewDims(x, n) == IF n <= 0 THEN {<<>>} ELSE PickVec(n, Dims)
SetCount == \E k \in PickN(1, Len(pdfs)), n \in Pick(ArgCounts) : \E p \in {pdfs[k]} : \E ds \in NewDims(p, n - NArgs(p)) :
   /\ p.t = "lin" /\ n # NArgs(p) /\ \A j \in 1..Len(mods) : mods[j].p # k
   /\ \E q \in {[d |-> p.d, dims |-> SubSeq(p.dims, 1, IF n < NArgs(p) THEN n ELSE NArgs(p)) \o ds]} :
      \E ms \in Mats(q), xs \in ArgVecs([p EXCEPT !.dims = q.dims]) :
      \E m \in {[i \in 1..n |-> IF i <= NArgs(p) THEN p.m[i] ELSE ms[i]]}, x \in {[i \in 1..n |-> IF i <= NArgs(p) THEN p.x[i] ELSE xs[i]]} :
      Do("nargs", [k |-> k, n |-> n, m |-> SubSeq(m, NArgs(p) + 1, n), x |-> SubSeq(x, NArgs(p) + 1, n)], <<>>,
         [pdfs EXCEPT ![k] = [@ EXCEPT !.dims = q.dims, !.m = m, !.x = x]], mods)
SetMu == \E k \in PickN(1, Len(pdfs)) : \E v \in PickVec(pdfs[k].d, Vals) :
   Do("mu", [k |-> k, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.mu = v]], mods)
SetSigma == \E k \in PickN(1, Len(pdfs)) : \E w \in Lows(pdfs[k].d) : \E l \in {Clean(w)} :
   Do("sigma", [k |-> k, q |-> Sq(l)], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.l = l]], mods)

Near(p, y) == RLe(Dist(p, y), "1000")     \* no underflow
Prob == \E k \in PickN(1, Len(pdfs)) : \E p \in {pdfs[k]} : \E y \in PickVec(p.d, Vals) :
   /\ Ready(p) /\ Regular(p) /\ Near(p, y)
   /\ \E q \in {Density(p, y)} : Do("prob", [k |-> k, y |-> y], [p |-> q], pdfs, mods)
Samples == \E k \in PickN(1, Len(pdfs)), n \in Pick(Lists), pre \in Pick(<<0, 3>>), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E p \in {pdfs[k]} :
   /\ Ready(p)
   /\ \E z \in PickVec((IF n = 0 THEN 1 ELSE n) * p.d, Normals) :
      Do("sample", [k |-> k, n |-> n, z |-> z, pre |-> pre, how |-> how],    \* n = 0: the overload of one sample
         [ret |-> TRUE, s |-> [i \in 1..(IF n = 0 THEN 1 ELSE n) |-> FromDraws(p, Force([j \in 1..p.d |-> z[(i-1) * p.d + j]]))]], pdfs, mods)
Refused == \E k \in PickN(1, Len(pdfs)), how \in Pick(<<"BOXMULLER", "RIPLEY">>), list \in Pick(<<TRUE, FALSE>>) :
   /\ Ready(pdfs[k])
   /\ Do("refused", [k |-> k, how |-> how, list |-> list], [ret |-> FALSE], pdfs, mods)

\* --------------------------------------------------------------- models
Fits(t, cls, p) == /\ NArgs(p) \in {1, 2}
                   /\ t = "sys" => p.dims[1] = p.d
                   /\ cls = "lin" => p.t = "lin"
                   /\ cls = "ana" => p.t # "plain"
NewModel == /\ Len(mods) < MaxMods
            /\ \E k \in PickN(1, Len(pdfs)), t \in Pick(<<"sys", "meas">>), cls \in Pick(<<"lin", "ana", "base">>) :
               /\ Fits(t, cls, pdfs[k])
               /\ Do("mnew", [t |-> t, cls |-> cls, p |-> k], <<>>, pdfs, Append(mods, [t |-> t, cls |-> cls, p |-> k]))
CopyModel == /\ Len(mods) < MaxMods
             /\ \E j \in PickN(1, Len(mods)) : Do("mcopy", [j |-> j], <<>>, pdfs, Append(mods, mods[j]))
SetPdf == \E j \in PickN(1, Len(mods)), k \in PickN(1, Len(pdfs)) :
   /\ Fits(mods[j].t, mods[j].cls, pdfs[k])
   /\ Do("mset", [j |-> j, p |-> k], <<>>, pdfs, [mods EXCEPT ![j] = [@ EXCEPT !.p = k]])
SetCoeff == \E j \in PickN(1, Len(mods)) : \E k \in {mods[j].p} : \E i \in PickN(1, NArgs(pdfs[k])) : \E m \in PickMat(pdfs[k].d, pdfs[k].dims[i], Gains) :
   /\ mods[j].cls = "lin"
   /\ Do("mmat", [j |-> j, i |-> i, m |-> m], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.m = [@ EXCEPT ![i] = m]]], mods)
With(p, xs) == [p EXCEPT !.x = [i \in 1..NArgs(p) |-> xs[i]]]
\* prediction, covariance and derivative at given arguments (the input is
\* given also to models that have none, and then ignored)
Ask == \E j \in PickN(1, Len(mods)), what \in Pick(<<"pred", "mcov", "mdf">>) : \E k \in {mods[j].p} :
   /\ mods[j].cls # "base"
   /\ \E xs \in ArgVecs(pdfs[k]), u \in PickVec(2, Vals) : \E p \in {With(pdfs[k], xs)} :
      Do(what, [j |-> j, x |-> xs[1], u |-> IF NArgs(p) = 2 THEN xs[2] ELSE u],
         [r |-> IF what = "pred" THEN Mean(p) ELSE IF what = "mcov" THEN Cov(p) ELSE Df(p, 1)], [pdfs EXCEPT ![k] = p], mods)
MProb == \E j \in PickN(1, Len(mods)) : \E k \in {mods[j].p} : \E xs \in ArgVecs(pdfs[k]), y \in PickVec(pdfs[k].d, Vals) : \E p \in {With(pdfs[k], xs)} :
   /\ Regular(p) /\ Near(p, y)
   /\ \E q \in {Density(p, y)} : Do("mprob", [j |-> j, x |-> xs, y |-> y], [p |-> q], [pdfs EXCEPT ![k] = p], mods)
Simulate == \E j \in PickN(1, Len(mods)), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E k \in {mods[j].p} :
   \E xs \in ArgVecs(pdfs[k]), z \in PickVec(pdfs[k].d, Normals) : \E p \in {With(pdfs[k], xs)} :
      Do("msim", [j |-> j, x |-> xs, z |-> z, how |-> how], [s |-> FromDraws(p, z)], [pdfs EXCEPT ![k] = p], mods)

Init == pdfs = <<>> /\ mods = <<>> /\ hist = <<>> /\ done = FALSE
Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<pdfs, mods, hist>>
Live == pdfs # <<>>
Modelled == mods # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops /\ Often(3)) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "copy" \in Ops /\ Assign
              \/ Live /\ "set" \in Ops /\ SetArg
              \/ Live /\ "set" \in Ops /\ SetArgs
              \/ Live /\ "set" \in Ops /\ SetMat
              \/ Live /\ "set" \in Ops /\ SetMu
              \/ Live /\ "set" \in Ops /\ Often(2) /\ SetCount
              \/ Live /\ "set" \in Ops /\ SetSigma
              \/ Live /\ "set" \in Ops /\ Sim /\ Lend
              \/ Live /\ "prob" \in Ops /\ Prob
              \/ Live /\ "sample" \in Ops /\ Samples
              \/ Live /\ "sample" \in Ops /\ Often(6) /\ Refused
              \/ Live /\ "model" \in Ops /\ NewModel
              \/ Modelled /\ "model" \in Ops /\ Often(3) /\ CopyModel
              \/ Modelled /\ "model" \in Ops /\ SetPdf
              \/ Modelled /\ "model" \in Ops /\ SetCoeff
              \/ Modelled /\ "model" \in Ops /\ Ask
              \/ Modelled /\ "model" \in Ops /\ Sim /\ Ask
              \/ Modelled /\ "model" \in Ops /\ Sim /\ Ask
              \/ Modelled /\ "model" \in Ops /\ MProb
              \/ Modelled /\ "model" \in Ops /\ Simulate
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<pdfs, mods, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
Reads == {"prob", "sample", "refused", "pred", "mcov", "mdf", "mprob", "msim", "mnew", "mcopy", "mset"}
\* questions never change what a density is, only (for models) its arguments
Fixed(p) == [p EXCEPT !.x = <<>>]
Frame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in Reads) =>
   \A k \in 1..Len(pdfs) : Fixed(pdfs'[k]) = Fixed(pdfs[k])]_vars
\* a copy answers like the original
CopySame == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "copy") => pdfs'[Len(pdfs')] = pdfs[hist'[Len(hist')].a.k]]_vars
\* density from L equals the density from the covariance
DensityOK == (Last.op = "prob") =>
   LET p == pdfs[Last.a.k] q == DensityS(Cov(p), VSub(Last.a.y, Mean(p))) IN
   RLe(RAbs(RSub(q, Last.e.p)), RMul("1/1000000000000000000000000000000", q))
\* a linear mean is additive in the noise mean and the arguments
MeanLinear == \A k \in 1..Len(pdfs) : (pdfs[k].t = "lin") =>
   VSub(Mean(pdfs[k]), Mean([pdfs[k] EXCEPT !.x = [i \in 1..NArgs(pdfs[k]) |-> VConst(pdfs[k].dims[i], "0")]])) =
     SumArgs([pdfs[k] EXCEPT !.mu = VConst(pdfs[k].d, "0")], NArgs(pdfs[k]))
\* the models fit their pdfs
RefsOK == \A j \in 1..Len(mods) : Fits(mods[j].t, mods[j].cls, pdfs[mods[j].p])
=============================================================================
