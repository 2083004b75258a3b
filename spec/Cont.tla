-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* Gaussian and uniform densities over vectors: set, copied, assigned,       *)
(* evaluated and sampled, in any order.                                      *)
(* objs[k] = [t: "g"/"u", d: dimension, a, b: parameters or <<>> when not set] *)
(*    g: a = mean, b = lower triangular L, covariance L L^T                   *)
(*    u: a = centre, b = widths (in one row)                                  *)
(***************************************************************************)
EXTENDS Dens

CONSTANTS Types, Dims, Vals, Diags, Offs, Widths, Normals, Draws, Lists, MaxObjs, Ops

VARIABLES objs, hist, done
vars == <<objs, hist, done>>

Lows(n) == IF Sim THEN {RLow(n, Diags, Offs)}
   ELSE {Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dg[i] ELSE IF j < i THEN of[i][j] ELSE "0"]]) :
            dg \in [1..n -> Range(Diags)], of \in [1..n -> [1..n -> Range(Offs)]]}
\* L with the rows and columns of the zero diagonal elements cleared, so that
\* L is the Cholesky factor of L L^T also when that is singular
Clean(l) == Force([i \in 1..Rows(l) |-> [j \in 1..Rows(l) |-> IF l[i][i] = "0" \/ l[j][j] = "0" THEN "0" ELSE l[i][j]]])
Second(t, d) == IF t = "g" THEN {Clean(l) : l \in Lows(d)} ELSE {<<w>> : w \in PickVec(d, Widths)}
Given(o) == o.d > 0 /\ o.a # <<>> /\ o.b # <<>>
Regular(o) == Given(o) /\ (o.t = "g" => \A i \in 1..o.d : o.b[i][i] # "0")

Obs1(o) == [d |-> o.d] @@ (IF o.t = "g"
    THEN (IF o.a # <<>> THEN [mean |-> o.a] ELSE <<>>) @@ (IF o.b # <<>> THEN [cov |-> Sq(o.b)] ELSE <<>>)
    ELSE IF o.a # <<>> THEN [center |-> o.a, width |-> o.b[1]] ELSE <<>>)
Obs(os) == [k \in 1..Len(os) |-> Obs1(os[k])]
Do(o, args, ex, os) == \E now \in {os} :
   /\ objs' = now
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force(Obs(now))] @@ ex))
   /\ UNCHANGED done
NewObj(x) == {[t |-> t, how |-> how, d |-> IF how = "empty" THEN 0 ELSE d] :
                t \in Pick(Types), d \in Pick(Dims), how \in Pick(<<"full", "full", "dim", "empty">>)}

Init == objs = <<>> /\ hist = <<>> /\ done = FALSE
New == /\ Len(objs) < MaxObjs
       /\ \E o \in NewObj(hist) : \E a \in (IF o.how = "full" THEN PickVec(o.d, Vals) ELSE {<<>>}),
              b \in (IF o.how = "full" THEN Second(o.t, o.d) ELSE {<<>>}) :
          Do("new", [t |-> o.t, how |-> o.how, d |-> o.d, a |-> a, b |-> IF o.t = "g" /\ b # <<>> THEN Sq(b) ELSE b], <<>>,
             Append(objs, [t |-> o.t, d |-> o.d, a |-> a, b |-> b]))
Copy == /\ Len(objs) < MaxObjs
        /\ \E k \in PickN(1, Len(objs)), how \in Pick(<<"copy", "clone">>) :
           Do("copy", [k |-> k, how |-> how], <<>>, Append(objs, objs[k]))
Assign == \E k \in PickN(1, Len(objs)), j \in PickN(1, Len(objs)) :
   /\ k # j /\ objs[k].t = objs[j].t
   /\ Do("assign", [k |-> k, from |-> j], <<>>, [objs EXCEPT ![k] = objs[j]])

\* a fresh object takes its dimension from the first parameter it is given
DimFor(o) == IF o.d > 0 THEN {o.d} ELSE Pick(Dims)
SetMean == \E k \in PickN(1, Len(objs)) : \E d \in DimFor(objs[k]) : \E a \in PickVec(d, Vals) :
   /\ objs[k].t = "g"
   /\ Do("mset", [k |-> k, a |-> a], <<>>, [objs EXCEPT ![k] = [@ EXCEPT !.a = a, !.d = d]])
SetCov == \E k \in PickN(1, Len(objs)) : \E d \in DimFor(objs[k]) : \E l \in Second("g", d) :
   /\ objs[k].t = "g"
   /\ Do("cset", [k |-> k, b |-> Sq(l)], <<>>, [objs EXCEPT ![k] = [@ EXCEPT !.b = l, !.d = d]])
SetDim == \E k \in PickN(1, Len(objs)), d \in Pick(Dims) :
   /\ objs[k].t = "g"
   /\ Do("dset", [k |-> k, d |-> d], <<>>, [objs EXCEPT ![k] = [@ EXCEPT !.d = d, !.a = <<>>, !.b = <<>>]])
SetBox == \E k \in PickN(1, Len(objs)) : \E d \in DimFor(objs[k]) : \E a \in PickVec(d, Vals), b \in Second("u", d) :
   /\ objs[k].t = "u"
   /\ Do("uset", [k |-> k, a |-> a, b |-> b], <<>>, [objs EXCEPT ![k] = [@ EXCEPT !.a = a, !.b = b, !.d = d]])

\* points: arbitrary ones, and for boxes ones on and next to the border
Point(o) == IF o.t = "g" THEN PickVec(o.d, Vals)
  ELSE {Force([i \in 1..o.d |-> RAdd(o.a[i], RMul(f[i], o.b[1][i]))]) : f \in PickVec(o.d, <<"0","1/2","-1/2","1/4","-3/8","1/4","0","9/16">>)}
Prob == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} :
   /\ Regular(o)
   /\ \E x \in Point(o) :
      /\ o.t = "g" => RLe(Dist2(o.b, VSub(x, o.a)), "1000")   \* no underflow
      /\ \E p \in {Density(o, x)} : Do("prob", [k |-> k, x |-> x], [p |-> p] @@ (IF o.t = "g" THEN [lnp |-> LnDensity(o, x)] ELSE <<>>), objs)

DrawsOf(o, n) == PickVec(n, IF o.t = "g" THEN Normals ELSE Draws)
Sample == \E k \in PickN(1, Len(objs)), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E o \in {objs[k]} :
   /\ Given(o) /\ (o.t = "u" => how = "DEFAULT")
   /\ \E z \in DrawsOf(o, o.d) :
       Do("sample", [k |-> k, z |-> z, how |-> how], [ret |-> TRUE, s |-> <<FromDraws(o, z)>>], objs)
SampleList == \E k \in PickN(1, Len(objs)), m \in Pick(Lists), pre \in Pick(<<0, 3>>), how \in Pick(<<"DEFAULT", "CHOLESKY">>) : \E o \in {objs[k]} :
   /\ Given(o) /\ (o.t = "u" => how = "DEFAULT")
   /\ \E z \in DrawsOf(o, m * o.d) :
       Do("samples", [k |-> k, n |-> m, z |-> z, pre |-> pre, how |-> how],
          [ret |-> TRUE, s |-> [i \in 1..m |-> FromDraws(o, [j \in 1..o.d |-> z[(i-1) * o.d + j]])]], objs)
\* methods a density does not offer are refused
Refused == \E k \in PickN(1, Len(objs)), how \in Pick(<<"BOXMULLER", "RIPLEY", "CHOLESKY">>), list \in Pick(<<TRUE, FALSE>>) :
   /\ Given(objs[k]) /\ (objs[k].t = "g" => how # "CHOLESKY")
   /\ Do("refused", [k |-> k, how |-> how, list |-> list], [ret |-> FALSE], objs)

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<objs, hist>>
Live == objs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops /\ Often(3)) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "copy" \in Ops /\ Assign
              \/ Live /\ "set" \in Ops /\ SetMean
              \/ Live /\ "set" \in Ops /\ SetCov
              \/ Live /\ "set" \in Ops /\ SetBox
              \/ Live /\ "dim" \in Ops /\ Often(6) /\ SetDim
              \/ Live /\ "prob" \in Ops /\ Prob
              \/ Live /\ "prob" \in Ops /\ Sim /\ Prob
              \/ Live /\ "sample" \in Ops /\ Sample
              \/ Live /\ "sample" \in Ops /\ SampleList
              \/ Live /\ "sample" \in Ops /\ Often(6) /\ Refused
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
\* what was asked last matters to caches of the implementation
View == <<objs, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
\* the density computed from L equals the one computed from the covariance
DensityOK == (Last.op = "prob" /\ objs[Last.a.k].t = "g") =>
   LET o == objs[Last.a.k] q == DensityS(Sq(o.b), VSub(Last.a.x, o.a)) IN
   RLe(RAbs(RSub(q, Last.e.p)), RMul("1/1000000000000000000000000000000", q))
SampleInBox == (Last.op \in {"sample", "samples"} /\ objs[Last.a.k].t = "u") =>
   \A i \in 1..Len(Last.e.s) : Inside(objs[Last.a.k], Last.e.s[i])
Frame == [][(Len(hist') > Len(hist) /\ "k" \in DOMAIN hist'[Len(hist')].a) =>
   \A k \in 1..Len(objs) : (k # hist'[Len(hist')].a.k \/ hist'[Len(hist')].op \in {"prob", "sample", "samples", "refused"})
       => objs'[k] = objs[k]]_vars
=============================================================================
