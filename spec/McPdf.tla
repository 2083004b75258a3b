------------------------------- MODULE McPdf --------------------------------
(***************************************************************************)
(* Sample-based (Monte Carlo) distributions: lists of weighted samples set, *)
(* updated, resized, copied, queried and sampled.                            *)
(* objs[k] = [t: "cv"/"uint", d: dimension, v: values, w: weights, ok]       *)
(* (ok = FALSE: no usable list yet, or the last one had zero total weight).  *)
(***************************************************************************)
EXTENDS Common

CONSTANTS Types, Dims, Sizes, Vals, UVals, Weights, Draws, Lists, MaxObjs, Ops

VARIABLES objs, hist, done
vars == <<objs, hist, done>>

One(S) == CHOOSE x \in S : TRUE
\* All (random) lists of m values of an object's type
Values(t, d, m) == IF t = "uint" THEN PickMat(m, 1, UVals) ELSE PickMat(m, d, Vals)

Mean(o) == LET m == Force([i \in 1..o.d |-> RDot(o.w, [j \in 1..Len(o.w) |-> o.v[j][i]])])
           IN IF o.t = "uint" THEN <<RFloor(RAdd(m[1], "1/2"))>> ELSE m
Cov(o) == LET mu == Mean(o)
              x == Force([i \in 1..o.d |-> [j \in 1..Len(o.w) |-> RSub(o.v[j][i], mu[i])]])
          IN Force([i \in 1..o.d |-> [k \in 1..o.d |->
               RDot(o.w, [j \in 1..Len(o.w) |-> RMul(x[i][j], x[k][j])])]])
\* the expected value of integers is rounded; leave ties to the implementation
MeanClear(o) == o.t = "uint" =>
   LET m == RDot(o.w, [j \in 1..Len(o.w) |-> o.v[j][1]])
       f == RSub(RAdd(m, "1/2"), RFloor(RAdd(m, "1/2")))
   IN RLe(Margin, f) /\ RLe(Margin, RSub("1", f))

Obs1(o) == IF ~o.ok THEN [n |-> Len(o.v)]
   ELSE [n |-> Len(o.v), v |-> o.v, w |-> o.w, cum |-> <<"0">> \o Cum(o.w)] @@
        (IF MeanClear(o) THEN [mean |-> Mean(o), cov |-> Cov(o)] ELSE <<>>)
Obs(os) == [k \in 1..Len(os) |-> Obs1(os[k])]

Do(o, args, ex, os) == \E now \in {os} :
   /\ objs' = now
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force(Obs(now))] @@ ex))
   /\ UNCHANGED done
Blank(t, d, n) == [t |-> t, d |-> d, v |-> [i \in 1..n |-> [j \in 1..d |-> "0"]], w |-> Uniform(IF n = 0 THEN 1 ELSE n), ok |-> FALSE]

NewObj(x) == {Blank(t, IF t = "uint" THEN 1 ELSE d, n) : t \in Pick(Types), d \in Pick(Dims), n \in Pick(Sizes)}
Init == objs = <<>> /\ hist = <<>> /\ done = FALSE
New == /\ Len(objs) < MaxObjs
       /\ \E o \in NewObj(hist) : Do("new", [t |-> o.t, d |-> o.d, n |-> Len(o.v)], <<>>, Append(objs, o))
Copy == /\ Len(objs) < MaxObjs
        /\ \E k \in PickN(1, Len(objs)), how \in Pick(<<"copy", "clone">>) :
           /\ objs[k].ok
           /\ Do("copy", [k |-> k, how |-> how], <<>>, Append(objs, objs[k]))

\* an object assigned from another
Assign == \E k \in PickN(1, Len(objs)), j \in PickN(1, Len(objs)) :
   /\ objs[j].ok /\ objs[k].t = objs[j].t /\ objs[k].d = objs[j].d
   /\ Do("assign", [k |-> k, from |-> j], <<>>, [objs EXCEPT ![k] = objs[j]])
\* the list given is the one another object (or the same) holds
SetFrom == \E k \in PickN(1, Len(objs)), j \in PickN(1, Len(objs)), upd \in Pick(<<TRUE, FALSE>>) :
   /\ objs[j].ok /\ objs[k].t = objs[j].t /\ objs[k].d = objs[j].d /\ (upd => Len(objs[k].v) = Len(objs[j].v))
   /\ Do("from", [k |-> k, from |-> j, upd |-> upd], [ret |-> TRUE], [objs EXCEPT ![k] = objs[j]])

With(k, vs, ws, good) == [objs EXCEPT ![k] = [@ EXCEPT !.v = vs, !.w = ws, !.ok = good]]
\* op "setw"/"setu": replace the list (any length); "updw"/"updu": a list of
\* the present length
SetWeighted == \E k \in PickN(1, Len(objs)), how \in Pick(<<"setw", "updw">>), m0 \in Pick(Sizes) :
   LET m == IF how = "updw" THEN Len(objs[k].v) ELSE m0 IN
   \E vs \in Values(objs[k].t, objs[k].d, m), ws \in PickVec(m, Weights) :
   LET good == RSum(ws) # "0" IN
     /\ m > 0
     /\ Do(how, [k |-> k, v |-> vs, w |-> ws], [ret |-> good],
           With(k, vs, IF good THEN Normal(ws) ELSE ws, good))
SetPlain == \E k \in PickN(1, Len(objs)), how \in Pick(<<"setu", "updu">>), m0 \in Pick(Sizes) :
   LET m == IF how = "updu" THEN Len(objs[k].v) ELSE m0 IN
   \E vs \in Values(objs[k].t, objs[k].d, m) :
     /\ m > 0
     /\ Do(how, [k |-> k, v |-> vs], [ret |-> TRUE], With(k, vs, Uniform(m), TRUE))
\* changing the number of samples invalidates the list until it is updated
Resize == \E k \in PickN(1, Len(objs)), m \in Pick(Sizes) :
   /\ m > 0 /\ m # Len(objs[k].v)
   /\ Do("resize", [k |-> k, n |-> m], <<>>,
         [objs EXCEPT ![k] = Blank(objs[k].t, objs[k].d, m)])

Sample == \E k \in PickN(1, Len(objs)), u \in Pick(Draws) :
   /\ objs[k].ok /\ Clear(Cum(objs[k].w), u)
   /\ Do("sample", [k |-> k, u |-> u], [ret |-> TRUE, s |-> <<objs[k].v[InvertP(objs[k].w, u)]>>], objs)
SampleList == \E k \in PickN(1, Len(objs)), m \in Pick(Lists), pre \in Pick(<<0, 3>>) : \E us \in PickVec(m, Draws) :
   \E c \in {Cum(objs[k].w)} :
   /\ objs[k].ok /\ \A i \in 1..m : Clear(c, us[i])
   /\ Do("samples", [k |-> k, u |-> us, pre |-> pre],
         [ret |-> TRUE, s |-> [i \in 1..m |-> objs[k].v[Invert(c, us[i])]]], objs)
SampleRipley == \E k \in PickN(1, Len(objs)), m \in Pick(Lists), pre \in Pick(<<0, 3>>) : \E us \in PickVec(m, Draws) :
   \E vs \in {Ripley(us)}, c \in {Cum(objs[k].w)} :
   /\ objs[k].ok /\ m > 0 /\ \A i \in 1..m : Clear(c, vs[i]) /\ vs[i] # "1"
   /\ Do("ripley", [k |-> k, u |-> us, pre |-> pre],
         [ret |-> TRUE, s |-> [i \in 1..m |-> objs[k].v[Invert(c, vs[i])]]], objs)

\* methods a density does not offer are refused
Refused == \E k \in PickN(1, Len(objs)), how \in Pick(<<"BOXMULLER", "CHOLESKY", "RIPLEY">>), list \in Pick(<<TRUE, FALSE>>) :
   /\ objs[k].ok /\ (list => how # "RIPLEY")
   /\ Do("refused", [k |-> k, how |-> how, list |-> list], [ret |-> FALSE], objs)

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<objs, hist>>
Live == objs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "copy" \in Ops /\ Often(2) /\ Assign
              \/ Live /\ "set" \in Ops /\ Often(2) /\ SetFrom
              \/ Live /\ "set" \in Ops /\ SetWeighted
              \/ Live /\ "set" \in Ops /\ SetPlain
              \/ Live /\ "resize" \in Ops /\ Often(3) /\ Resize
              \/ Live /\ "sample" \in Ops /\ Sample
              \/ Live /\ "sample" \in Ops /\ SampleList
              \/ Live /\ "sample" \in Ops /\ SampleRipley
              \/ Live /\ "sample" \in Ops /\ Often(3) /\ Refused
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == objs

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
Normalised == \A k \in 1..Len(objs) : objs[k].ok =>
   /\ RSum(objs[k].w) = "1" /\ Len(objs[k].w) = Len(objs[k].v)
   /\ \A i \in 1..Len(objs[k].w) : RLe("0", objs[k].w[i])
\* ratios of the weights given survive
Proportional == (Last.op \in {"setw", "updw"} /\ Last.e.ret) =>
   LET o == objs[Last.a.k] IN \A i, j \in 1..Len(o.w) : RMul(o.w[i], Last.a.w[j]) = RMul(o.w[j], Last.a.w[i])
\* covariance: symmetric, diagonal not negative, Cauchy-Schwarz
CovOK == \A k \in 1..Len(objs) : objs[k].ok => LET c == Cov(objs[k]) d == objs[k].d IN
   \A i, j \in 1..d : c[i][j] = c[j][i] /\ RLe("0", c[i][i]) /\ RLe(RSq(c[i][j]), RMul(c[i][i], c[j][j]))
SamplesHeld == Last.op \in {"sample", "samples", "ripley"} =>
   \A i \in 1..Len(Last.e.s) : \E j \in 1..Len(objs[Last.a.k].v) :
      objs[Last.a.k].v[j] = Last.e.s[i] /\ RLt("0", objs[Last.a.k].w[j])
Frame == [][(Len(hist') > Len(hist) /\ "k" \in DOMAIN hist'[Len(hist')].a) =>
   \A k \in 1..Len(objs) : (k # hist'[Len(hist')].a.k \/ hist'[Len(hist')].op \in {"sample", "samples", "ripley", "refused"})
       => objs'[k] = objs[k]]_vars
=============================================================================
