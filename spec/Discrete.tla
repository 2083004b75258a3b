------------------------------ MODULE Discrete ------------------------------
(***************************************************************************)
(* Discrete probability distributions (DiscretePdf): construction, copies,  *)
(* setting one or all probabilities, queries and sampling.                   *)
(* objs[k] is the exact distribution held by the k-th live object.           *)
(***************************************************************************)
EXTENDS Common

CONSTANTS Sizes,    \* sequence of numbers of states
          Probs,    \* sequence of probabilities for single assignments
          Weights,  \* sequence of weights for whole assignments
          Draws,    \* sequence of uniform draws
          MaxObjs, Ops, Lists  \* Lists: sequence of list lengths

VARIABLES objs, hist, done
vars == <<objs, hist, done>>

N(k) == Len(objs[k])

\* Index (from 0) of a state of maximal probability: all of them, callers may
\* get any.
\* (any of those that rounding cannot tell apart)
MostProbable(p) == {i \in 0..Len(p)-1 : \A j \in 1..Len(p) : RLe(RMul(p[j], "999999999999/1000000000000"), p[i+1])}

Obs(os) == [probs |-> os, single |-> os, n |-> [k \in 1..Len(os) |-> Len(os[k])],
            mps_any |-> [k \in 1..Len(os) |-> MostProbable(os[k])]]

Do(o, args, ex, os) ==
  \E now \in {os} :
    /\ objs' = now
    /\ hist' = Append(hist, Step(o, args, [obs |-> Obs(now)] @@ ex))
    /\ UNCHANGED done

Init == objs = <<>> /\ hist = <<>> /\ done = FALSE

New == /\ Len(objs) < MaxObjs
       /\ \E n \in Pick(Sizes) : Do("new", [n |-> n], <<>>, Append(objs, Uniform(n)))

Copy == /\ Len(objs) < MaxObjs
        /\ \E k \in PickN(1, Len(objs)), how \in Pick(<<"copy", "clone">>) :
             Do("copy", [k |-> k, how |-> how], <<>>, Append(objs, objs[k]))

\* Setting one probability keeps the ratios of the others; when the others
\* have no mass to rescale, the remaining mass is spread evenly.
AfterSetOne(p, s, a) ==
  IF p[s] = "1"
  THEN IF Len(p) = 1 THEN p
       ELSE Force([i \in 1..Len(p) |-> IF i = s THEN a ELSE RDiv(RSub("1", a), RInt(Len(p) - 1))])
  ELSE LET f == RDiv(RSub("1", a), RSub("1", p[s]))
       IN Force([i \in 1..Len(p) |-> IF i = s THEN a ELSE RMul(p[i], f)])

SetOne == \E k \in PickN(1, Len(objs)) : \E s \in PickN(1, N(k)), a \in Pick(Probs) :
   /\ N(k) = 1 => a = "1"
   /\ (objs[k][s] # "1" => RLe(Margin, RSub("1", objs[k][s])))
   /\ Do("set1", [k |-> k, s |-> s - 1, p |-> a], [ret |-> TRUE],
         [objs EXCEPT ![k] = AfterSetOne(objs[k], s, a)])

SetAll == \E k \in PickN(1, Len(objs)) : \E v \in PickVec(N(k), Weights) :
   /\ RLt("0", RSum(v))
   /\ Do("setall", [k |-> k, v |-> v], [ret |-> TRUE], [objs EXCEPT ![k] = Normal(v)])

Sample == \E k \in PickN(1, Len(objs)), u \in Pick(Draws) :
   /\ Clear(Cum(objs[k]), u)
   /\ Do("sample", [k |-> k, u |-> u], [ret |-> TRUE, s |-> <<InvertP(objs[k], u) - 1>>], objs)

SampleList == \E k \in PickN(1, Len(objs)), m \in Pick(Lists), pre \in Pick(<<0, 3>>) : \E us \in PickVec(m, Draws) :
   \E c \in {Cum(objs[k])} :
   /\ \A i \in 1..m : Clear(c, us[i])
   /\ Do("samples", [k |-> k, u |-> us, pre |-> pre],
         [ret |-> TRUE, s |-> [i \in 1..m |-> Invert(c, us[i]) - 1]], objs)

SampleRipley == \E k \in PickN(1, Len(objs)), m \in Pick(Lists), pre \in Pick(<<0, 3>>) : \E us \in PickVec(m, Draws) :
   \E vs \in {Ripley(us)}, c \in {Cum(objs[k])} :
   /\ m > 0
   /\ \A i \in 1..m : Clear(c, vs[i]) /\ vs[i] # "1"
   /\ Do("ripley", [k |-> k, u |-> us, pre |-> pre],
         [ret |-> TRUE, s |-> [i \in 1..m |-> Invert(c, vs[i]) - 1]], objs)

\* methods a density does not offer are refused
Refused == \E k \in PickN(1, Len(objs)), how \in Pick(<<"BOXMULLER", "CHOLESKY", "RIPLEY">>), list \in Pick(<<TRUE, FALSE>>) :
   /\ list => how # "RIPLEY"
   /\ Do("refused", [k |-> k, how |-> how, list |-> list], [ret |-> FALSE], objs)

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<objs, hist>>

Live == objs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "set" \in Ops /\ SetOne
              \/ Live /\ "set" \in Ops /\ SetAll
              \/ Live /\ "sample" \in Ops /\ Sample
              \/ Live /\ "sample" \in Ops /\ SampleList
              \/ Live /\ "sample" \in Ops /\ SampleRipley
              \/ Live /\ "sample" \in Ops /\ Often(3) /\ Refused
        \/ Stop

Spec == Init /\ [][Next]_vars

EmitT == ~Sim => Emit(ToJson(hist'))
View == objs
\* ------------------------------------------------------------ properties
TypeOK == \A k \in 1..Len(objs) : \A i \in 1..Len(objs[k]) : RLe("0", objs[k][i])
Normalised == \A k \in 1..Len(objs) : RSum(objs[k]) = "1"
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
\* the probability just set is the probability read back, and the ratios of
\* the others survive
SetOneExact == Last.op = "set1" =>
   objs[Last.a.k][Last.a.s + 1] = Last.a.p
\* a sampled state exists, has positive probability and its cumulative
\* interval contains the draw; ordered draws give ordered states
SampleInSupport == Last.op \in {"sample", "samples", "ripley"} =>
   /\ \A i \in 1..Len(Last.e.s) : /\ Last.e.s[i] \in 0..N(Last.a.k)-1
                                  /\ RLt("0", objs[Last.a.k][Last.e.s[i]+1])
   /\ Last.op = "ripley" => \A i \in 1..Len(Last.e.s)-1 : Last.e.s[i] <= Last.e.s[i+1]
   /\ Last.op = "sample" => LET c == Cum(objs[Last.a.k]) i == Last.e.s[1]+1 IN
        /\ RLt(Last.a.u, c[i]) /\ (i > 1 => RLe(c[i-1], Last.a.u))
\* operations on one object leave the others alone
Frame == [][\A k \in 1..Len(objs) :
              (Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"set1", "setall"}
               /\ hist'[Len(hist')].a.k # k) => objs'[k] = objs[k]]_vars
=============================================================================
