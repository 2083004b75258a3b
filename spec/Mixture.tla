------------------------------ MODULE Mixture -------------------------------
(***************************************************************************)
(* Mixtures of densities: components added, deleted, changed and weighted,   *)
(* copies, density, expected value, sampling.                                *)
(* objs[k] = [t: "cv"/"real"/"int", d: dimension or number of states (int),   *)
(*            c: components, w: weights, ok: weights usable]                  *)
(* A component is a density of Dens, or [t |-> "d", p |-> probabilities].     *)
(***************************************************************************)
EXTENDS Dens

CONSTANTS Types, Dims, Counts, Vals, Diags, Offs, Widths, Weights, Probs, Normals, Draws, Lists, MaxComp, MaxObjs, Ops

VARIABLES objs, hist, done
vars == <<objs, hist, done>>

Lows(n) == IF Sim THEN {RLow(n, Diags, Offs)}
   ELSE {Force([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dg[i] ELSE IF j < i THEN of[i][j] ELSE "0"]]) :
            dg \in [1..n -> Range(Diags)], of \in [1..n -> [1..n -> Range(Offs)]]}
Positive(S) == {v \in S : RSum(v) # "0"}
RECURSIVE SimPositive(_, _)
SimPositive(n, s) == LET v == Force(RVec(n, s)) IN IF RSum(v) # "0" THEN v ELSE SimPositive(n, s)
Rows1(n, s) == IF Sim THEN {Normal(SimPositive(n, s))} ELSE {Normal(v) : v \in Positive([1..n -> Range(s)])}
Comps(o) == IF o.t = "int" THEN {[t |-> "d", d |-> 1, p |-> p] : p \in Rows1(o.d, Weights)}
   ELSE \* Gaussian or box
     LET toss == Force(IF Sim THEN RandInt(1, 3) ELSE 0) IN
     {[t |-> "g", d |-> o.d, a |-> a, b |-> b] : a \in PickVec(o.d, Vals), b \in (IF o.t = "real" \/ toss < 3 THEN Lows(o.d) ELSE {})}
     \cup {[t |-> "u", d |-> o.d, a |-> a, b |-> <<b>>] : a \in PickVec(o.d, Vals), b \in (IF o.t # "real" /\ (toss = 0 \/ toss = 3) THEN PickVec(o.d, Widths) ELSE {})}
\* a component as handed over / observed
Show(c) == IF c.t = "d" THEN c ELSE IF c.t = "g" THEN [t |-> "g", a |-> c.a, b |-> Sq(c.b)] ELSE [t |-> "u", a |-> c.a, b |-> c.b]

N(o) == Len(o.c)
CMean(c) == c.a
Mean(o) == Force([i \in 1..o.d |-> RDot(o.w, [j \in 1..N(o) |-> CMean(o.c[j])[i]])])
CP(c, x) == IF c.t = "d" THEN c.p[x] ELSE Density(c, x)
P(o, x) == RRound(RDot(o.w, Force([j \in 1..N(o) |-> CP(o.c[j], x)])))
\* indices whose value comes within rounding of the highest (0 based)
Tops(v) == LET top == FoldSeq(RMax, "0", v) IN {i - 1 : i \in {j \in 1..Len(v) : RLe(RSub(top, Margin), v[j])}}
SetSeq(S) == Force([i \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = i - 1])
States(o) == Force([s \in 1..o.d |-> RDot(o.w, [j \in 1..N(o) |-> o.c[j].p[s]])])
Obs1(o) == [n |-> N(o), comp |-> Force([j \in 1..N(o) |-> Show(o.c[j])])] @@
  (IF ~o.ok \/ N(o) = 0 THEN <<>>
   ELSE [w |-> o.w, top_any |-> <<SetSeq(Tops(o.w))>>] @@
     (IF o.t = "int" THEN [mean_any |-> <<SetSeq(Tops(States(o)))>>]
      ELSE IF \A j \in 1..N(o) : o.c[j].t = "g" THEN [mean |-> Mean(o)] ELSE <<>>))
Obs(os) == [k \in 1..Len(os) |-> Obs1(os[k])]
Do(o, args, ex, os) == \E now \in {os} :
   /\ objs' = now
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force(Obs(now))] @@ ex))
   /\ UNCHANGED done

NewObj(x) == {[t |-> t, d |-> IF t = "real" THEN 1 ELSE d, n |-> n] : t \in Pick(Types), d \in Pick(Dims), n \in Pick(Counts)}
RECURSIVE SeqsOf(_, _)
SeqsOf(o, n) == IF n = 0 THEN {<<>>} ELSE {Append(s, c) : s \in SeqsOf(o, n - 1), c \in Comps(o)}
Init == objs = <<>> /\ hist = <<>> /\ done = FALSE
New == /\ Len(objs) < MaxObjs
       /\ \E o \in NewObj(hist) : \E cs \in SeqsOf(o, o.n) :
          Do("new", [t |-> o.t, d |-> o.d, c |-> [j \in 1..o.n |-> Show(cs[j])]], <<>>,
             Append(objs, [t |-> o.t, d |-> o.d, c |-> cs, w |-> IF o.n = 0 THEN <<>> ELSE Uniform(o.n), ok |-> TRUE]))
Copy == /\ Len(objs) < MaxObjs
        /\ \E k \in PickN(1, Len(objs)), how \in Pick(<<"copy", "clone">>) :
           objs[k].ok /\ Do("copy", [k |-> k, how |-> how], <<>>, Append(objs, objs[k]))

\* weights when component i gets w: the others keep their ratios
SetOne(ws, i, w) == LET n == Len(ws) others == RSub(RSum(ws), ws[i]) IN
   Force([j \in 1..n |-> IF j = i THEN w
      ELSE IF others = "0" THEN RDiv(RSub("1", w), RInt(n - 1)) ELSE RDiv(RMul(ws[j], RSub("1", w)), others)])
Add == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} : \E c \in Comps(o) :
   /\ o.ok /\ N(o) < MaxComp
   /\ Do("add", [k |-> k, c |-> Show(c)], [ret |-> TRUE],
         [objs EXCEPT ![k] = [@ EXCEPT !.c = Append(@, c), !.w = IF N(o) = 0 THEN <<"1">> ELSE Append(@, "0")]])
AddW == \E k \in PickN(1, Len(objs)), w \in Pick(Probs) : \E o \in {objs[k]} : \E c \in Comps(o) :
   /\ o.ok /\ N(o) < MaxComp
   /\ Do("addw", [k |-> k, c |-> Show(c), w |-> w], [ret |-> TRUE],
         [objs EXCEPT ![k] = [@ EXCEPT !.c = Append(@, c), !.w = IF N(o) = 0 THEN <<"1">> ELSE SetOne(Append(@, "0"), N(o) + 1, w)]])
Without(s, i) == Force([j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]])
Del == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} : \E i \in (IF N(o) = 0 THEN {} ELSE PickN(1, N(o))) :
   \E ws \in {Without(o.w, i)} :
   /\ o.ok /\ (N(o) > 1 => RLe("1/1000000000", RSum(ws)))
   /\ Do("del", [k |-> k, i |-> i], [ret |-> TRUE],
         [objs EXCEPT ![k] = [@ EXCEPT !.c = Without(@, i), !.w = IF N(o) = 1 THEN <<>> ELSE Normal(ws)]])
WSet == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} : \E i \in (IF N(o) = 0 THEN {} ELSE PickN(1, N(o))), w \in Pick(Probs) :
   /\ o.ok /\ (N(o) = 1 => w = "1")
   /\ Do("wset", [k |-> k, i |-> i, w |-> w], [ret |-> TRUE], [objs EXCEPT ![k] = [@ EXCEPT !.w = SetOne(@, i, w)]])
WSets == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} : \E ws \in (IF N(o) = 0 THEN {} ELSE PickVec(N(o), Weights)) :
   \E good \in {RSum(ws) # "0"} :
   Do("wsets", [k |-> k, w |-> ws], [ret |-> good], [objs EXCEPT ![k] = [@ EXCEPT !.w = IF good THEN Normal(ws) ELSE ws, !.ok = good]])
\* a component changed through the pointer the mixture hands out
Touch == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} : \E i \in (IF N(o) = 0 THEN {} ELSE PickN(1, N(o))), c \in Comps(o), whole \in Pick(<<TRUE, FALSE>>) :
   /\ c.t = o.c[i].t
   /\ Do("touch", [k |-> k, i |-> i, c |-> Show(c), all |-> whole], <<>>, [objs EXCEPT ![k] = [@ EXCEPT !.c[i] = c]])

Point(o) == IF o.t = "int" THEN PickN(1, o.d) ELSE PickVec(o.d, Vals)
ProbQ == \E k \in PickN(1, Len(objs)) : \E o \in {objs[k]} :
   /\ o.ok /\ N(o) > 0
   /\ \E x \in Point(o) :
      /\ o.t # "int" => \A j \in 1..N(o) : o.c[j].t = "g" => RLe(Dist2(o.c[j].b, VSub(x, o.c[j].a)), "1000")
      /\ Do("prob", [k |-> k, x |-> x], [p |-> P(o, x)], objs)

\* sampling: uniform draws us choose components, cu / cz feed the components
Need(c) == IF c.t = "d" THEN 1 ELSE c.d
Fits(c, u) == c.t = "d" => Clear(Cum(c.p), u[1])
Value(c, u, z) == IF c.t = "d" THEN InvertP(c.p, u[1]) - 1 ELSE FromDraws(c, IF c.t = "g" THEN z ELSE u)
RECURSIVE Cat(_, _)
Cat(F(_), n) == IF n = 0 THEN <<>> ELSE Cat(F, n - 1) \o F(n)
Drawn(o, us, cu, cz, m, ordered) ==
  LET vs == Force(IF ordered THEN Ripley(us) ELSE us)
      cw == Cum(o.w) IN
  IF \E i \in 1..m : ~Clear(cw, vs[i]) \/ vs[i] = "1" THEN [en |-> FALSE]
  ELSE LET ch == Force([i \in 1..m |-> Invert(cw, vs[i])])
           cutU(i) == LET c == o.c[ch[i]] IN IF c.t = "g" THEN <<>> ELSE [j \in 1..Need(c) |-> cu[i][j]]
           cutZ(i) == LET c == o.c[ch[i]] IN IF c.t = "g" THEN cz[i] ELSE <<>>
           both(i) == <<us[i]>> \o cutU(i)
       IN IF \E i \in 1..m : ~Fits(o.c[ch[i]], cu[i]) THEN [en |-> FALSE]
          ELSE [en |-> TRUE, u |-> IF ordered THEN us \o Cat(cutU, m) ELSE Cat(both, m), z |-> Cat(cutZ, m),
                s |-> Force([i \in 1..m |-> Value(o.c[ch[i]], cu[i], cz[i])])]
Draw(how, m0) == \E k \in PickN(1, Len(objs)), m1 \in (IF m0 = 0 THEN Pick(Lists) ELSE {m0}), pre \in Pick(<<0, 3>>) : \E o \in {objs[k]} :
   /\ o.ok /\ N(o) > 0 /\ (how = "ripley" => m1 > 0)
   /\ \E us \in PickVec(m1, Draws), cu \in PickMat(m1, IF o.t = "int" THEN 1 ELSE o.d, Draws), cz \in PickMat(m1, o.d, Normals) :
      \E r \in {Drawn(o, us, cu, cz, m1, how = "ripley")} :
      r.en /\ Do(how, [k |-> k, n |-> m1, u |-> r.u, z |-> r.z, pre |-> pre], [ret |-> TRUE, s |-> r.s], objs)

\* methods a density does not offer are refused
Refused == \E k \in PickN(1, Len(objs)), how \in Pick(<<"BOXMULLER", "CHOLESKY", "RIPLEY">>), list \in Pick(<<TRUE, FALSE>>) :
   /\ objs[k].ok /\ N(objs[k]) > 0 /\ (list => how # "RIPLEY")
   /\ Do("refused", [k |-> k, how |-> how, list |-> list], [ret |-> FALSE], objs)

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<objs, hist>>
Live == objs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops /\ Often(3)) /\ New
              \/ Live /\ "copy" \in Ops /\ Often(2) /\ Copy
              \/ Live /\ "comp" \in Ops /\ Add
              \/ Live /\ "comp" \in Ops /\ AddW
              \/ Live /\ "comp" \in Ops /\ Del
              \/ Live /\ "weight" \in Ops /\ WSet
              \/ Live /\ "weight" \in Ops /\ WSets
              \/ Live /\ "touch" \in Ops /\ Touch
              \/ Live /\ "prob" \in Ops /\ ProbQ
              \/ Live /\ "prob" \in Ops /\ Sim /\ ProbQ
              \/ Live /\ "sample" \in Ops /\ Draw("sample", 1)
              \/ Live /\ "sample" \in Ops /\ Draw("samples", 0)
              \/ Live /\ "sample" \in Ops /\ Draw("ripley", 0)
              \/ Live /\ "sample" \in Ops /\ Often(3) /\ Refused
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == objs

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
Normalised == \A k \in 1..Len(objs) : (objs[k].ok /\ N(objs[k]) > 0) =>
   /\ RSum(objs[k].w) = "1" /\ Len(objs[k].w) = N(objs[k])
   /\ \A i \in 1..N(objs[k]) : RLe("0", objs[k].w[i])
SetExact == /\ Last.op = "wset" => objs[Last.a.k].w[Last.a.i] = Last.a.w
            /\ (Last.op = "addw" /\ N(objs[Last.a.k]) > 1) => objs[Last.a.k].w[N(objs[Last.a.k])] = Last.a.w
Frame == [][(Len(hist') > Len(hist) /\ "k" \in DOMAIN hist'[Len(hist')].a) =>
   \A k \in 1..Len(objs) : (k # hist'[Len(hist')].a.k \/ hist'[Len(hist')].op \in {"prob", "sample", "samples", "ripley", "refused"})
       => objs'[k] = objs[k]]_vars
=============================================================================
