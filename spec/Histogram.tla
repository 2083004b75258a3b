----------------------------- MODULE Histogram ------------------------------
(***************************************************************************)
(* The histogram filter: Bayes recursion over a finite state space, with    *)
(* system models with and without inputs, measurement models with and       *)
(* without sensor parameters, any order of full, system and measurement     *)
(* updates, and resets; between updates the models can be changed or given    *)
(* another pdf, and the prior and the posterior objects be written to.       *)
(*   setup : prior and the tables of all models                             *)
(*   post  : exact posterior        dead : the last update had no evidence   *)
(*   past  : (ghost) the factors applied since the last (re)start, from     *)
(*   start : (ghost) the distribution held then                              *)
(***************************************************************************)
EXTENDS Common

CONSTANTS Setups,   \* exhaustive search: the setups to explore
          Sizes, Rows, Liks, NumSys, NumMeas, MaxU, MaxZ, MaxS,  \* simulation
          Ghost     \* longest history whose joint distribution is enumerated

VARIABLES setup, post, dead, past, start, hist, done
vars == <<setup, post, dead, past, start, hist, done>>

Fix(v) == IF RSum(v) = "0" THEN Uniform(Len(v)) ELSE Normal(v)
One(S) == CHOOSE x \in S : TRUE
R(lo, hi) == RandInt(lo, hi)

\* A system model: t[u][from] is a distribution over the next state; nu = 0
\* means a model without inputs (t then has one entry).
RandomSys(n) == LET nu == Force(R(0, MaxU)) IN
  [nu |-> nu, t |-> Force([u \in 1..(IF nu = 0 THEN 1 ELSE nu) |->
                 Force([f \in 1..n |-> Fix(One(PickVec(n, Rows)))])])]
\* A measurement model: t[s][x][z] is the likelihood of z; not normalised.
RandomMeas(n) == LET ns == Force(R(0, MaxS)) nz == Force(R(1, MaxZ)) IN
  [ns |-> ns, nz |-> nz, t |-> Force([s \in 1..(IF ns = 0 THEN 1 ELSE ns) |-> One(PickMat(n, nz, Liks))])]
RandomSetup(x) == LET n == Force(One(Pick(Sizes))) IN
  [n |-> n, kind |-> One(Pick(<<"int", "cv">>)), prior |-> Fix(One(PickVec(n, Rows))),
   sys |-> Force([i \in 1..NumSys |-> RandomSys(n)]),
   meas |-> Force([i \in 1..NumMeas |-> RandomMeas(n)])]

NX == setup.n
Sys(i) == setup.sys[i]
Meas(i) == setup.meas[i]
Slice(k) == IF k = 0 THEN 1 ELSE k

\* p(x') = sum over x of T(x' | x, u) p(x)
Predict(p, m, u) == Force([y \in 1..NX |-> RSum([x \in 1..NX |-> RMul(m.t[u][x][y], p[x])])])
\* p(x) L(z | x, s), not normalised
Weigh(p, m, z, s) == Force([x \in 1..NX |-> RMul(p[x], m.t[s][x][z])])

\* the caller's prior object is the filter's own after a reset
Obs(p) == [post |-> p, prior |-> setup.prior]
Log(o, args, ex) == hist' = Append(hist, Step(o, args, ex))

Init == setup = [n |-> 0] /\ post = <<>> /\ dead = FALSE /\ past = <<>> /\ start = <<>> /\ hist = <<>> /\ done = FALSE
Start == \E st \in (IF Sim THEN {RandomSetup(hist)} ELSE Range(Setups)) :
   /\ setup' = st /\ post' = st.prior /\ start' = st.prior
   /\ Log("setup", st, [post |-> st.prior, prior |-> st.prior])
   /\ UNCHANGED <<dead, past, done>>

\* i, j = 0: no system / measurement model in this update; wu, ws: the caller
\* passes an input / sensor parameter (necessarily when the model needs it).
Update == \E i \in PickN(0, Len(setup.sys)), j \in PickN(0, Len(setup.meas)) :
  \E u \in PickN(1, IF i = 0 THEN 1 ELSE Slice(Sys(i).nu)),
     z \in PickN(1, IF j = 0 THEN 1 ELSE Meas(j).nz),
     s \in PickN(1, IF j = 0 THEN 1 ELSE Slice(Meas(j).ns)),
     wu \in Pick(IF i = 0 THEN <<FALSE>> ELSE IF Sys(i).nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
     ws \in Pick(IF j = 0 THEN <<FALSE>> ELSE IF Meas(j).ns > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>) :
  /\ i + j > 0 /\ ~dead
  /\ \E r \in {LET p1 == Force(IF i = 0 THEN post ELSE Predict(post, Sys(i), u))
         w  == Force(IF j = 0 THEN p1 ELSE Weigh(p1, Meas(j), z, s))
         ok == RSum(w) # "0"
         p2 == Force(IF ok THEN Normal(w) ELSE post)
     IN [p2 |-> p2, ok |-> ok, en |-> ok => RLe("1/100000000000000000000", RSum(w))]} :
        /\ r.en /\ post' = r.p2 /\ dead' = ~r.ok
        /\ past' = past \o (IF i = 0 THEN <<>> ELSE <<[k |-> "s", t |-> Sys(i).t[u]]>>)
                        \o (IF j = 0 THEN <<>> ELSE <<[k |-> "m", t |-> [x \in 1..NX |-> Meas(j).t[s][x][z]]]>>)
        /\ Log("upd", [s |-> i, m |-> j, u |-> u - 1, z |-> z - 1, sp |-> s - 1, wu |-> wu, ws |-> ws],
               IF r.ok THEN [ret |-> TRUE] @@ Obs(r.p2) ELSE [ret |-> FALSE])
        /\ UNCHANGED <<setup, start, done>>

Reset == \E v \in PickVec(NX, Rows) :
   /\ RSum(v) # "0"
   /\ post' = Normal(v) /\ start' = Normal(v) /\ dead' = FALSE /\ past' = <<>>
   /\ setup' = [setup EXCEPT !.prior = Normal(v)]
   /\ Log("reset", [v |-> v], [post |-> Normal(v), prior |-> Normal(v)])
   /\ UNCHANGED done

\* One row of a model's table is written (and perhaps the model is given a
\* fresh pdf holding the new table): later updates use it.
Retune == \E kind \in Pick(<<"sys", "meas">>), how \in Pick(<<"edit", "replace">>) :
  \E i \in PickN(1, IF kind = "sys" THEN Len(setup.sys) ELSE Len(setup.meas)) :
  \E u \in PickN(1, Slice(IF kind = "sys" THEN Sys(i).nu ELSE Meas(i).ns)), x \in PickN(1, NX) :
  \E v \in (IF kind = "sys" THEN {Fix(One(PickVec(NX, Rows)))} ELSE PickVec(Meas(i).nz, Liks)) :
   /\ Sim
   /\ setup' = IF kind = "sys" THEN [setup EXCEPT !.sys[i].t[u][x] = v] ELSE [setup EXCEPT !.meas[i].t[u][x] = v]
   /\ Log("retune", [kind |-> kind, how |-> how, i |-> i, u |-> u - 1, x |-> x - 1, v |-> v,
                      t |-> IF kind = "sys" THEN setup'.sys[i].t ELSE setup'.meas[i].t], IF dead THEN [ret |-> 0] ELSE [ret |-> 0] @@ Obs(post))
   /\ UNCHANGED <<post, dead, past, start, done>>

\* the caller writes to the object it constructed the filter from or last
\* reset it to: the filter's estimate is its own
PriorSet == \E v \in PickVec(NX, Rows) :
   /\ Sim /\ RSum(v) # "0"
   /\ setup' = [setup EXCEPT !.prior = Normal(v)]
   /\ Log("priorset", [v |-> v], IF dead THEN [prior |-> Normal(v)] ELSE [post |-> post, prior |-> Normal(v)])
   /\ UNCHANGED <<post, dead, past, start, done>>

\* the caller corrects the estimate itself, through PostGet
PostSet == \E v \in PickVec(NX, Rows) :
   /\ Sim /\ RSum(v) # "0"
   /\ post' = Normal(v) /\ start' = Normal(v) /\ dead' = FALSE /\ past' = <<>>
   /\ Log("postset", [v |-> v], Obs(Normal(v)))
   /\ UNCHANGED <<setup, done>>

Query == \E i \in PickN(1, Len(setup.sys)), j \in PickN(1, Len(setup.meas)) :
   \E u \in PickN(1, Slice(Sys(i).nu)), s \in PickN(1, Slice(Meas(j).ns)) :
   /\ Sim
   /\ Log("query", [s |-> i, m |-> j, u |-> u - 1, sp |-> s - 1],
          [sys |-> Sys(i).t[u], meas |-> Meas(j).t[s]])
   /\ UNCHANGED <<setup, post, dead, past, start, done>>

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, post, dead, past, start, hist>>

Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ (~dead => Often(6)) /\ Reset
        \/ More /\ Sim /\ Often(4) /\ Retune
        \/ More /\ Sim /\ Often(8) /\ PriorSet
        \/ More /\ Sim /\ Often(10) /\ PostSet
        \/ More /\ Often(5) /\ Query
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, past, dead, post>>

\* ------------------------------------------------------------ properties
Normalised == ~dead /\ setup.n > 0 => (RSum(post) = "1" /\ \A x \in 1..NX : RLe("0", post[x]))
\* Bayes' rule from first principles: the posterior is the marginal of the
\* joint distribution of all state paths, restricted to the observations.
NumMoves == Cardinality({q \in 1..Len(past) : past[q].k = "s"})
RECURSIVE JointFrom(_, _, _)
\* weight of path (a sequence of states) from factor q on, at path position t
JointFrom(path, q, t) ==
  IF q > Len(past) THEN "1"
  ELSE LET f == past[q] IN
       IF f.k = "s" THEN RMul(f.t[path[t]][path[t+1]], JointFrom(path, q + 1, t + 1))
       ELSE RMul(f.t[path[t]], JointFrom(path, q + 1, t))
Joint(path) == RMul(start[path[1]], JointFrom(path, 1, 1))
RECURSIVE RSumOver(_, _)
RSumOver(S, f) == IF S = {} THEN "0" ELSE LET x == CHOOSE x \in S : TRUE IN RAdd(f[x], RSumOver(S \ {x}, f))
BayesExact == (~dead /\ Len(past) <= Ghost /\ Len(past) > 0) =>
   LET T == NumMoves + 1
       paths == [1..T -> 1..NX]
       w == Force([p \in paths |-> Joint(p)])
       m == Force([x \in 1..NX |-> RSumOver({p \in paths : p[T] = x}, w)])
   IN Normal(m) = post
=============================================================================
