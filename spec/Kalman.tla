------------------------------- MODULE Kalman --------------------------------
(***************************************************************************)
(* Kalman filters (extended, iterated and square root) and the Rauch-Tung-    *)
(* Striebel smoother, over linear models and over models with quadratic      *)
(* terms and state-dependent noise.                                          *)
(*   x_i(t+1) = sum_j a_ij x_j + c_ij x_j^2 + b u + mu + noise (1 + g x_1^2)q *)
(*   setup : prior, models, filter type     mu, pp : posterior                *)
(*   trail : filtered posterior before every system update, model and input    *)
(*   jm, jp: (ghost) exact joint Gaussian of all states since the start,        *)
(*           kept while every model used is linear and the history is short     *)
(***************************************************************************)
EXTENDS KfModels

CONSTANTS Setups, Lins, FTypes, Iters, Innovs, Dims, MDims, Vals, NumSys, NumMeas, MaxU, MaxS, Ghost, Ops

VARIABLES setup, mu, pp, trail, jm, jp, joint, last, hist, done
vars == <<setup, mu, pp, trail, jm, jp, joint, last, hist, done>>

RandomSetup(x) ==
  LET n == Force(One(Pick(Dims))) lin == Force(One(Pick(Lins)))
      kl(i) == lin = "lin" \/ (lin = "mix" /\ i = 1)
      ft == Force(One(Pick(FTypes)))
  IN [n |-> n, ft |-> ft, it |-> One(Pick(Iters)), inn |-> One(Pick(Innovs)),
      alloc |-> One(Pick(<<<<>>, <<1>>, <<2, 1>>, <<1, 2, 3>>>>)),
      mu |-> RVec(n, Vals), p |-> Sq(RLow(n, IF ft = "sr" THEN Diags ELSE <<"0">> \o Diags, Offs)),
      sys |-> Force([i \in 1..NumSys |-> RandomM(n, n, RandInt(0, MaxU), kl(i))]),
      meas |-> Force([i \in 1..NumMeas |-> RandomM(One(Pick(MDims)), n, RandInt(0, MaxS), kl(i))])]

\* the iterated filter relinearises around its own estimate, at most `it'
\* times, stopping when the squared change falls below `inn' (if given)
RECURSIVE Iterate(_, _, _, _, _, _, _)
Iterate(m, x, p, z, u, xi, left) ==
   LET h == Jac(m, xi)
       zi == VAdd(F(m, xi, u), MatVec(h, VSub(x, xi)))
       r == Force(Correct(x, p, z, zi, h, Noise(m, xi)))
       d == Force(RRound(LET e == VSub(r.mu, xi) IN RDot(e, e)))
       clear == setup.inn # "none" => RLe("1/100000", RAbs(RSub(RDiv(d, RMax(setup.inn, "1/1000000")), "1"))) \/ setup.inn = "0"
       go == left > 1 /\ (setup.inn # "none" => RLe(setup.inn, d))
   IN IF ~clear \/ ~Tame(r.mu, r.pp) THEN [en |-> FALSE]
      ELSE IF go THEN Iterate(m, x, p, z, u, r.mu, left - 1) ELSE [en |-> TRUE] @@ r
MeasUpd(m, x, p, z, u) == IF setup.ft # "ekf" THEN Iterate(m, x, p, z, u, x, setup.it)
   ELSE [en |-> TRUE] @@ Correct(x, p, z, F(m, x, u), Jac(m, x), Noise(m, x))
Nis(m, x, p, z) == LET e == VSub(z, F(m, x, <<"0">>)) h == Jac(m, x) IN Quad(MInv(MAdd(Sandwich(h, p), Noise(m, x))), e)

\* ---------------------------------------------------------------- smoother
\* one backward step from the smoothed estimate [mu, pp] of the next state
Back(m, u, x, p, sm) ==
   LET f == Jac(m, x)
       pr == Force(MAdd(Sandwich(f, p), Noise(m, x)))
       k == MMul(MMul(p, T(f)), MInv(pr))
   IN [mu |-> VRound(VAdd(x, MatVec(k, VSub(sm.mu, F(m, x, u))))),
       pp |-> MRound(MSub(p, Sandwich(k, MSub(pr, sm.pp))))]
RECURSIVE Smooth(_, _)
Smooth(t, sm) == IF t = 0 THEN <<>>
   ELSE LET e == trail[t] r == Force(Back(e.m, e.u, e.mu, e.pp, sm)) IN <<r>> \o Smooth(t - 1, r)

\* ---------------------------------------------------------------- ghost joint
Blk(p, i, n) == (i - 1) * n + p
JPredict(m, u) == LET n == setup.n k == Len(jm) \div n s == Len(jm)
      \* the linear map of the stacked vector that adds the new state
      row(q) == [c \in 1..s |-> IF c > (k - 1) * n THEN m.a[q][c - (k - 1) * n] ELSE "0"]
      e == Force([q \in 1..(s + n) |-> IF q <= s THEN [c \in 1..s |-> IF c = q THEN "1" ELSE "0"] ELSE row(q - s)])
      cv == Sandwich(e, jp)
      x == [q \in 1..n |-> jm[(k - 1) * n + q]]
  IN [jm |-> jm \o F(m, x, u),
      jp |-> Force([i \in 1..(s + n) |-> [j \in 1..(s + n) |-> IF i > s /\ j > s THEN RAdd(cv[i][j], m.q[i - s][j - s]) ELSE cv[i][j]]])]
JCorrect(jm0, jp0, m, z, u) == LET n == setup.n s == Len(jm0)
      h == Force([i \in 1..Rows(m.a) |-> [c \in 1..s |-> IF c > s - n THEN m.a[i][c - (s - n)] ELSE "0"]])
      x == [q \in 1..n |-> jm0[s - n + q]]
      w == MMul(jp0, T(h))
      k == MMul(w, MInv(MAdd(MMul(h, w), m.q)))
  IN [jm |-> VAdd(jm0, MatVec(k, VSub(z, F(m, x, u)))), jp |-> MSub(jp0, MMul(k, T(w)))]

\* ---------------------------------------------------------------- actions
NoModel == [nu |-> 0, lin |-> TRUE]
\* the square root filter hands out a matrix whose square is the covariance
Root(p) == IF setup.ft = "sr" THEN [sq |-> p] ELSE <<>>
Obs(x, p) == [mean |-> x, cov |-> p] @@ Root(p) @@ [prior |-> [mean |-> setup.mu, cov |-> setup.p]]
Log(o, args, ex) == hist' = Append(hist, Step(o, args, ex))

Init == /\ setup = [n |-> 0] /\ mu = <<>> /\ pp = <<>> /\ trail = <<>> /\ jm = <<>> /\ jp = <<>> /\ joint = TRUE
        /\ last = [k |-> "init"] /\ hist = <<>> /\ done = FALSE
Start == \E st \in (IF Sim THEN {RandomSetup(hist)} ELSE Range(Setups)) :
   /\ setup' = st /\ mu' = st.mu /\ pp' = st.p /\ jm' = st.mu /\ jp' = st.p
   /\ Log("setup", st, [mean |-> st.mu, cov |-> st.p])
   /\ UNCHANGED <<trail, joint, last, done>>

\* the difference P - KHP does not cancel nearly all digits
Moderate(p, q) == \A i \in 1..Len(p) : RLe(RMul("1/2000", p[i][i]), q[i][i])
Compute(sm, mm, i, j, u, s, z) ==
  LET a == Force(IF i = 0 THEN [mu |-> mu, pp |-> pp] ELSE Predict(sm, mu, pp, u)) IN
  IF ~Tame(a.mu, a.pp) THEN [en |-> FALSE]
  ELSE LET b == Force(IF j = 0 THEN [en |-> TRUE] @@ a ELSE MeasUpd(mm, a.mu, a.pp, z, s)) IN
  IF ~b.en THEN [en |-> FALSE] ELSE IF ~Tame(b.mu, b.pp) \/ ~Moderate(a.pp, b.pp) THEN [en |-> FALSE] ELSE
  LET keep == joint /\ sm.lin /\ mm.lin /\ Len(jm) + (IF i = 0 THEN 0 ELSE setup.n) <= Ghost
      g1 == Force(IF ~keep \/ i = 0 THEN [jm |-> jm, jp |-> jp] ELSE JPredict(sm, u))
      g2 == Force(IF ~keep \/ j = 0 THEN g1 ELSE JCorrect(g1.jm, g1.jp, mm, z, s))
  IN [en |-> TRUE, mu |-> b.mu, pp |-> b.pp, keep |-> keep, jm |-> VRound(g2.jm), jp |-> MRound(g2.jp)]

Arg2(m) == IF m.nu = 0 THEN {<<"0">>} ELSE PickVec(m.nu, Vals)
Update == \E i \in PickN(0, Len(setup.sys)), j \in PickN(0, Len(setup.meas)) :
  /\ i + j > 0
  /\ \E sm \in {IF i = 0 THEN NoModel ELSE setup.sys[i]}, mm \in {IF j = 0 THEN NoModel ELSE setup.meas[j]} :
     \E u \in Arg2(sm), s \in Arg2(mm), z \in (IF j = 0 THEN {<<"0">>} ELSE PickVec(Len(mm.mu), Vals)),
        wu \in Pick(IF i = 0 THEN <<FALSE>> ELSE IF sm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
        ws \in Pick(IF j = 0 THEN <<FALSE>> ELSE IF mm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>) :
     \E r \in {Compute(sm, mm, i, j, u, s, z)} :
       /\ r.en /\ mu' = r.mu /\ pp' = r.pp /\ jm' = r.jm /\ jp' = r.jp /\ joint' = r.keep
       /\ trail' = IF i = 0 THEN trail ELSE Append(trail, [mu |-> mu, pp |-> pp, m |-> sm, u |-> u, i |-> i])
       /\ last' = [k |-> "upd"]
       /\ Log("upd", [s |-> i, m |-> j, u |-> u, z |-> z, sp |-> s, wu |-> wu, ws |-> ws], [ret |-> TRUE] @@ Obs(r.mu, r.pp))
       /\ UNCHANGED <<setup, done>>

NisQ == \E j \in PickN(1, Len(setup.meas)) : \E mm \in {setup.meas[j]} : \E z \in PickVec(Len(mm.mu), Vals) :
   /\ setup.ft = "ekf" /\ mm.nu = 0
   /\ Log("nis", [m |-> j, z |-> z], [nis |-> RRound(Nis(mm, mu, pp, z))] @@ Obs(mu, pp))
   /\ UNCHANGED <<setup, mu, pp, trail, jm, jp, joint, last, done>>

\* ------------------------------------------------ changes between updates
\* A part of a model gets another value: written into the model or its pdf, or
\* the model is given a fresh pdf.
Retune == \E kind \in Pick(<<"sys", "meas">>), how \in Pick(<<"edit", "edit", "replace">>) :
   \E i \in PickN(1, Len(setup[kind])) : \E m \in {setup[kind][i]} : \E w \in Pick(Editable(m)) : \E v \in {NewPart(m, w)} :
   \E new \in {[m EXCEPT ![w] = v]} :
   /\ setup' = [setup EXCEPT ![kind][i] = new]
   /\ Log("retune", [kind |-> kind, i |-> i, how |-> how, w |-> w, v |-> v, m |-> new], Obs(mu, pp))
   /\ UNCHANGED <<mu, pp, trail, jm, jp, joint, last, done>>

\* the caller writes to the Gaussian it gave: the estimate is the filter's own
Write == \E x \in {RVec(setup.n, Vals)}, p \in {Sq(RLow(setup.n, Diags, Offs))}, part \in Pick(<<"mean", "cov", "both">>) :
   /\ setup' = [setup EXCEPT !.mu = IF part = "cov" THEN @ ELSE x, !.p = IF part = "mean" THEN @ ELSE p]
   /\ Log("write", [part |-> part, mu |-> x, p |-> p, post |-> FALSE],
          [Obs(mu, pp) EXCEPT !.prior = [mean |-> setup'.mu, cov |-> setup'.p]])
   /\ UNCHANGED <<mu, pp, trail, jm, jp, joint, last, done>>
\* the caller corrects the estimate itself, through PostGet
PostSet == \E x \in {RVec(setup.n, Vals)}, p \in {Sq(RLow(setup.n, Diags, Offs))}, part \in Pick(<<"mean", "cov", "both">>) :
   \E nx \in {IF part = "cov" THEN mu ELSE x}, np \in {IF part = "mean" THEN pp ELSE p} :
   /\ setup.ft # "sr"
   /\ mu' = nx /\ pp' = np /\ trail' = <<>> /\ jm' = nx /\ jp' = np /\ joint' = TRUE /\ last' = [k |-> "set"]
   /\ Log("write", [part |-> part, mu |-> x, p |-> p, post |-> TRUE], Obs(nx, np))
   /\ UNCHANGED <<setup, done>>

Reset == \E x \in {RVec(setup.n, Vals)}, p \in {Sq(RLow(setup.n, Diags, Offs))} :
   /\ mu' = x /\ pp' = p /\ trail' = <<>> /\ jm' = x /\ jp' = p /\ joint' = TRUE
   /\ setup' = [setup EXCEPT !.mu = x, !.p = p]
   /\ last' = [k |-> "reset"]
   /\ Log("reset", [mu |-> x, p |-> p], [mean |-> x, cov |-> p, prior |-> [mean |-> x, cov |-> p]] @@ Root(p))
   /\ UNCHANGED done

\* the square root filter can be given a new estimate, with or without a root of its covariance
PriorSet == \E x \in {RVec(setup.n, Vals)}, l \in {RLow(setup.n, Diags, Offs)}, how \in Pick(<<"none", "low", "turned">>) : \E p \in {Sq(l)} :
   /\ setup.ft = "sr"
   /\ mu' = x /\ pp' = p /\ trail' = <<>> /\ jm' = x /\ jp' = p /\ joint' = TRUE
   /\ last' = [k |-> "set"]
   /\ Log("priorset", [mu |-> x, p |-> p, how |-> how, l |-> IF how = "turned" THEN [i \in 1..setup.n |-> [j \in 1..setup.n |-> RNeg(l[i][setup.n + 1 - j])]] ELSE l],
          Obs(x, p))
   /\ UNCHANGED <<setup, done>>

\* A model that was changed since is given its old contents for the steps back
\* it was used for, and its present ones afterwards.
SmoothQ == \E depth \in PickN(1, Len(trail)), re \in Pick(<<FALSE, TRUE>>) : \E r \in {Smooth(Len(trail), [mu |-> mu, pp |-> pp])} :
   /\ \A t \in 1..Len(trail) : PosDef(MAdd(Sandwich(Jac(trail[t].m, trail[t].mu), trail[t].pp), Noise(trail[t].m, trail[t].mu)))
   /\ \A t \in 1..Len(r) : Tame(r[t].mu, r[t].pp)
   /\ Log("smooth", [depth |-> depth, re |-> re, steps |-> [t \in 1..depth |-> LET e == trail[Len(trail) + 1 - t] IN [s |-> e.i, m |-> e.m, u |-> e.u, mu |-> e.mu, p |-> e.pp, wu |-> e.m.nu > 0 \/ t % 2 = 0]]],
          [ret |-> TRUE, given |-> [mean |-> mu, cov |-> pp], sm |-> [t \in 1..depth |-> [mean |-> r[t].mu, cov |-> r[t].pp]]] @@ Obs(mu, pp))
   /\ last' = [k |-> "smooth", r |-> r]
   /\ UNCHANGED <<setup, mu, pp, trail, jm, jp, joint, done>>

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, mu, pp, trail, jm, jp, joint, last, hist>>
Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ "nis" \in Ops /\ Often(3) /\ NisQ
        \/ More /\ Sim /\ "retune" \in Ops /\ Often(4) /\ Retune
        \/ More /\ Sim /\ "vary" \in Ops /\ Retune
        \/ More /\ Sim /\ "vary" \in Ops /\ Retune
        \/ More /\ Sim /\ "write" \in Ops /\ Often(8) /\ Write
        \/ More /\ Sim /\ "write" \in Ops /\ Often(12) /\ PostSet
        \/ More /\ Sim /\ "reset" \in Ops /\ Often(12) /\ Reset
        \/ More /\ Sim /\ "priorset" \in Ops /\ Often(8) /\ PriorSet
        \/ More /\ "smooth" \in Ops /\ trail # <<>> /\ SmoothQ
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, mu, pp, trail, last>>

\* ------------------------------------------------------------ properties
Tiny == "1/10000000000000000000000000"
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(Tiny, RMax("1", RAbs(b))))
\* the posterior is the marginal of the exact joint distribution
JointExact == Live /\ joint => LET n == setup.n s == Len(jm) IN
   \A i \in 1..n : /\ Near(jm[s - n + i], mu[i])
                   /\ \A j \in 1..n : Near(jp[s - n + i][s - n + j], pp[i][j])
\* smoothing gives the joint's earlier marginals
SmoothExact == joint /\ last.k = "smooth" => LET n == setup.n s == Len(jm) IN
   \A t \in 1..Len(last.r) : \A i \in 1..n :
      /\ Near(jm[s - n - t * n + i], last.r[t].mu[i])
      /\ \A j \in 1..n : Near(jp[s - n - t * n + i][s - n - t * n + j], last.r[t].pp[i][j])
CovSound == Live => /\ \A i, j \in 1..setup.n : Near(pp[i][j], pp[j][i])
                    /\ \A i \in 1..setup.n : RLe("-1/10000000000000000000000000", pp[i][i])
                    /\ setup.n > 1 => \A k \in 2..setup.n : RLe("-1/10000000000000000000", MDet(Force(Lead(pp, k))))
=============================================================================
