-------------------------------- MODULE EkPf --------------------------------
(***************************************************************************)
(* The particle filter that proposes with one extended Kalman filter per       *)
(* particle, and the proposal density itself as an object.                     *)
(* Every particle carries a covariance.  An update runs the Kalman filter from   *)
(* N(particle, covariance), draws the new particle from the filter's posterior    *)
(* N(m, C), multiplies the weight with  p(z|x') p(x'|x) / N(x'; m, C)  and keeps   *)
(* C as the new particle's covariance.  Resampling copies covariances along.      *)
(*   pv, pw, pc : particles, weights, covariances        ts : time step            *)
(*   dn : the density object: models i, j, covariance c, arguments x, u, z, s        *)
(*   lw : (ghost) weights by Bayes' rule since the last resampling                   *)
(***************************************************************************)
EXTENDS KfModels, Resample

CONSTANTS Setups, Lins, Dims, MDims, Sizes, Periods, Thresholds, Vals, Weights, Normals, Draws, NumSys, NumMeas, MaxU, MaxS

VARIABLES setup, pv, pw, pc, ts, dn, lw, given, last, hist, done
vars == <<setup, pv, pw, pc, ts, dn, lw, given, last, hist, done>>

RandomSetup(x) ==
  LET d == Force(One(Pick(Dims))) n == Force(One(Pick(Sizes))) lin == Force(One(Pick(Lins))) per == Force(One(Pick(Periods)))
      kl(i) == lin = "lin" \/ (lin = "mix" /\ i = 1)
  IN [n |-> n, d |-> d, period |-> per, thr |-> IF per = 0 THEN One(Pick(Thresholds)) ELSE "0",
      v |-> RMat(n, d, Vals), w |-> Fix(RVec(n, Weights)), late |-> One(Pick(<<TRUE, FALSE>>)),
      sys |-> Force([i \in 1..NumSys |-> RandomM(d, d, RandInt(0, MaxU), kl(i))]),
      meas |-> Force([i \in 1..NumMeas |-> RandomM(One(Pick(MDims)), d, RandInt(0, MaxS), kl(i))])]

\* covariance of weighted particles
Spread(v, w) == LET m == MeanOf(v, w) IN
   MRound([a \in 1..Len(m) |-> [b \in 1..Len(m) |-> RDot(w, [k \in 1..Len(v) |-> RMul(RSub(v[k][a], m[a]), RSub(v[k][b], m[b]))])]])
Mild(s, r) == RLe(Quad(MInv(s), r), "100")

\* the Kalman filter's step from N(x, p)
Kf(i, j, x, p, u, s, z) ==
  LET sm == setup.sys[i] mm == setup.meas[j] a == Force(Predict(sm, x, p, u)) IN
  IF ~Tame(a.mu, a.pp) THEN [en |-> FALSE]
  ELSE LET h == Force(Jac(mm, a.mu)) r == Force(Noise(mm, a.mu)) zp == Force(F(mm, a.mu, s))
           c == Force(Correct(a.mu, a.pp, z, zp, h, r))
       IN [en |-> Firm(c.pp) /\ Firm(MAdd(Sandwich(h, a.pp), r)) /\ Tame(c.mu, c.pp), mu |-> c.mu, pp |-> c.pp,
           ev |-> DensityS(MAdd(Sandwich(h, MAdd(Sandwich(Jac(sm, x), Zeros(setup.d, setup.d)), Noise(sm, x))), r), VSub(z, zp))]
Propose1(i, j, x, p, u, s, z, xi) ==
  LET k == Kf(i, j, x, p, u, s, z) IN
  IF ~k.en THEN k ELSE LET y == VRound(VAdd(k.mu, MatVec(Chol(k.pp), xi))) IN k @@ [y |-> y]
Factor(i, j, x, u, s, z, q) ==
  LET sm == setup.sys[i] mm == setup.meas[j]
      r == Noise(mm, q.y) ez == VSub(z, F(mm, q.y, s))
      w == Noise(sm, x) ex == VSub(q.y, F(sm, x, u))
  IN IF ~(Mild(r, ez) /\ Mild(w, ex)) THEN [en |-> FALSE]
     ELSE [en |-> TRUE, f |-> RRound(RDiv(RMul(DensityS(r, ez), DensityS(w, ex)), DensityS(q.pp, VSub(q.y, q.mu))))]
AnyOff(s) == \E c \in 1..Len(s) : ~s[c].en

Seq1(v, ch) == Force([k \in 1..Len(ch) |-> v[ch[k]]])
\* static resampling, proposal and weighting
Move(rs, i, j, u, s, z, us1, zs) ==
  IF rs /\ ~ResampleOK(pw, us1) THEN [en |-> FALSE]
  ELSE LET n == Len(pv)
           ch == Force(IF rs THEN Chosen(pw, us1) ELSE [k \in 1..n |-> k])
           v0 == Seq1(pv, ch) c0 == Seq1(pc, ch) w0 == IF rs THEN Uniform(n) ELSE pw
           l0 == IF rs THEN Uniform(n) ELSE lw
           q == Force([k \in 1..n |-> Force(Propose1(i, j, v0[k], c0[k], u, s, z, zs[k]))])
       IN IF AnyOff(q) THEN [en |-> FALSE]
          ELSE LET f == Force([k \in 1..n |-> Force(Factor(i, j, v0[k], u, s, z, q[k]))]) IN
               IF AnyOff(f) THEN [en |-> FALSE]
               ELSE LET raw == Force([k \in 1..n |-> RRound(RMul(w0[k], f[k].f))]) tot == RSum(raw) IN
                    IF tot = "0" \/ ~NotTiny(tot) THEN [en |-> FALSE]
                    ELSE LET w1 == VRound(Normal(raw)) ess == Force(Ess(w1)) IN
                         [en |-> setup.period = 0 => RLe("1/1000000", RAbs(RSub(ess, setup.thr))),
                          v |-> Force([k \in 1..n |-> q[k].y]), c |-> Force([k \in 1..n |-> q[k].pp]), w |-> w1,
                          l |-> Force([k \in 1..n |-> RRound(RMul(l0[k], f[k].f))]),
                          dy |-> setup.period = 0 /\ RLt(ess, setup.thr), f |-> [k \in 1..n |-> f[k].f],
                          flat |-> setup.sys[i].lin /\ setup.meas[j].lin /\ \A k \in 1..n : c0[k] = Zeros(setup.d, setup.d),
                          ev |-> [k \in 1..n |-> q[k].ev]]

Obs(v, w, t, g) == [v |-> v, w |-> w, ts |-> t, mean |-> MeanOf(v, w), prior |-> [v |-> setup.v, w |-> setup.w]]
                   @@ (IF g = <<>> THEN <<>> ELSE [given |-> g[1]])
Log(o, a, e) == hist' = Append(hist, Step(o, a, e))
NoDn == [i |-> 0]
Init == /\ setup = [n |-> 0] /\ pv = <<>> /\ pw = <<>> /\ pc = <<>> /\ ts = 0 /\ dn = NoDn /\ lw = <<>> /\ given = <<>>
        /\ last = [k |-> "init"] /\ hist = <<>> /\ done = FALSE
Covs(v, w) == LET s == Spread(v, w) IN Force([k \in 1..Len(v) |-> s])
Start == \E st \in (IF Sim THEN {RandomSetup(hist)} ELSE Range(Setups)) :
   /\ setup' = st /\ pv' = st.v /\ pw' = st.w /\ lw' = st.w /\ pc' = Covs(st.v, st.w)
   /\ Log("setup", st, [v |-> st.v, w |-> st.w, ts |-> 0])
   /\ UNCHANGED <<ts, dn, given, last, done>>
Arg2(m) == IF m.nu = 0 THEN {<<"0">>} ELSE PickVec(m.nu, Vals)
Form(m) == Pick(IF m.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>)
Due == setup.period # 0 /\ ts # 0 /\ ts % setup.period = 0
VecsN(n, s) == PickVec(n, s)
MatsN(n, k, s) == IF Sim THEN {RMat(n, k, s)} ELSE [1..n -> [1..k -> Range(s)]]
Update == \E i \in PickN(1, Len(setup.sys)), j \in PickN(1, Len(setup.meas)) : \E sm \in {setup.sys[i]}, mm \in {setup.meas[j]} :
  \E u \in Arg2(sm), s \in Arg2(mm), z \in PickVec(Rows(mm.a), Vals), wu \in Form(sm), ws \in Form(mm),
     us1 \in VecsN(IF Due THEN Len(pv) ELSE 0, Draws), zs \in MatsN(Len(pv), setup.d, Normals) :
  \E r \in {Move(Due, i, j, u, s, z, us1, zs)} : r.en /\
  \E us2 \in VecsN(IF r.dy THEN Len(pv) ELSE 0, Draws) : \E f \in {Finish1(r.v, r.w, r.dy, us2)} :
   /\ f.en
   /\ pv' = f.v /\ pw' = f.w /\ pc' = Seq1(r.c, f.c2) /\ ts' = ts + 1
   /\ lw' = IF r.dy THEN f.w ELSE r.l
   /\ last' = [k |-> "upd", f |-> r.f, flat |-> r.flat, ev |-> r.ev]
   /\ Log("upd", [s |-> i, m |-> j, u |-> u, sp |-> s, z |-> z, wu |-> wu, ws |-> ws, us1 |-> us1, zs |-> zs, us2 |-> us2],
          [ret |-> TRUE] @@ Obs(f.v, f.w, ts + 1, given))
   /\ UNCHANGED <<setup, dn, given, done>>
Lists(x) == IF Sim THEN {[v |-> RMat(n, setup.d, Vals), w |-> Fix(RVec(n, Weights))] : n \in Pick(Sizes)}
   ELSE {[v |-> setup.v, w |-> setup.w], [v |-> <<setup.v[1]>>, w |-> <<"1">>],
         [v |-> setup.v \o <<setup.v[1]>>, w |-> VScale("1/3", setup.w) \o <<"2/3">>]}
Reset == \E p \in Lists(hist) :
   /\ pv' = p.v /\ pw' = p.w /\ lw' = p.w /\ pc' = Covs(p.v, p.w) /\ given' = <<p>> /\ last' = [k |-> "reset"]
   /\ Log("reset", p, Obs(p.v, p.w, ts, <<p>>))
   /\ UNCHANGED <<setup, ts, dn, done>>

\* ------------------------------------------------ changes between updates
Retune == \E kind \in Pick(<<"sys", "meas">>), how \in Pick(<<"edit", "edit", "replace">>) :
   \E i \in PickN(1, Len(setup[kind])) : \E m \in {setup[kind][i]} : \E w \in Pick(Editable(m)) : \E v \in {NewPart(m, w)} :
   \E new \in {[m EXCEPT ![w] = v]} :
   /\ Sim /\ setup' = [setup EXCEPT ![kind][i] = new] /\ last' = [k |-> "retune"]
   /\ Log("retune", [kind |-> kind, i |-> i, how |-> how, w |-> w, v |-> v, m |-> new], Obs(pv, pw, ts, given))
   /\ UNCHANGED <<pv, pw, pc, ts, dn, lw, given, done>>
\* the caller writes to the densities it gave, or (as many particles) through PostGet
PriorSet == \E p \in Lists(hist), g \in Pick(IF given = <<>> THEN <<FALSE>> ELSE <<TRUE, FALSE>>) :
   /\ Sim /\ last' = [k |-> "priorset"]
   /\ given' = IF g THEN <<p>> ELSE given
   /\ setup' = IF g THEN setup ELSE [setup EXCEPT !.v = p.v, !.w = p.w]
   /\ Log("priorset", p @@ [g |-> g], [Obs(pv, pw, ts, given') EXCEPT !.prior = IF g THEN @ ELSE [v |-> p.v, w |-> p.w]])
   /\ UNCHANGED <<pv, pw, pc, ts, dn, lw, done>>
PostSet == \E v \in {RMat(Len(pv), setup.d, Vals)}, w \in {Fix(RVec(Len(pv), Weights))} :
   /\ Sim /\ last' = [k |-> "postset"]
   /\ pv' = v /\ pw' = w /\ lw' = w
   /\ Log("postset", [v |-> v, w |-> w], Obs(v, w, ts, given))
   /\ UNCHANGED <<setup, pc, ts, dn, given, done>>

\* the density object: some of its parts are set anew, then it is asked
Part(keep, old, new) == IF keep THEN old ELSE new
Ask == \E i \in PickN(1, Len(setup.sys)), j \in PickN(1, Len(setup.meas)) : \E sm \in {setup.sys[i]}, mm \in {setup.meas[j]} :
  \E same \in {dn.i = i /\ dn.j = j} :
  \E kc \in Pick(<<dn # NoDn, FALSE>>), kx \in Pick(<<same, FALSE>>), ka \in Pick(<<same, FALSE>>), kz \in Pick(<<same, FALSE>>),
     c \in {IF Sim THEN Sq(RLow(setup.d, <<"0">> \o Diags, Offs)) ELSE Ident(setup.d)},
     x \in PickVec(setup.d, Vals), u \in Arg2(sm), s \in Arg2(mm), z \in PickVec(Rows(mm.a), Vals), y \in PickVec(setup.d, Vals),
     xi \in PickVec(setup.d, Normals) :
  \E nd \in {[i |-> i, j |-> j, c |-> IF kc THEN dn.c ELSE c, x |-> IF kx THEN dn.x ELSE x, u |-> IF ka THEN dn.u ELSE u,
              s |-> IF ka THEN dn.s ELSE s, z |-> IF kz THEN dn.z ELSE z]} :
  \E q \in {Propose1(i, j, nd.x, nd.c, nd.u, nd.s, nd.z, xi)} :
   /\ IF q.en THEN Mild(q.pp, VSub(y, q.mu)) ELSE FALSE
   /\ dn' = nd /\ last' = [k |-> "ask"]
   /\ Log("ask", [s |-> i, m |-> j, c |-> nd.c, x |-> nd.x, u |-> nd.u, sp |-> nd.s, z |-> nd.z, kc |-> kc, kx |-> kx, ka |-> ka, kz |-> kz, y |-> y, xi |-> xi],
          [dmean |-> q.mu, dcov |-> q.pp, dprob |-> DensityS(q.pp, VSub(y, q.mu)), draw |-> q.y] @@ Obs(pv, pw, ts, given))
   /\ UNCHANGED <<setup, pv, pw, pc, ts, lw, given, done>>

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, pv, pw, pc, ts, dn, lw, given, last, hist>>
Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Often(3) /\ Reset
        \/ More /\ Sim /\ Often(3) /\ Retune
        \/ More /\ Sim /\ Often(6) /\ PriorSet
        \/ More /\ Sim /\ Often(6) /\ PostSet
        \/ More /\ Sim /\ Ask
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, pv, pw, pc, ts, dn, lw, given>>

\* ------------------------------------------------------------ properties
Small == "1/1000000000000000000000000000000"
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(Small, RMax("1", RAbs(b))))
Normalised == Live => /\ Len(pw) = Len(pv) /\ Len(pc) = Len(pv) /\ Near(RSum(pw), "1") /\ \A k \in 1..Len(pw) : RLe("0", pw[k])
\* covariances stay covariances
CovSound == last.k = "upd" => \A k \in 1..Len(pc) : Symmetric(pc[k]) /\ PosDef(pc[k])
\* the weights are exactly importance weights
Importance == Live => \A k \in 1..Len(pv) : Near(RDiv(lw[k], RSum(lw)), pw[k])
\* With linear models and a particle known exactly the proposal is the optimal
\* one: the factor is the evidence p(z | x), whatever was drawn.
Optimal == (last.k = "upd" /\ last.flat) => \A k \in 1..Len(last.f) : Near(last.f[k], last.ev[k])
=============================================================================
