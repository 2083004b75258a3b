------------------------------ MODULE Particle ------------------------------
(***************************************************************************)
(* Sequential importance sampling: the bootstrap filter and the general      *)
(* particle filter with a proposal density, with fixed-period or dynamic      *)
(* (effective sample size) multinomial resampling, over vector states with    *)
(* linear Gaussian models and over integer states with tables.                *)
(*   setup : prior particles, models, proposals, resampling policy            *)
(*   pv, pw: particle values and normalised weights      ts: time step         *)
(*   given : the density the filter was last reset to, if any                     *)
(* Between updates the models may be changed and the densities written to.    *)
(*   lw    : (ghost) product of importance factors since the last resampling   *)
(*   last  : (ghost) what the latest update did                                *)
(***************************************************************************)
EXTENDS PfModels

VARIABLES pv, pw, ts, dead, lw, last, given, hist, done
vars == <<setup, pv, pw, ts, dead, lw, last, given, hist, done>>

N == Len(pv)
Obs(v, w, t, g) == [v |-> v, w |-> w, ts |-> t, prior |-> [v |-> setup.v, w |-> setup.w]] @@
   (IF G THEN [mean |-> MeanOf(v, w)] ELSE <<>>) @@ (IF g = <<>> THEN <<>> ELSE [given |-> g[1]])

Init == /\ setup = [n |-> 0] /\ pv = <<>> /\ pw = <<>> /\ lw = <<>> /\ hist = <<>>
        /\ ts = 0 /\ given = <<>> /\ dead = FALSE /\ done = FALSE /\ last = [k |-> "init"]
Start == \E st \in (IF Sim THEN {RandomSetup(hist)} ELSE Range(Setups)) :
            /\ setup' = st /\ pv' = st.v /\ pw' = st.w /\ lw' = st.w
            /\ hist' = <<Step("setup", st, [v |-> st.v, w |-> st.w, ts |-> 0])>>
            /\ UNCHANGED <<ts, given, dead, last, done>>

ResampleDue(i) == i # 0 /\ setup.period # 0 /\ ts # 0 /\ ts % setup.period = 0

Move(i, u, us1, zs) == Move1(pv, pw, ResampleDue(i), i, u, us1, zs)
Weigh(r, i, j, u, s, z) ==
  LET f == Factors(r, i, j, u, s, z)
  IN IF ~f.en THEN f
     ELSE LET w1 == Weighted(r, f.f)
              ok == RSum(w1) # "0"
              w2 == Force(IF ok THEN VRound(Normal(w1)) ELSE r.w0)
              ess == Force(Ess(w2))
          IN [en |-> /\ ok => NotTiny(RSum(w1))
                     /\ ok /\ setup.period = 0 => RLe("1/1000000", RAbs(RSub(ess, setup.thr))),
              ok |-> ok, w2 |-> w2, dy |-> j # 0 /\ setup.period = 0 /\ ok /\ RLt(ess, setup.thr),
              lw |-> Force([k \in 1..N |-> RRound(RMul(IF r.rs THEN RFrac(1, N) ELSE lw[k], f.f[k]))])]
Finish(r, w, us2) == Finish1(r.v1, w.w2, w.dy, us2)

Update == \E i \in PickN(0, Len(setup.sys)), j \in PickN(0, Len(setup.meas)) :
  /\ i + j > 0 /\ ~dead /\ (setup.ft = "gen" /\ i # 0 => j # 0)
  /\ \E sm \in {SysOf(i)}, mm \in {MeasOf(j)} : \E u \in Arg2(sm), s \in Arg2(mm),
        z \in (IF j = 0 THEN {IF G THEN <<"0">> ELSE 1} ELSE IF G THEN PickVec(Len(mm.mu), Vals) ELSE PickN(1, mm.nz)),
        wu \in Pick(IF i = 0 THEN <<FALSE>> ELSE IF sm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
        ws \in Pick(IF j = 0 THEN <<FALSE>> ELSE IF mm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
        us1 \in PickVec(IF ResampleDue(i) THEN N ELSE 0, Draws),
        zs \in PickMat(IF i = 0 THEN 0 ELSE N, IF G THEN setup.d ELSE 1, IF G THEN Normals ELSE Draws) :
     \E r \in {Move(i, u, us1, zs)} : r.en /\ \E w \in {Weigh(r, i, j, u, s, z)} : w.en /\
     \E us2 \in PickVec(IF w.dy THEN N ELSE 0, Draws) : \E f \in {Finish(r, w, us2)} : f.en /\
     LET t1 == IF i = 0 THEN ts ELSE ts + 1 IN
       /\ pv' = f.v /\ pw' = f.w /\ ts' = t1 /\ dead' = ~w.ok
       /\ lw' = IF w.dy THEN Uniform(N) ELSE w.lw
       /\ last' = [k |-> "upd", rs |-> r.rs, dy |-> w.dy, v1 |-> r.v1, w2 |-> w.w2, w0 |-> pw, ch |-> r.ch, c2 |-> f.c2]
       /\ hist' = Append(hist, Step("upd",
            [s |-> i, m |-> j, u |-> Wire(u), sp |-> Wire(s), z |-> Wire(z), wu |-> wu, ws |-> ws,
             us1 |-> us1, zs |-> zs, us2 |-> us2],
            IF w.ok THEN [ret |-> TRUE] @@ Obs(f.v, f.w, t1, given) ELSE [ret |-> FALSE, ts |-> t1]))
       /\ UNCHANGED <<setup, given, done>>

\* start again from another density, which stays the caller's
Fresh(x) == IF Sim THEN {[v |-> RandomList(n, setup.d), w |-> Fix(RVec(n, Weights))] : n \in Pick(Sizes)}
   ELSE {[v |-> setup.v, w |-> setup.w], [v |-> <<setup.v[1]>>, w |-> <<"1">>],
         [v |-> setup.v \o <<setup.v[1]>>, w |-> VScale("1/2", setup.w) \o <<"1/2">>]}
Reset == \E p \in Fresh(hist) :
  /\ ~dead
  /\ pv' = p.v /\ pw' = p.w /\ lw' = p.w /\ last' = [k |-> "reset"] /\ given' = <<p>>
  /\ hist' = Append(hist, Step("reset", p, Obs(p.v, p.w, ts, <<p>>)))
  /\ UNCHANGED <<setup, ts, dead, done>>

\* ------------------------------------------------ changes between updates
Retune == \E e \in {RandomEdit(Editable)} :
  /\ Sim /\ ~dead /\ setup' = Edited(e) /\ last' = [k |-> "retune"]
  /\ hist' = Append(hist, Step("retune", e, Obs(pv, pw, ts, given)))
  /\ UNCHANGED <<pv, pw, ts, dead, lw, given, done>>
\* the caller writes to the densities it gave: the particles are the filter's own
PriorSet == \E p \in Fresh(hist), g \in Pick(IF given = <<>> THEN <<FALSE>> ELSE <<TRUE, FALSE>>) :
  /\ Sim /\ ~dead /\ last' = [k |-> "priorset"]
  /\ given' = IF g THEN <<p>> ELSE given
  /\ setup' = IF g THEN setup ELSE [setup EXCEPT !.v = p.v, !.w = p.w]
  /\ hist' = Append(hist, Step("priorset", p @@ [g |-> g],
       [Obs(pv, pw, ts, given') EXCEPT !.prior = IF g THEN @ ELSE [v |-> p.v, w |-> p.w]]))
  /\ UNCHANGED <<pv, pw, ts, dead, lw, done>>
\* the caller replaces the particles through PostGet
PostSet == \E p \in Fresh(hist) :
  /\ Sim /\ ~dead /\ last' = [k |-> "postset"]
  /\ pv' = p.v /\ pw' = p.w /\ lw' = p.w
  /\ hist' = Append(hist, Step("postset", p, Obs(p.v, p.w, ts, given)))
  /\ UNCHANGED <<setup, ts, dead, given, done>>

Stop == /\ Sim /\ (Len(hist) >= MaxLen \/ dead) /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, pv, pw, ts, dead, lw, last, given, hist>>
Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Len(hist) > 1 /\ Often(3) /\ Reset
        \/ More /\ Sim /\ Often(3) /\ Retune
        \/ More /\ Sim /\ Often(6) /\ PriorSet
        \/ More /\ Sim /\ Often(6) /\ PostSet
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, pv, pw, ts, dead, lw>>

\* ------------------------------------------------------------ properties
Normalised == ~dead /\ Live => /\ Len(pv) = N /\ Len(pw) = N /\ Near(RSum(pw), "1")
                       /\ \A k \in 1..N : RLe("0", pw[k])
\* the weights are the accumulated importance factors, normalised
Importance == ~dead /\ Live => LET s == RSum(lw) IN \A k \in 1..N : Near(RDiv(lw[k], s), pw[k])
\* only particles with mass survive resampling, and the weights become equal
Survivors == last.k = "upd" /\ ~dead =>
   /\ last.rs => \A k \in 1..N : RLt("0", last.w0[last.ch[k]])
   /\ last.dy => \A k \in 1..N : RLt("0", last.w2[last.c2[k]]) /\ pv[k] = last.v1[last.c2[k]] /\ pw[k] = RFrac(1, N)
\* resampling happens when the policy says so
Policy == last.k = "upd" => /\ last.rs => setup.period > 0
                            /\ last.dy => setup.period = 0
                            /\ (setup.period = 0 /\ ~dead) => (last.dy \/ RLe(setup.thr, Ess(last.w2)) \/ hist[Len(hist)].a.m = 0)
=============================================================================
