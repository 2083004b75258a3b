---------------------------- MODULE MixParticle -----------------------------
(***************************************************************************)
(* Particle filters over mixtures: every component is a weighted list of       *)
(* particles that is moved, weighted and resampled on its own; a component's    *)
(* weight in the mixture is multiplied by the likelihood of the measurement     *)
(* under the component.                                                       *)
(*   cs : components [v, w]     mw : their weights      ts : time step           *)
(*   given : the mixture the filter was last reset to, if any                    *)
(*   lw : (ghost) joint weight of every particle since the last resampling       *)
(* The user's own mixture maintenance runs when the time step is a non-zero      *)
(* multiple of its period; it may change the number of components.              *)
(***************************************************************************)
EXTENDS PfModels

CONSTANTS MaxComps, MPeriods, Plans

VARIABLES cs, mw, ts, dead, lw, given, last, hist, done
vars == <<setup, cs, mw, ts, dead, lw, given, last, hist, done>>

NC == Len(cs)
Comp(kind, d, n) == [v |-> ListOf(kind, n, d), w |-> Fix(RVec(n, Weights))]
RandomComps(kind, d, k) == Force([c \in 1..k |-> Comp(kind, d, One(Pick(Sizes)))])
RandomMix(kind, d, k) == [cs |-> RandomComps(kind, d, k), mw |-> Fix(RVec(k, Weights))]
MixSetup(x) == LET s == Force(RandomSetup(x)) m == Force(RandomMix(s.kind, s.d, RandInt(1, MaxComps))) IN
   [s EXCEPT !.v = <<>>, !.w = <<>>] @@ [cs |-> m.cs, mw |-> m.mw, most |-> MaxComps + 2, mper |-> One(Pick(MPeriods)), plan |-> One(Pick(Plans))]

RECURSIVE Combine(_, _, _)
Combine(c, w, i) == IF i = 0 THEN VConst(setup.d, "0") ELSE VAdd(Combine(c, w, i - 1), VScale(w[i], MeanOf(c[i].v, c[i].w)))
Obs(c, w, t, g) == [cs |-> c, mw |-> w, ts |-> t, prior |-> [cs |-> setup.cs, mw |-> setup.mw]] @@
   (IF G THEN [mean |-> Combine(c, w, Len(c))] ELSE <<>>) @@ (IF g = <<>> THEN <<>> ELSE [given |-> g[1]])
Joint(c, w) == Force([i \in 1..Len(c) |-> VScale(w[i], c[i].w)])

Init == /\ setup = [n |-> 0] /\ cs = <<>> /\ mw = <<>> /\ lw = <<>> /\ hist = <<>>
        /\ ts = 0 /\ given = <<>> /\ dead = FALSE /\ done = FALSE /\ last = [k |-> "init"]
Start == \E st \in (IF Sim THEN {MixSetup(hist)} ELSE Range(Setups)) :
            /\ setup' = st /\ cs' = st.cs /\ mw' = st.mw /\ lw' = Joint(st.cs, st.mw)
            /\ hist' = <<Step("setup", st, [cs |-> st.cs, mw |-> st.mw, ts |-> 0])>>
            /\ UNCHANGED <<ts, given, dead, last, done>>

ResampleDue(i) == i # 0 /\ setup.period # 0 /\ ts # 0 /\ ts % setup.period = 0
AnyOff(s) == \E c \in 1..Len(s) : ~s[c].en
Move(i, u, us1, zs) == Force([c \in 1..NC |-> Move1(cs[c].v, cs[c].w, ResampleDue(i), i, u, us1[c], zs[c])])
Weigh1(r, i, j, u, s, z) ==
  LET f == Factors(r, i, j, u, s, z)
  IN IF ~f.en THEN f
     ELSE LET w1 == Weighted(r, f.f) t == Force(RSum(w1)) ok == t # "0"
              w2 == Force(IF ok THEN VRound(Normal(w1)) ELSE w1)
              ess == Force(IF ok THEN Ess(w2) ELSE "0")
          IN [en |-> (ok => NotTiny(t)) /\ (ok /\ setup.period = 0 => RLe("1/1000000", RAbs(RSub(ess, setup.thr)))),
              ok |-> ok, t |-> t, f |-> f.f, w2 |-> w2, dy |-> j # 0 /\ setup.period = 0 /\ ok /\ RLt(ess, setup.thr)]
Weigh(r, i, j, u, s, z) == Force([c \in 1..NC |-> Weigh1(r[c], i, j, u, s, z)])
Scores(w, j) == Force([c \in 1..NC |-> RRound(RMul(mw[c], w[c].t))])
Finish(r, w, us2) == Force([c \in 1..NC |-> Finish1(r[c].v1, w[c].w2, w[c].dy, us2[c])])
\* the joint weights of all particles, by Bayes' rule
LwNext(r, w) == Force([c \in 1..NC |-> Force([k \in 1..Len(r[c].v1) |->
      RRound(RMul(IF r[c].rs THEN RDiv(mw[c], RInt(Len(r[c].v1))) ELSE lw[c][k], w[c].f[k]))])])

\* the user's maintenance: what it does to the mixture
Maintain(c, w) ==
  IF setup.plan = "split" /\ Len(c) < setup.most
  THEN [cs |-> Append(c, c[1]), mw |-> Append(VScale("3/4", w), "1/4")]
  ELSE IF setup.plan = "grow" /\ Len(c[1].v) < 9
  THEN [cs |-> [c EXCEPT ![1] = [v |-> Append(@.v, @.v[1]), w |-> Normal(Append(@.w, @.w[1]))]], mw |-> w]
  ELSE IF setup.plan = "drop" /\ Len(c) > 1 /\ RLt(w[1], "9/10")
  THEN [cs |-> Tail(c), mw |-> Normal(Tail(w))]
  ELSE [cs |-> c, mw |-> w]
Vecs(lens, on, s) == IF Sim THEN {Force([c \in 1..Len(lens) |-> RVec(IF on[c] THEN lens[c] ELSE 0, s)])}
   ELSE {f \in [1..Len(lens) -> UNION {[1..n -> Range(s)] : n \in {0} \cup Range(lens)}] :
            \A c \in 1..Len(lens) : Len(f[c]) = IF on[c] THEN lens[c] ELSE 0}
Mats3(lens, k, s) == IF Sim THEN {Force([c \in 1..Len(lens) |-> RMat(lens[c], k, s)])}
   ELSE {f \in [1..Len(lens) -> UNION {[1..n -> [1..k -> Range(s)]] : n \in Range(lens)}] : \A c \in 1..Len(lens) : Len(f[c]) = lens[c]}
Lens == [c \in 1..NC |-> Len(cs[c].v)]

Update == \E i \in PickN(0, Len(setup.sys)), j \in PickN(0, Len(setup.meas)) :
  /\ i + j > 0 /\ ~dead /\ (setup.ft = "gen" /\ i # 0 => j # 0)
  /\ \E sm \in {SysOf(i)}, mm \in {MeasOf(j)} : \E u \in Arg2(sm), s \in Arg2(mm),
        z \in (IF j = 0 THEN {IF G THEN <<"0">> ELSE 1} ELSE IF G THEN PickVec(Len(mm.mu), Vals) ELSE PickN(1, mm.nz)),
        wu \in Pick(IF i = 0 THEN <<FALSE>> ELSE IF sm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
        ws \in Pick(IF j = 0 THEN <<FALSE>> ELSE IF mm.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>),
        us1 \in Vecs(Lens, [c \in 1..NC |-> ResampleDue(i)], Draws),
        zs \in (IF i = 0 THEN {[c \in 1..NC |-> <<>>]} ELSE Mats3(Lens, IF G THEN setup.d ELSE 1, IF G THEN Normals ELSE Draws)) :
     \E r \in {Move(i, u, us1, zs)} : ~AnyOff(r) /\ \E w \in {Weigh(r, i, j, u, s, z)} : ~AnyOff(w) /\
     \E sc \in {Scores(w, j)} : \E ok \in {RSum(sc) # "0"} : (ok => NotTiny(RSum(sc))) /\
     \E us2 \in Vecs(Lens, [c \in 1..NC |-> ok /\ w[c].dy], Draws) : \E f \in {IF ok THEN Finish(r, w, us2) ELSE <<>>} : ~AnyOff(f) /\
     \E lost \in {\E c \in 1..NC : ~w[c].ok} : \E t1 \in {IF i = 0 THEN ts ELSE ts + 1} :
     \E due \in {t1 # 0 /\ t1 % setup.mper = 0} :
     \E act \in {due /\ ok /\ ~lost /\ (setup.ft = "gen" \/ i = 0 \/ j = 0)} :
     \E new \in {IF ~ok THEN [cs |-> cs, mw |-> mw]
                 ELSE LET c1 == Force([c \in 1..NC |-> [v |-> f[c].v, w |-> f[c].w]]) w1 == VRound(Normal(sc))
                      IN IF act THEN Maintain(c1, w1) ELSE [cs |-> c1, mw |-> w1]} :
       /\ cs' = new.cs /\ mw' = new.mw /\ ts' = t1 /\ dead' = (~ok \/ lost)
       /\ lw' = IF (act /\ setup.plan # "count") \/ ~ok \/ lost \/ (\E c \in 1..NC : w[c].dy) THEN Joint(new.cs, new.mw) ELSE LwNext(r, w)
       /\ last' = [k |-> "upd", rs |-> ResampleDue(i), due |-> due, mw0 |-> mw, like |-> [c \in 1..NC |-> w[c].t], act |-> act, ok |-> ok]
       /\ hist' = Append(hist, Step("upd",
            [s |-> i, m |-> j, u |-> Wire(u), sp |-> Wire(s), z |-> Wire(z), wu |-> wu, ws |-> ws, us1 |-> us1, zs |-> zs, us2 |-> us2, act |-> act],
            IF ~ok THEN [ret |-> FALSE, ts |-> t1]
            ELSE IF lost THEN [ret |-> TRUE, ts |-> t1, mw |-> new.mw]
            ELSE [ret |-> TRUE, maint |-> due] @@ Obs(new.cs, new.mw, t1, given)))
       /\ UNCHANGED <<setup, given, done>>

Fresh(x) == IF Sim THEN {RandomMix(setup.kind, setup.d, k) : k \in PickN(1, MaxComps)}
   ELSE {[cs |-> setup.cs, mw |-> setup.mw], [cs |-> <<setup.cs[1]>>, mw |-> <<"1">>],
         [cs |-> setup.cs \o <<[v |-> <<setup.cs[1].v[1], setup.cs[1].v[1]>>, w |-> <<"1/3", "2/3">>]>>, mw |-> VScale("1/2", setup.mw) \o <<"1/2">>]}
Reset == \E p \in Fresh(hist), base \in Pick(<<TRUE, FALSE>>) :
  /\ ~dead
  /\ cs' = p.cs /\ mw' = p.mw /\ lw' = Joint(p.cs, p.mw) /\ last' = [k |-> "reset"] /\ given' = <<p>>
  /\ hist' = Append(hist, Step("reset", p @@ [base |-> base], Obs(p.cs, p.mw, ts, <<p>>)))
  /\ UNCHANGED <<setup, ts, dead, done>>

\* ------------------------------------------------ changes between updates
Retune == \E e \in {RandomEdit(Editable)} :
  /\ Sim /\ ~dead /\ setup' = Edited(e) /\ last' = [k |-> "retune"]
  /\ hist' = Append(hist, Step("retune", e, Obs(cs, mw, ts, given)))
  /\ UNCHANGED <<cs, mw, ts, dead, lw, given, done>>
OneComp(x) == Comp(setup.kind, setup.d, One(Pick(Sizes)))
\* the caller writes to a component of a mixture it gave, or through PostGet
PriorSet == \E g \in Pick(IF given = <<>> THEN <<FALSE>> ELSE <<TRUE, FALSE>>) :
  \E c \in PickN(1, Len(IF g THEN given[1].cs ELSE setup.cs)), p \in {OneComp(hist)} :
  /\ Sim /\ ~dead /\ last' = [k |-> "priorset"]
  /\ given' = IF g THEN [given EXCEPT ![1].cs[c] = p] ELSE given
  /\ setup' = IF g THEN setup ELSE [setup EXCEPT !.cs[c] = p]
  /\ hist' = Append(hist, Step("priorset", p @@ [g |-> g, c |-> c - 1],
       [Obs(cs, mw, ts, given') EXCEPT !.prior = IF g THEN @ ELSE [@ EXCEPT !.cs[c] = p]]))
  /\ UNCHANGED <<cs, mw, ts, dead, lw, done>>
PostSet == \E c \in PickN(1, NC), p \in {OneComp(hist)} : \E new \in {[cs EXCEPT ![c] = p]} :
  /\ Sim /\ ~dead /\ last' = [k |-> "postset"]
  /\ cs' = new /\ lw' = Joint(new, mw)
  /\ hist' = Append(hist, Step("postset", p @@ [c |-> c - 1], Obs(new, mw, ts, given)))
  /\ UNCHANGED <<setup, mw, ts, dead, given, done>>

Stop == /\ Sim /\ (Len(hist) >= MaxLen \/ dead) /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, cs, mw, ts, dead, lw, given, last, hist>>
Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Len(hist) > 1 /\ Often(3) /\ Reset
        \/ More /\ Sim /\ Often(3) /\ Retune
        \/ More /\ Sim /\ Often(6) /\ PriorSet
        \/ More /\ Sim /\ Often(6) /\ PostSet
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, cs, mw, ts, dead, lw>>

\* ------------------------------------------------------------ properties
Alive == ~dead /\ Live
Normalised == Alive => /\ Near(RSum(mw), "1") /\ Len(mw) = NC
                       /\ \A c \in 1..NC : Near(RSum(cs[c].w), "1") /\ RLe("0", mw[c]) /\ \A k \in 1..Len(cs[c].w) : RLe("0", cs[c].w[k])
\* the mixture as one set of weighted particles: exactly importance weighting
Total == RSum([c \in 1..NC |-> RSum(lw[c])])
Importance == Alive => \A c \in 1..NC : \A k \in 1..Len(cs[c].v) : Near(RDiv(lw[c][k], Total), RMul(mw[c], cs[c].w[k]))
\* the weights of two components change in the ratio of their likelihoods
Bayes == (Alive /\ last.k = "upd" /\ ~last.act) => \A c \in 1..NC : \A b \in 1..NC :
   Near(RMul(mw[c], RMul(last.mw0[b], last.like[b])), RMul(mw[b], RMul(last.mw0[c], last.like[c])))
Policy == (last.k = "upd") => /\ (last.rs => setup.period > 0)
                              /\ (last.due => ts % setup.mper = 0 /\ ts > 0)
=============================================================================
