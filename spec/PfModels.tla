------------------------------ MODULE PfModels ------------------------------
(***************************************************************************)
(* What the particle filter specifications share: random setups, models       *)
(* (linear Gaussian over vectors, tables over integers), their samples made    *)
(* from scripted draws, and multinomial resampling.                           *)
(***************************************************************************)
EXTENDS Resample

CONSTANTS Setups,                                        \* exhaustive search
          Kinds, FTypes, Sizes, Dims, MDims, Periods, Thresholds, Weights,  \* simulation
          Vals, Gains, Diags, Offs, Normals, Rows1, Liks, NumSys, NumMeas, MaxU, MaxZ, MaxS,
          Draws

VARIABLE setup

Slice(k) == IF k = 0 THEN 1 ELSE k

\* ---------------------------------------------------------------- models
RandomG(r, c, k) == LET l == RLow(r, Diags, Offs) IN   \* k: dimension of the second argument, 0 = none
   [nu |-> k, a |-> RMat(r, c, Gains), b |-> IF k = 0 THEN <<>> ELSE RMat(r, k, Gains),
    mu |-> RVec(r, Gains), l |-> l, q |-> Sq(l)]
RandomT(n, nu) == [nu |-> nu, t |-> Force([u \in 1..Slice(nu) |-> Force([f \in 1..n |-> Fix(RVec(n, Rows1))])])]
RandomL(n, ns, nz) == [nu |-> ns, t |-> Force([s \in 1..Slice(ns) |-> RMat(n, nz, Liks)])]
RandomSetup(x) ==
  LET kind == Force(One(Pick(Kinds))) ft == Force(One(Pick(FTypes)))
      n == Force(One(Pick(Sizes))) d == Force(One(Pick(Dims)))
      per == Force(One(Pick(Periods)))
      ks == Force([i \in 1..NumSys |-> RandInt(0, MaxU)])
      km == Force([i \in 1..NumMeas |-> RandInt(0, MaxS)])
      ms == Force([i \in 1..NumMeas |-> IF kind = "gauss" THEN One(Pick(MDims)) ELSE RandInt(1, MaxZ)])
      dd == IF kind = "gauss" THEN d ELSE d + 1   \* table: number of states
  IN [kind |-> kind, ft |-> ft, n |-> n, d |-> dd, period |-> per,
      thr |-> IF per = 0 THEN One(Pick(Thresholds)) ELSE "0",
      userpost |-> One(Pick(<<TRUE, FALSE>>)),
      v |-> IF kind = "gauss" THEN RMat(n, d, Vals) ELSE Force([i \in 1..n |-> <<RInt(RandInt(0, dd - 1))>>]),
      w |-> Fix(RVec(n, Weights)),
      sys |-> Force([i \in 1..NumSys |-> IF kind = "gauss" THEN RandomG(d, d, ks[i]) ELSE RandomT(dd, ks[i])]),
      prop |-> IF ft = "boot" THEN <<>>
               ELSE Force([i \in 1..NumSys |-> IF kind = "gauss" THEN RandomG(d, d, ks[i]) ELSE RandomT(dd, ks[i])]),
      meas |-> Force([i \in 1..NumMeas |-> IF kind = "gauss" THEN RandomG(ms[i], d, km[i])
                                           ELSE RandomL(dd, km[i], ms[i]) @@ [nz |-> ms[i]]])]

G == setup.kind = "gauss"
\* table state value (rational string) to index from 1
Ix(v) == CHOOSE k \in 1..setup.d : RInt(k - 1) = v[1]
MeanG(m, x, u) == LET a == VAdd(MatVec(m.a, x), m.mu) IN IF m.nu = 0 THEN a ELSE VAdd(a, MatVec(m.b, u))
\* conditional probability (density) of y given x and the second argument
\* a density this far out is zero as a floating point number; in between it may be anything
Far(d2) == RLe("1700", d2)
Cond(m, y, x, u) == IF G THEN LET e == VSub(y, MeanG(m, x, u)) IN IF Far(Dist2(m.l, e)) THEN "0" ELSE DensityL(m.l, e)
                    ELSE m.t[IF m.nu = 0 THEN 1 ELSE u][Ix(x)][y]
Mild(m, y, x, u) == G => LET d2 == Dist2(m.l, VSub(y, MeanG(m, x, u))) IN RLe(d2, "150") \/ Far(d2)
Y(v) == IF G THEN v ELSE Ix(v)

\* ---------------------------------------------------------------- steps
\* the model's sample made from its draws (normals / one uniform)
Drawn(m, x, u, z) == IF G THEN VRound(VAdd(MeanG(m, x, u), MatVec(m.l, z)))
   ELSE <<RInt(InvertP(m.t[IF m.nu = 0 THEN 1 ELSE u][Ix(x)], z[1]) - 1)>>
DrawOK(m, x, u, z) == ~G => Clear(Cum(m.t[IF m.nu = 0 THEN 1 ELSE u][Ix(x)]), z[1])

\* second-argument values: a vector of the model's size / an index
Arg2(m) == IF m.nu = 0 THEN {IF G THEN <<"0">> ELSE 1} ELSE IF G THEN PickVec(m.nu, Vals) ELSE PickN(1, m.nu)
NoModel == [nu |-> 0]
Wire(u) == IF G THEN u ELSE <<RInt(u - 1)>>
SysOf(i) == IF i = 0 THEN NoModel ELSE setup.sys[i]
MeasOf(j) == IF j = 0 THEN NoModel ELSE setup.meas[j]
QOf(i) == IF i = 0 THEN NoModel ELSE IF setup.ft = "boot" THEN setup.sys[i] ELSE setup.prop[i]
Ratio == setup.ft = "gen"
\* Resampling (when rs) and the proposal step, for one list of weighted particles.
\* en: every comparison that depends on rounding is clear.
Move1(v, w, rs, i, u, us1, zs) ==
  LET q == QOf(i) n == Len(v)
  IN IF rs /\ ~ResampleOK(w, us1) THEN [en |-> FALSE]
     ELSE LET ch == Force(IF rs THEN Chosen(w, us1) ELSE [k \in 1..n |-> k])
              v0 == Force([k \in 1..n |-> v[ch[k]]])
          IN [en |-> i # 0 => \A k \in 1..n : DrawOK(q, v0[k], u, zs[k]),
              rs |-> rs, ch |-> ch, v0 |-> v0,
              w0 |-> IF rs THEN Uniform(n) ELSE w,
              v1 |-> Force(IF i = 0 THEN v0 ELSE [k \in 1..n |-> Drawn(q, v0[k], u, zs[k])])]
\* importance factors of the particles; r: result of Move1
Factors(r, i, j, u, s, z) ==
  LET sm == SysOf(i) mm == MeasOf(j) q == QOf(i) n == Len(r.v1)
      mild == /\ (j # 0 => \A k \in 1..n : Mild(mm, z, r.v1[k], s))
              /\ (Ratio /\ i # 0 => \A k \in 1..n : Mild(sm, Y(r.v1[k]), r.v0[k], u) /\ Mild(q, Y(r.v1[k]), r.v0[k], u))
  IN IF ~mild THEN [en |-> FALSE]
     ELSE [en |-> TRUE, f |-> Force(IF j = 0 THEN [k \in 1..n |-> "1"]
                         ELSE [k \in 1..n |-> LET e == Cond(mm, z, r.v1[k], s) IN
                            IF ~Ratio \/ i = 0 THEN e
                            ELSE LET c == Cond(q, Y(r.v1[k]), r.v0[k], u) IN      \* where the proposal has no mass a particle gets none
                                 IF c = "0" THEN "0" ELSE RDiv(RMul(e, Cond(sm, Y(r.v1[k]), r.v0[k], u)), c)])]
Weighted(r, f) == Force([k \in 1..Len(f) |-> RRound(RMul(r.w0[k], f[k]))])
ListOf(kind, n, d) == IF kind = "gauss" THEN RMat(n, d, Vals) ELSE Force([i \in 1..n |-> <<RInt(RandInt(0, d - 1))>>])
RandomList(n, d) == ListOf(setup.kind, n, d)
\* ------------------------------------------------ changes between updates
\* A part of one of the models (or proposals) gets another value: written into
\* the model's pdf, or the model is given a fresh pdf.  m is the new model.
Part(i, k, how, w, u, x, v, m) == [kind |-> k, i |-> i, how |-> how, w |-> w, u |-> u, x |-> x, v |-> v, m |-> m]
RandomEdit(kinds) ==
  LET kind == Force(One(Pick(kinds))) i == Force(RandInt(1, Len(setup[kind]))) m == setup[kind][i] how == Force(One(Pick(<<"edit", "replace">>)))
  IN IF G THEN
       LET w == Force(One(Pick(IF m.nu > 0 THEN <<"a", "mu", "q", "b">> ELSE <<"a", "mu", "q">>)))
           v == Force(IF w = "q" THEN RLow(Len(m.mu), Diags, Offs) ELSE IF w = "mu" THEN RVec(Len(m.mu), Gains)
                      ELSE RMat(Rows(m[w]), Cols(m[w]), Gains))
       IN Part(i, kind, how, w, 0, 0, IF w = "q" THEN Sq(v) ELSE v,
               IF w = "q" THEN [m EXCEPT !.l = v, !.q = Sq(v)] ELSE [m EXCEPT ![w] = v])
     ELSE LET u == Force(RandInt(1, Slice(m.nu))) x == Force(RandInt(1, setup.d))
              v == Force(IF kind = "meas" THEN RVec(m.nz, Liks) ELSE Fix(RVec(setup.d, Rows1)))
          IN Part(i, kind, how, "t", u - 1, x - 1, v, [m EXCEPT !.t[u][x] = v])
Edited(e) == [setup EXCEPT ![e.kind][e.i] = e.m]
Editable == IF setup.ft = "boot" THEN <<"sys", "meas">> ELSE <<"sys", "prop", "meas">>

Tiny == "1/1000000000000000000000000000000"
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(Tiny, RMax("1", RAbs(b))))
=============================================================================
