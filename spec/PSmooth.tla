------------------------------ MODULE PSmooth -------------------------------
(***************************************************************************)
(* The particle smoother (backward reweighting of Isard and Blake): going      *)
(* back one step, the filtered particles of that step are kept and get the      *)
(* weights                                                                  *)
(*   w_j  sum_k s_k p(x_k | f_j) / sum_l w_l p(x_k | f_l)                       *)
(* for the smoothed particles x_k, s_k of the next step, normalised.            *)
(*   pv, pw : smoothed particles     given : the density last reset to           *)
(*   last   : (ghost) what the latest update did                                *)
(***************************************************************************)
EXTENDS PfModels

VARIABLES pv, pw, given, last, hist, done
vars == <<setup, pv, pw, given, last, hist, done>>

Obs(v, w, st, g) == [v |-> v, w |-> w, prior |-> [v |-> st.v, w |-> st.w]] @@ (IF g = <<>> THEN <<>> ELSE [given |-> g[1]])
Log(o, a, e) == hist' = Append(hist, Step(o, a, e))

Init == /\ setup = [n |-> 0] /\ pv = <<>> /\ pw = <<>> /\ given = <<>> /\ last = [k |-> "init"] /\ hist = <<>> /\ done = FALSE
Start == \E st \in (IF Sim THEN {RandomSetup(hist)} ELSE Range(Setups)) :
            /\ setup' = st /\ pv' = st.v /\ pw' = st.w
            /\ Log("setup", st, Obs(st.v, st.w, st, <<>>))
            /\ UNCHANGED <<given, last, done>>
\* all particles sit where the densities are not too small for floating point
Back(m, u, f) ==
  LET N == Len(pv) M == Len(f.v)
      mild == \A k \in 1..N : \A j \in 1..M : Mild(m, Y(pv[k]), f.v[j], u)
  IN IF ~mild THEN [en |-> FALSE] ELSE
  LET p == Force([k \in 1..N |-> Force([j \in 1..M |-> Cond(m, Y(pv[k]), f.v[j], u)])])
      g == Force([k \in 1..N |-> RDot(f.w, p[k])])
      raw == Force([j \in 1..M |-> RRound(RMul(f.w[j], RSum([k \in 1..N |-> IF g[k] = "0" THEN "0" ELSE RDiv(RMul(pw[k], p[k][j]), g[k])])))])
      tot == RSum(raw)
  IN IF tot = "0" THEN [en |-> FALSE]
     ELSE [en |-> \A k \in 1..N : g[k] # "0" => NotTiny(g[k]), w |-> VRound(Normal(raw)), tot |-> tot,
           reach |-> RSum([k \in 1..N |-> IF g[k] = "0" THEN "0" ELSE pw[k]])]
Lists(x) == IF Sim THEN {[v |-> RandomList(n, setup.d), w |-> Fix(RVec(n, Weights))] : n \in Pick(Sizes)}
   ELSE {[v |-> setup.v, w |-> setup.w], [v |-> <<setup.v[1]>>, w |-> <<"1">>],
         [v |-> setup.v \o <<setup.v[1]>>, w |-> VScale("1/3", setup.w) \o <<"2/3">>]}
Update == \E i \in PickN(1, Len(setup.sys)) : \E m \in {setup.sys[i]} : \E u \in Arg2(m), f \in Lists(hist),
             wu \in Pick(IF m.nu > 0 THEN <<TRUE>> ELSE <<TRUE, FALSE>>) : \E r \in {Back(m, u, f)} :
   /\ r.en /\ pv' = f.v /\ pw' = r.w
   /\ last' = [k |-> "upd", tot |-> r.tot, reach |-> r.reach, f |-> f]
   /\ Log("upd", [s |-> i, u |-> Wire(u), wu |-> wu, f |-> f], [ret |-> TRUE, filt |-> f] @@ Obs(f.v, r.w, setup, given))
   /\ UNCHANGED <<setup, given, done>>
Reset == \E p \in Lists(hist) :
   /\ pv' = p.v /\ pw' = p.w /\ given' = <<p>> /\ last' = [k |-> "reset"]
   /\ Log("reset", p, Obs(p.v, p.w, setup, <<p>>))
   /\ UNCHANGED <<setup, done>>

\* ------------------------------------------------ changes between updates
Retune == \E e \in {RandomEdit(<<"sys">>)} :
   /\ Sim /\ setup' = Edited(e) /\ last' = [k |-> "retune"]
   /\ Log("retune", e, Obs(pv, pw, setup, given))
   /\ UNCHANGED <<pv, pw, given, done>>
\* the caller writes to the densities it gave, or through PostGet
PriorSet == \E p \in Lists(hist), g \in Pick(IF given = <<>> THEN <<FALSE>> ELSE <<TRUE, FALSE>>) :
   /\ Sim /\ last' = [k |-> "priorset"]
   /\ given' = IF g THEN <<p>> ELSE given
   /\ setup' = IF g THEN setup ELSE [setup EXCEPT !.v = p.v, !.w = p.w]
   /\ Log("priorset", p @@ [g |-> g], Obs(pv, pw, setup', given'))
   /\ UNCHANGED <<pv, pw, done>>
PostSet == \E p \in Lists(hist) :
   /\ Sim /\ last' = [k |-> "postset"] /\ pv' = p.v /\ pw' = p.w
   /\ Log("postset", p, Obs(p.v, p.w, setup, given))
   /\ UNCHANGED <<setup, given, done>>

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<setup, pv, pw, given, last, hist>>
Live == setup.n > 0
More == Live /\ Len(hist) < MaxLen
Next == \/ ~Live /\ Start
        \/ More /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Sim /\ Update
        \/ More /\ Often(2) /\ Reset
        \/ More /\ Sim /\ Often(3) /\ Retune
        \/ More /\ Sim /\ Often(6) /\ PriorSet
        \/ More /\ Sim /\ Often(6) /\ PostSet
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<setup, pv, pw, given>>

\* ------------------------------------------------------------ properties
Normalised == Live => /\ Len(pw) = Len(pv) /\ Near(RSum(pw), "1") /\ \A k \in 1..Len(pw) : RLe("0", pw[k])
\* every smoothed particle hands its whole weight back, unless nothing filtered leads to it
MassKept == last.k = "upd" => Near(last.tot, last.reach)
\* a filtered particle without weight stays without
NoRevival == last.k = "upd" => \A j \in 1..Len(pw) : last.f.w[j] = "0" => pw[j] = "0"
=============================================================================
