-------------------------------- MODULE Rng ---------------------------------
(***************************************************************************)
(* The source of randomness all sampling rests on: independent draws, uniform   *)
(* on [0,1), uniform on [a,b) and normal with a mean and deviation, in any        *)
(* interleaving.  The specification gives the law (distribution functions,        *)
(* independence of neighbours and of interleaved generators); the replay          *)
(* compares it with frequencies over many draws.                              *)
(*   gens : generators that are called in turn     blocks : blocks drawn so far    *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Menu,       \* generators <<kind, p1, p2>>
          Fracs, Sds, \* where distribution functions are compared
          Rounds, MaxGens

VARIABLES gens, blocks, hist, done
vars == <<gens, blocks, hist, done>>

\* standard normal distribution function
RECURSIVE PhiSum(_, _, _, _)
PhiSum(x2, term, k, acc) == IF k > 80 THEN acc
   ELSE LET t == Force(RRound(RDiv(RMul(term, x2), RInt(2 * k + 1)))) IN PhiSum(x2, t, k + 1, Force(RRound(RAdd(acc, t))))
Phi(x) == RRound(RAdd("1/2", RMul(RDiv(RExp(RMul("-1/2", RSq(x))), Root2Pi), PhiSum(RSq(x), x, 1, x))))

\* points at which a generator is looked at: [at, below]
Points(g) == IF g.kind = "norm" THEN Force([i \in 1..Len(Sds) |-> [at |-> RAdd(g.p, RMul(g.q, Sds[i])), below |-> Phi(Sds[i])]])
             ELSE Force([i \in 1..Len(Fracs) |-> [at |-> RAdd(g.p, RMul(RSub(g.q, g.p), Fracs[i])), below |-> Fracs[i]]])
Below(g) == LET p == Points(g) IN [i \in 1..Len(p) |-> p[i].below]
At(g) == LET p == Points(g) IN [i \in 1..Len(p) |-> p[i].at]
\* below point i now and below point k at the next call: independent
Joint(g, h) == LET a == Below(g) b == Below(h) IN Force([i \in 1..Len(a) |-> [k \in 1..Len(b) |-> RMul(a[i], b[k])]])

Init == gens = <<>> /\ blocks = 0 /\ hist = <<>> /\ done = FALSE
Block == \E n \in PickN(1, MaxGens) : \E gs \in PickVec(n, Menu) :
   /\ gens' = gs /\ blocks' = blocks + 1
   /\ hist' = Append(hist, Step("block", [rounds |-> Rounds, gens |-> gs, at |-> [i \in 1..n |-> At(gs[i])]],
        [below |-> [i \in 1..n |-> Below(gs[i])],
         next  |-> [i \in 1..n |-> Joint(gs[i], gs[i])],
         cross |-> [i \in 1..n |-> IF i = n THEN <<>> ELSE Joint(gs[i], gs[i + 1])],
         inside |-> TRUE, mean |-> [i \in 1..n |-> IF gs[i].kind = "norm" THEN "0" ELSE "1/2"],
         var |-> [i \in 1..n |-> IF gs[i].kind = "norm" THEN "1" ELSE "1/12"], new |-> "1"]))
   /\ UNCHANGED done
Stop == Sim /\ Len(hist) >= MaxLen /\ ~done /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<gens, blocks, hist>>
Next == (Len(hist) < MaxLen /\ Block) \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<gens, blocks>>

\* ------------------------------------------------------------ properties
\* a distribution function: rising, within [0,1], and normal tails are symmetric
Law == \A i \in 1..Len(gens) : LET b == Below(gens[i]) IN
   /\ \A k \in 1..Len(b) : RLt("0", b[k]) /\ RLt(b[k], "1") /\ (k > 1 => RLt(b[k - 1], b[k]))
   /\ gens[i].kind = "norm" => \A k \in 1..Len(b) : RLe(RAbs(RSub(RAdd(Phi(Sds[k]), Phi(RNeg(Sds[k]))), "1")), "1/1000000000000000000000000000000")
=============================================================================
