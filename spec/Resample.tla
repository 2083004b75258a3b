------------------------------ MODULE Resample ------------------------------
(***************************************************************************)
(* Weighted particles: multinomial resampling by ordered uniforms             *)
(***************************************************************************)
EXTENDS Mat

Fix(v) == IF RSum(v) = "0" THEN Uniform(Len(v)) ELSE Normal(v)
\* multinomial resampling: indices chosen by ordered uniforms
Chosen(w, us) == LET c == Cum(w) o == Ripley(us) IN Force([k \in 1..Len(us) |-> Invert(c, o[k])])
ResampleOK(w, us) == LET c == Cum(w) o == Ripley(us) IN \A k \in 1..Len(us) : Clear(c, o[k]) /\ o[k] # "1"
Ess(w) == RDiv("1", RDot(w, w))
NotTiny(x) == RLe("1/1000000000000000000000000000000000000000000000000000000000000", x)
\* dynamic resampling of particles v with weights w
Finish1(v, w, dy, us2) ==
  IF dy /\ ~ResampleOK(w, us2) THEN [en |-> FALSE]
  ELSE LET c2 == Force(IF dy THEN Chosen(w, us2) ELSE [k \in 1..Len(v) |-> k])
       IN [en |-> TRUE, c2 |-> c2, v |-> Force([k \in 1..Len(v) |-> v[c2[k]]]), w |-> IF dy THEN Uniform(Len(v)) ELSE w]
MeanOf(v, w) == Force([i \in 1..(IF v = <<>> THEN 0 ELSE Len(v[1])) |-> RDot(w, [k \in 1..Len(v) |-> v[k][i]])])
=============================================================================
