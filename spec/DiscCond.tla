------------------------------ MODULE DiscCond ------------------------------
(***************************************************************************)
(* Conditional probability tables P(s | a_1, a_2, ...) over finite sets, and  *)
(* the system and measurement models built on them.                          *)
(*                                                                          *)
(* pdfs[k] = [n, dims, x, t]: number of states, numbers of values of the       *)
(*    arguments, current arguments (from 0), and the table: t[c] is the row    *)
(*    of n entries for the c-th combination of argument values, "none" while   *)
(*    an entry was never given.                                              *)
(* mods[j] = [t: "sys"/"meas", p]; a model refers to its pdf.                  *)
(***************************************************************************)
EXTENDS Common

CONSTANTS Sizes, ArgDims, ArgCounts, Entries, Draws, Lists, MaxPdfs, MaxMods, Ops

VARIABLES pdfs, mods, hist, done
vars == <<pdfs, mods, hist, done>>

RECURSIVE Combos(_)
Combos(ds) == IF ds = <<>> THEN 1 ELSE Head(ds) * Combos(Tail(ds))
\* the number of a combination of argument values
RECURSIVE Code(_, _)
Code(ds, x) == IF ds = <<>> THEN 1 ELSE Head(x) + Head(ds) * (Code(Tail(ds), Tail(x)) - 1) + 1
\* which need not be how the code lays the table out, but is one-to-one:
CodeOK(ds) == LET S == {x \in [1..Len(ds) -> 0..8] : \A i \in 1..Len(ds) : x[i] < ds[i]}
              IN Cardinality({Code(ds, x) : x \in S}) = Combos(ds)
NA(p) == Len(p.dims)
Row(p, x) == p.t[Code(p.dims, x)]
Known(r) == \A i \in 1..Len(r) : r[i] # "none"
Drawable(r) == Known(r) /\ RLt("0", RSum(r))
ArgsOf(p) == IF Sim THEN {Force([i \in 1..NA(p) |-> RandInt(0, p.dims[i] - 1)])}
             ELSE {x \in [1..NA(p) -> 0..8] : \A i \in 1..NA(p) : x[i] < p.dims[i]}
\* reported in full: the row of the current arguments
ObsP(p) == [n |-> p.n, na |-> NA(p), x |-> p.x, row |-> [i \in 1..p.n |-> Row(p, p.x)[i]]]
ObsM(m, ps) == [plain |-> NA(ps[m.p]) = 1, p |-> m.p, ns |-> IF m.t = "sys" THEN ps[m.p].n ELSE 0]
Do(o, args, ex, ps, ms) == \E p1 \in {ps} : \E m1 \in {ms} :
   /\ pdfs' = p1 /\ mods' = m1
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force([k \in 1..Len(p1) |-> ObsP(p1[k])]),
                                          mod |-> Force([j \in 1..Len(m1) |-> ObsM(m1[j], p1)])] @@ ex))
   /\ UNCHANGED done

NewPdf(x) == {[n |-> n, dims |-> ds] : n \in Pick(Sizes), ds \in UNION {PickVec(c, ArgDims) : c \in Pick(ArgCounts)}}
New == /\ Len(pdfs) < MaxPdfs
       /\ \E q \in NewPdf(hist) :
          Do("new", [n |-> q.n, dims |-> q.dims], <<>>,
             Append(pdfs, [n |-> q.n, dims |-> q.dims, x |-> [i \in 1..Len(q.dims) |-> 0],
                           t |-> [c \in 1..Combos(q.dims) |-> [i \in 1..q.n |-> "none"]]]), mods)
Copy == /\ Len(pdfs) < MaxPdfs
        /\ \E k \in PickN(1, Len(pdfs)), how \in Pick(<<"copy", "clone">>) :
           Do("copy", [k |-> k, how |-> how], <<>>, Append(pdfs, pdfs[k]), mods)
PutRow(p, x, r) == [p EXCEPT !.t = [@ EXCEPT ![Code(p.dims, x)] = r]]
\* one entry
SetOne == \E k \in PickN(1, Len(pdfs)) : \E p \in {pdfs[k]} : \E x \in ArgsOf(p), i \in PickN(1, p.n), v \in Pick(Entries) :
   Do("set", [k |-> k, x |-> x, s |-> i - 1, v |-> v], <<>>, [pdfs EXCEPT ![k] = PutRow(p, x, [Row(p, x) EXCEPT ![i] = v])], mods)
\* the entries of one combination of arguments, one call each
SetRow == \E k \in PickN(1, Len(pdfs)) : \E p \in {pdfs[k]} : \E x \in ArgsOf(p), r \in PickVec(p.n, Entries) :
   Do("setrow", [k |-> k, x |-> x, r |-> r], <<>>, [pdfs EXCEPT ![k] = PutRow(p, x, r)], mods)
\* the whole table, one call for each entry
RECURSIVE Decode(_, _)
Decode(ds, c) == IF ds = <<>> THEN <<>> ELSE <<c % Head(ds)>> \o Decode(Tail(ds), c \div Head(ds))
Fill == \E k \in PickN(1, Len(pdfs)) : \E p \in {pdfs[k]} : \E t \in PickMat(Combos(p.dims), p.n, Entries) :
   Do("fill", [k |-> k, xs |-> [c \in 1..Len(t) |-> Decode(p.dims, c - 1)], t |-> t], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.t = t]], mods)
SetArg == \E k \in PickN(1, Len(pdfs)) : \E i \in PickN(1, NA(pdfs[k])) : \E v \in PickN(0, pdfs[k].dims[i] - 1) :
   Do("arg", [k |-> k, i |-> i, v |-> v], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = [@ EXCEPT ![i] = v]]], mods)
SetArgs == \E k \in PickN(1, Len(pdfs)) : \E x \in ArgsOf(pdfs[k]) :
   Do("args", [k |-> k, x |-> x], <<>>, [pdfs EXCEPT ![k] = [@ EXCEPT !.x = x]], mods)
Usable(r, z) == Drawable(r) /\ \A i \in 1..Len(z) : Clear(Cum(Normal(r)), z[i])
Drawn(r, u) == InvertP(Normal(r), u) - 1
Samples == \E k \in PickN(1, Len(pdfs)), n \in Pick(Lists), pre \in Pick(<<0, 3>>) : \E r \in {Row(pdfs[k], pdfs[k].x)} :
   /\ Drawable(r)
   /\ \E z \in PickVec(IF n = 0 THEN 1 ELSE n, Draws) :
      /\ Usable(r, z)
      /\ Do("sample", [k |-> k, n |-> n, pre |-> pre, z |-> z], [ret |-> TRUE, s |-> [i \in 1..Len(z) |-> Drawn(r, z[i])]], pdfs, mods)

NewModel == /\ Len(mods) < MaxMods
            /\ \E k \in PickN(1, Len(pdfs)), t \in Pick(<<"sys", "meas">>) :
               /\ NA(pdfs[k]) \in {1, 2} /\ (t = "sys" => pdfs[k].dims[1] = pdfs[k].n)
               /\ Do("mnew", [t |-> t, p |-> k], <<>>, pdfs, Append(mods, [t |-> t, p |-> k]))
CopyModel == /\ Len(mods) < MaxMods
             /\ \E j \in PickN(1, Len(mods)) : Do("mcopy", [j |-> j], <<>>, pdfs, Append(mods, mods[j]))
SetPdf == \E j \in PickN(1, Len(mods)), k \in PickN(1, Len(pdfs)) :
   /\ NA(pdfs[k]) \in {1, 2} /\ (mods[j].t = "sys" => pdfs[k].dims[1] = pdfs[k].n)
   /\ Do("mset", [j |-> j, p |-> k], <<>>, pdfs, [mods EXCEPT ![j] = [@ EXCEPT !.p = k]])
MProb == \E j \in PickN(1, Len(mods)) : \E k \in {mods[j].p} : \E x \in ArgsOf(pdfs[k]), i \in PickN(1, pdfs[k].n) :
   /\ Row(pdfs[k], x)[i] # "none"
   /\ Do("mprob", [j |-> j, x |-> x, s |-> i - 1], [p |-> Row(pdfs[k], x)[i]], [pdfs EXCEPT ![k] = [@ EXCEPT !.x = x]], mods)
Simulate == \E j \in PickN(1, Len(mods)) : \E k \in {mods[j].p} : \E x \in ArgsOf(pdfs[k]), z \in PickVec(1, Draws) :
   /\ Usable(Row(pdfs[k], x), z)
   /\ Do("msim", [j |-> j, x |-> x, z |-> z], [s |-> Drawn(Row(pdfs[k], x), z[1])], [pdfs EXCEPT ![k] = [@ EXCEPT !.x = x]], mods)

Init == pdfs = <<>> /\ mods = <<>> /\ hist = <<>> /\ done = FALSE
Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<pdfs, mods, hist>>
Live == pdfs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ (Live => "new" \in Ops /\ Often(4)) /\ New
              \/ Live /\ "copy" \in Ops /\ Copy
              \/ Live /\ "one" \in Ops /\ SetOne
              \/ Live /\ "row" \in Ops /\ SetRow
              \/ Live /\ "fill" \in Ops /\ Fill
              \/ Live /\ SetArg
              \/ Live /\ SetArgs
              \/ Live /\ "sample" \in Ops /\ Samples
              \/ Live /\ "model" \in Ops /\ NewModel
              \/ mods # <<>> /\ "model" \in Ops /\ Often(3) /\ CopyModel
              \/ mods # <<>> /\ "model" \in Ops /\ SetPdf
              \/ mods # <<>> /\ "model" \in Ops /\ MProb
              \/ mods # <<>> /\ "model" \in Ops /\ Simulate
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<pdfs, mods, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op>>

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
Coded == \A k \in 1..Len(pdfs) : CodeOK(pdfs[k].dims)
Decoded == (Last.op = "fill") => \A c \in 1..Len(Last.a.xs) : Code(pdfs[Last.a.k].dims, Last.a.xs[c]) = c
\* what is drawn has a positive probability
Support == /\ (Last.op = "sample") => \A i \in 1..Len(Last.e.s) : RLt("0", Row(pdfs[Last.a.k], pdfs[Last.a.k].x)[Last.e.s[i] + 1])
           /\ (Last.op = "msim") => RLt("0", Row(pdfs[mods[Last.a.j].p], Last.a.x)[Last.e.s + 1])
\* entries are independent of each other
OneEntry == [][(Len(hist') > Len(hist) /\ hist'[Len(hist')].op = "set") =>
   LET a == hist'[Len(hist')].a IN \A k \in 1..Len(pdfs) : \A c \in 1..Len(pdfs[k].t) : \A i \in 1..pdfs[k].n :
      (k # a.k \/ c # Code(pdfs[k].dims, a.x) \/ i # a.s + 1) => pdfs'[k].t[c][i] = pdfs[k].t[c][i]]_vars
=============================================================================
