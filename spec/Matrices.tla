------------------------------ MODULE Matrices ------------------------------
(***************************************************************************)
(* The matrix and vector types every part of the library computes with:      *)
(* a machine of registers holding matrices (M), symmetric matrices (S),      *)
(* column (C) and row (R) vectors.  Stored numbers are dyadic and small, so  *)
(* the arithmetic of the implementation on them is exact; results that need  *)
(* rounding (inverses, factors, ...) are observed but not stored.            *)
(***************************************************************************)
EXTENDS Mat

CONSTANTS Types, Dims, Vals, Scalars, First, MaxRegs, Ops,
          Unit        \* what the sizes of numbers are measured in

VARIABLES regs, hist, done
vars == <<regs, hist, done>>

Reg(t, v) == [t |-> t, v |-> v]
IsMat(r) == r.t = "M" \/ r.t = "S"
NR(r) == IF r.t = "R" THEN 1 ELSE Len(r.v)
NC(r) == IF r.t = "C" THEN 1 ELSE IF r.t = "R" THEN Len(r.v) ELSE Cols(r.v)
\* every register as a plain matrix
AsM(r) == IF r.t = "C" THEN Force([i \in 1..Len(r.v) |-> <<r.v[i]>>]) ELSE IF r.t = "R" THEN <<r.v>> ELSE r.v
FromM(t, m) == Reg(t, IF t = "C" THEN Force([i \in 1..Rows(m) |-> m[i][1]]) ELSE IF t = "R" THEN m[1] ELSE m)
Elems(r) == UNION {{m[i][j] : j \in 1..Cols(m)} : <<m, i>> \in {<<AsM(r), i>> : i \in 1..NR(r)}}
Storable(x) == \E y \in {RDiv(x, Unit)} : RLe(RAbs(y), "1000") /\ RFloor(RMul(y, "1024")) = RMul(y, "1024")
Exact(r) == \A x \in Elems(r) : Storable(x)
Mirror(m) == Force([i \in 1..Rows(m) |-> [j \in 1..Rows(m) |-> IF j <= i THEN m[i][j] ELSE m[j][i]]])
Map(F(_), r) == FromM(r.t, Force([i \in 1..NR(r) |-> [j \in 1..NC(r) |-> F(AsM(r)[i][j])]]))
Small(m) == \A i \in 1..Rows(m), j \in 1..Cols(m) : RLe(RAbs(m[i][j]), RMul("100", Unit))

\* result type of a binary operation, "" when there is none
Same(x, y) == NR(x) = NR(y) /\ NC(x) = NC(y)
BinType(o, x, y) ==
   IF o \in {"+", "-"}
   THEN IF ~Same(x, y) THEN "" ELSE IF x.t = y.t THEN x.t ELSE IF x.t = "S" /\ y.t = "M" THEN "M" ELSE ""
   ELSE IF NC(x) # NR(y) THEN ""
        ELSE IF IsMat(x) /\ y.t = "C" THEN "C"
        ELSE IF x.t = "M" /\ y.t = "M" THEN "M"
        ELSE IF x.t = "S" /\ IsMat(y) THEN "M"
        ELSE IF x.t = "C" /\ y.t = "R" THEN "M" ELSE ""
BinVal(o, x, y) == FromM(BinType(o, x, y), IF o = "+" THEN MAdd(AsM(x), AsM(y)) ELSE IF o = "-" THEN MSub(AsM(x), AsM(y)) ELSE MMul(AsM(x), AsM(y)))
ScalVal(o, x, c) == Map(LAMBDA e : IF o = "+" THEN RAdd(e, c) ELSE IF o = "-" THEN RSub(e, c) ELSE IF o = "*" THEN RMul(e, c) ELSE RDiv(e, c), x)

Obs1(r) == [r |-> NR(r), c |-> NC(r), v |-> AsM(r)]
Obs(rs) == [k \in 1..Len(rs) |-> Obs1(rs[k])]
Do(o, args, ex, rs) == \E now \in {rs} :
   /\ regs' = now
   /\ hist' = Append(hist, Step(o, args, [obs |-> Force(Obs(now))] @@ ex))
   /\ UNCHANGED done
N == Len(regs)
Ks == PickN(1, N)
\* a result goes to a new register or over one of its own type
Dsts(t) == IF Sim THEN {RandInt(1, IF N < MaxRegs THEN N + 1 ELSE N)} ELSE 1..(IF N < MaxRegs THEN N + 1 ELSE N)
Put(k, r) == IF k > N THEN Append(regs, r) ELSE [regs EXCEPT ![k] = r]
DstOK(k, t) == IF k > N THEN TRUE ELSE regs[k].t = t
Store(o, args, k, r) == Exact(r) /\ DstOK(k, r.t) /\ Do(o, args @@ [dst |-> k, t |-> r.t], <<>>, Put(k, r))
Query(o, args, ex) == Do(o, args, ex, regs)

RandReg(x, t) == \* x only keeps TLC from caching the random choice
   IF t = "M" THEN {Reg("M", m) : m \in PickMat(RandInt(1, Len(Dims)), RandInt(1, Len(Dims)), Vals)}
   ELSE IF t = "S" THEN {Reg("S", Mirror(m)) : m \in {RMat(d, d, Vals) : d \in Pick(Dims)}}
   ELSE {Reg(t, v) : v \in {RVec(d, Vals) : d \in Pick(Dims)}}
RECURSIVE RandShape(_, _, _, _)
RandShape(x, t, r, c) == IF t = "M" THEN Reg("M", RMat(r, c, Vals)) ELSE IF t = "S" THEN Reg("S", Mirror(RMat(r, r, Vals))) ELSE Reg(t, RVec(r, Vals))

Init == regs = <<>> /\ hist = <<>> /\ done = FALSE
\* exhaustive search starts from fixed registers; simulation creates them at will
Start == /\ ~Sim /\ hist = <<>> /\ \E f \in Range(First) : Do("start", [regs |-> f], <<>>, f)
New == /\ Sim
       /\ \E k \in Dsts("") : \E t \in (IF k <= N THEN {regs[k].t} ELSE Pick(Types)) :
          \E r \in Pick(Dims), c \in Pick(Dims) : \E x \in {RandShape(hist, t, r, c)} :
          Store("new", [v |-> x.v], k, x)
\* the constructors that fill: all elements equal / all rows equal / two vectors joined
Fill == \E k \in Dsts(""), t \in Pick(<<"C", "R">>), n \in Pick(Dims), c \in Pick(Scalars) :
   Store("fill", [n |-> n, x |-> c], k, Reg(t, VConst(n, c)))
Repeat == \E k \in Dsts(""), j \in Ks, n \in Pick(Dims) :
   /\ regs[j].t = "R"
   /\ Store("repeat", [j |-> j, n |-> n], k, Reg("M", Force([i \in 1..n |-> regs[j].v])))
Join == \E k \in Dsts(""), j \in Ks, i \in PickN(1, N), how \in Pick(<<"ctor", "add">>) :
   /\ regs[j].t = regs[i].t /\ regs[j].t \in {"C", "R"} /\ Len(regs[i].v) + Len(regs[j].v) <= 6
   /\ how = "ctor" => regs[j].t = "C"
   /\ Store("join", [x |-> j, y |-> i, how |-> how], k, Reg(regs[j].t, regs[j].v \o regs[i].v))
Copy == \E k \in Dsts(""), j \in Ks : Store("copy", [x |-> j], k, regs[j])
FromSym == \E k \in Dsts(""), j \in Ks : /\ regs[j].t = "S"
   /\ Store("fromsym", [x |-> j], k, Reg("M", regs[j].v))
ToSym == \E k \in Dsts(""), j \in Ks : /\ regs[j].t = "M" /\ NR(regs[j]) = NC(regs[j])
   /\ Store("tosym", [x |-> j], k, Reg("S", Mirror(regs[j].v)))
Bin == \E k \in Dsts(""), j \in Ks, i \in PickN(1, N), o \in Pick(<<"+", "-", "*">>) :
   /\ BinType(o, regs[j], regs[i]) # ""
   /\ \E r \in {BinVal(o, regs[j], regs[i])} : Store("bin", [o |-> o, x |-> j, y |-> i], k, r)
InPlace == \E j \in Ks, i \in PickN(1, N), o \in Pick(<<"+", "-">>) :
   /\ Same(regs[i], regs[j])
   /\ IF regs[j].t = "S" /\ regs[i].t = "M" THEN regs[i].v = T(regs[i].v) ELSE regs[i].t = regs[j].t
   /\ \E r \in {IF regs[i].t = regs[j].t THEN BinVal(o, regs[j], regs[i]) ELSE Reg("S", BinVal(o, regs[j], regs[i]).v)} : Store("ibin", [o |-> o, y |-> i], j, r)
Scal == \E k \in Dsts(""), j \in Ks, o \in Pick(<<"+", "-", "*", "/">>), c \in Pick(Scalars) :
   /\ o = "/" => c # "0"
   /\ \E r \in {ScalVal(o, regs[j], c)} : Store("scal", [o |-> o, x |-> j, c |-> c], k, r)
InScal == \E j \in Ks, o \in Pick(<<"+", "-", "*", "/", "=">>), c \in Pick(Scalars) :
   /\ o = "/" => c # "0"
   /\ \E r \in {IF o = "=" THEN Map(LAMBDA e : c, regs[j]) ELSE ScalVal(o, regs[j], c)} : Store("iscal", [o |-> o, c |-> c], j, r)
Transp == \E k \in Dsts(""), j \in Ks :
   \E r \in {FromM(IF regs[j].t = "C" THEN "R" ELSE IF regs[j].t = "R" THEN "C" ELSE regs[j].t, T(AsM(regs[j])))} : Store("T", [x |-> j], k, r)
\* parts, elements counted from 1
Block(m, i, j, k, l) == Force([a \in 1..(j-i+1) |-> [b \in 1..(l-k+1) |-> m[i+a-1][k+b-1]]])
Sub == \E k \in Dsts(""), x \in Ks : \E r \in {regs[x]} :
   \E a \in PickN(1, NR(r)), c \in PickN(1, NC(r)) : \E b \in PickN(a, NR(r)), d \in PickN(c, NC(r)) :
   Store("sub", [x |-> x, i |-> <<a, b, c, d>>], k, FromM(IF IsMat(r) THEN "M" ELSE r.t, Block(AsM(r), a, b, c, d)))
RowOf == \E k \in Dsts(""), x \in Ks : \E r \in {regs[x]} : \E i \in PickN(1, NR(r)) :
   /\ IsMat(r) /\ Store("row", [x |-> x, i |-> i], k, Reg("R", r.v[i]))
ColOf == \E k \in Dsts(""), x \in Ks : \E r \in {regs[x]} : \E i \in PickN(1, NC(r)) :
   /\ r.t = "M" /\ Store("col", [x |-> x, i |-> i], k, Reg("C", T(r.v)[i]))
Write == \E x \in Ks, c \in Pick(Vals) : \E r \in {regs[x]} : \E i \in PickN(1, NR(r)), j \in PickN(1, NC(r)) :
   \E m \in {Force([a \in 1..NR(r) |-> [b \in 1..NC(r) |-> IF (a = i /\ b = j) \/ (r.t = "S" /\ a = j /\ b = i) THEN c ELSE AsM(r)[a][b]]])} :
   Store("write", [i |-> i, j |-> j, c |-> c], x, FromM(r.t, m))
\* resizing keeps what fits; the caller then fills the rest
Resize == \E x \in Ks, c \in Pick(Vals), keep \in Pick(<<TRUE, TRUE, FALSE>>) : \E r \in {regs[x]} :
   \E a \in (IF r.t = "R" THEN {1} ELSE Pick(Dims)), b0 \in (IF r.t = "C" THEN {1} ELSE Pick(Dims)) :
   \E b \in {IF r.t = "S" THEN a ELSE b0} :
   /\ IsMat(r) = FALSE => keep
   /\ \E m \in {Force([i \in 1..a |-> [j \in 1..b |-> IF keep /\ i <= NR(r) /\ j <= NC(r) THEN AsM(r)[i][j] ELSE c]])} :
      Store("resize", [a |-> a, b |-> b, c |-> c, keep |-> keep, pr |-> NR(r), pc |-> NC(r)], x, FromM(r.t, m))
VAssign == \E x \in Ks, n \in Pick(Dims), c \in Pick(Scalars) :
   /\ ~IsMat(regs[x]) /\ Store("vassign", [n |-> n, c |-> c], x, Reg(regs[x].t, VConst(n, c)))

\* ---------------------------------------------------------------- queries
Eq == \E x \in Ks, y \in PickN(1, N) : \E e \in {AsM(regs[x]) = AsM(regs[y])} :
   /\ regs[x].t = regs[y].t /\ Query("eq", [x |-> x, y |-> y], [q |-> e])
Dot == \E x \in Ks, y \in PickN(1, N) :
   /\ regs[x].t = "R" /\ regs[y].t = "C" /\ Len(regs[x].v) = Len(regs[y].v)
   /\ Query("dot", [x |-> x, y |-> y], [q |-> RDot(regs[x].v, regs[y].v)])
Mult == \E x \in Ks, y \in PickN(1, N) :
   /\ regs[x].t = "S" /\ regs[y].t = "C" /\ NC(regs[x]) = Len(regs[y].v)
   /\ Query("mult", [x |-> x, y |-> y], [q |-> MatVec(regs[x].v, regs[y].v)])
Square(r) == IsMat(r) /\ NR(r) = NC(r)
Det == \E x \in Ks : /\ Square(regs[x]) /\ Small(regs[x].v)
   /\ Query("det", [x |-> x], [q |-> MDet(regs[x].v)])
Inv == \E x \in Ks :
   /\ Square(regs[x]) /\ Small(regs[x].v)
   /\ IF MDet(regs[x].v) = "0" THEN FALSE ELSE \E m \in {MInv(regs[x].v)} : Small(MScale(RSq(Unit), m)) /\ Query("inv", [x |-> x], [q |-> m])
\* Cholesky: the lower triangular L with L L^T = A, when A is positive
\* definite; failure when a leading minor is clearly negative
LeadDets(m) == Force([k \in 1..Rows(m) |-> MDet(Force(Lead(m, k)))])
Factor == \E x \in Ks : \E r \in {regs[x]} :
   /\ r.t = "S" /\ Small(r.v)
   /\ \E d \in {LeadDets(MScale(RDiv("1", Unit), r.v))} :
      IF \A k \in 1..NR(r) : RLe("1/1000", d[k]) THEN Query("chol", [x |-> x], [ok |-> TRUE, low |-> TRUE, sq |-> r.v, diag |-> TRUE])
      ELSE \E k \in 1..NR(r) : /\ \A l \in 1..(k-1) : RLe("1/1000", d[l])
                               /\ RLe(d[k], "-1/1000") /\ Query("chol", [x |-> x], [ok |-> FALSE, low |-> TRUE, sq |-> Zeros(NR(r), NR(r)), diag |-> FALSE])
\* Singular values: A = U diag(w) V^T, V orthogonal, w not negative
SVD == \E x \in Ks : \E r \in {regs[x]} :
   /\ r.t = "M" /\ Small(r.v)
   /\ Query("svd", [x |-> x], [ok |-> TRUE, usv |-> r.v, vv |-> Ident(NC(r)), uu |-> TRUE, pos |-> TRUE, n |-> NC(r)])
\* The pseudoinverse, from a factorisation A = B C into full rank factors:
\* C^T (C C^T)^-1 (B^T B)^-1 B^T
Pinv(b, c) == MMul(MMul(T(c), MInv(MMul(c, T(c)))), MMul(MInv(MMul(T(b), b)), T(b)))
Frob2(m) == RSum([i \in 1..Rows(m) |-> RDot(m[i], m[i])])
PInv == \E x \in Ks, y \in PickN(1, N) : \E b \in {regs[x]}, c \in {regs[y]} :
   /\ Unit = "1" /\ b.t = "M" /\ c.t = "M" /\ NC(b) = NR(c) /\ Small(b.v) /\ Small(c.v)
   /\ IF MDet(MMul(c.v, T(c.v))) = "0" THEN FALSE ELSE IF MDet(MMul(T(b.v), b.v)) = "0" THEN FALSE
      ELSE \E p \in {Pinv(b.v, c.v)} : RLe(Frob2(p), "900") /\ Small(MMul(b.v, c.v)) /\ Query("pinv", [x |-> x, y |-> y], [q |-> MRound(p)])

Stop == /\ Sim /\ Len(hist) >= MaxLen /\ ~done
        /\ done' = Emit(ToJson(hist)) /\ UNCHANGED <<regs, hist>>
Live == regs # <<>>
Next == \/ /\ Len(hist) < MaxLen
           /\ \/ Start
              \/ (N > 3 => Often(3)) /\ New
              \/ Live /\ "make" \in Ops /\ Fill
              \/ Live /\ "make" \in Ops /\ Repeat
              \/ Live /\ "make" \in Ops /\ Join
              \/ Live /\ "make" \in Ops /\ Copy
              \/ Live /\ "make" \in Ops /\ FromSym
              \/ Live /\ "make" \in Ops /\ ToSym
              \/ Live /\ "alg" \in Ops /\ Bin
              \/ Live /\ "alg" \in Ops /\ InPlace
              \/ Live /\ "alg" \in Ops /\ Scal
              \/ Live /\ "alg" \in Ops /\ InScal
              \/ Live /\ "alg" \in Ops /\ Transp
              \/ Live /\ "part" \in Ops /\ Sub
              \/ Live /\ "part" \in Ops /\ RowOf
              \/ Live /\ "part" \in Ops /\ ColOf
              \/ Live /\ "part" \in Ops /\ Write
              \/ Live /\ "part" \in Ops /\ Resize
              \/ Live /\ "part" \in Ops /\ VAssign
              \/ Live /\ "ask" \in Ops /\ Eq
              \/ Live /\ "ask" \in Ops /\ Dot
              \/ Live /\ "ask" \in Ops /\ Mult
              \/ Live /\ "fact" \in Ops /\ Det
              \/ Live /\ "fact" \in Ops /\ Inv
              \/ Live /\ "fact" \in Ops /\ Factor
              \/ Live /\ "fact" \in Ops /\ SVD
              \/ Live /\ "fact" \in Ops /\ PInv
        \/ Stop
Spec == Init /\ [][Next]_vars
EmitT == ~Sim => Emit(ToJson(hist'))
View == <<regs, IF hist = <<>> THEN "" ELSE hist[Len(hist)].op, Len(hist)>>

\* ------------------------------------------------------------ properties
Last == IF hist = <<>> THEN [op |-> "none"] ELSE hist[Len(hist)]
WellFormed == \A k \in 1..N : regs[k].t = "S" => (NR(regs[k]) = NC(regs[k]) /\ Symmetric(regs[k].v))
InverseOK == Last.op = "inv" => MMul(Last.e.q, regs[Last.a.x].v) = Ident(NR(regs[Last.a.x]))
Near(a, b) == \A i \in 1..Rows(a), j \in 1..Cols(a) : RLe(RAbs(RSub(a[i][j], b[i][j])), "1/1000000000000000000000000")
\* the four conditions of Penrose
PenroseOK == Last.op = "pinv" => LET a == MMul(regs[Last.a.x].v, regs[Last.a.y].v) p == Last.e.q IN
   /\ Near(MMul(MMul(a, p), a), a) /\ Near(MMul(MMul(p, a), p), p)
   /\ Near(T(MMul(a, p)), MMul(a, p)) /\ Near(T(MMul(p, a)), MMul(p, a))
DetOK == Last.op = "det" => MDet(T(regs[Last.a.x].v)) = Last.e.q
=============================================================================
