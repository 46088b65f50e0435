--------------------------------- MODULE Assem --------------------------------
(***************************************************************************)
(* Assembly of bilinear, linear and constant forms (A02) and the solution  *)
(* of the constrained problems they define (A03).                          *)
(*                                                                         *)
(* Coordinates are those of the mesh less a shift: unit * cor / scale.     *)
(* The state has in addition                                               *)
(*   un : the unit of length (rational)                                    *)
(*   hs : sequence of dof handlers [et, num]                               *)
(*                                                                         *)
(* A form is [t (0 constant, 1 linear, 2 bilinear), mu (dx, ds, dv), f     *)
(* (flag), k (kernel), b (test basis), c (trial basis)]; a basis is        *)
(* [h, sf, der]; a kernel is [F, at (atoms), cw (doubled on cells with     *)
(* this flag)], F one of "id", "prod", "lin" (2a - b).  All integrands are *)
(* polynomials on the reference cell, and integrated exactly from their    *)
(* values on a grid of m + 1 points per direction (module Quad).           *)
(***************************************************************************)
EXTENDS Dofs

VView(st, h) == [st EXCEPT !.et = st.hs[h].et, !.num = st.hs[h].num]
One(n) == VConst(R1, n)
Pt2(n) == TLCEval([k \in 1..(n + 1) |-> Q(k - 1, n)])

(* ---------------------------- kernel values ---------------------------- *)
KDeg(st, at) ==
  CASE at.a = "poly" -> at.deg
    [] at.a = "nodal" -> Degree(st.hs[at.b.h].et)
    [] OTHER -> 0
RECURSIVE SumInt(_)
SumInt(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumInt(Tail(s))
KernDeg(st, k) ==
  LET D == [i \in 1..Len(k.at) |-> KDeg(st, k.at[i])] IN
  IF Len(D) = 0 THEN 0 ELSE IF k.F = "prod" THEN SumInt(D) ELSE SetMax(Range(D))
AtSamples(at) == CASE at.a = "poly" -> Len(at.p) [] at.a = "const" -> Len(at.c) [] at.a = "nodal" -> at.ns
KSamples(k) == IF Len(k.at) = 0 THEN 1 ELSE SetMax({AtSamples(k.at[i]) : i \in 1..Len(k.at)})
DataOf(at, d, s) == R((((d + 3) * (7 + at.seed) + s * 5 + (d % 3) * s) % 11) - 5)
Pick(s, n) == IF n = 1 THEN 1 ELSE s

(* ------------------- points and bases on a region ---------------------- *)
\* corners
CorR(st, a) == TLCEval([i \in 1..NC(st, a) |-> [k \in 1..st.grid.dim |-> RMul(st.un, Q(st.cor[a][i][k], st.grid.scale))]])
Parallelogram(C) == Len(C) = 2 \/ \A k \in 1..2 : C[1][k] + C[3][k] = C[2][k] + C[4][k]
\* reference coordinates of the points: a vector per coordinate
RefVec(dim, reg, m) ==
  LET u == Pt2(m)  o == One(m + 1) IN
  CASE reg.r = "dx" -> IF dim = 1 THEN <<u>> ELSE <<VKron(u, o), VKron(o, u)>>
    [] reg.r = "ds" -> [k \in 1..2 |-> LET b == VertAt(reg.j, 1)[k]  d == EdgeDir(reg.j)[k] IN
                                       VAdd(VConst(R(b), m + 1), VScale(R(d), u))]
    [] reg.r = "dv" -> IF dim = 1 THEN <<<<R(reg.j)>>>> ELSE [k \in 1..2 |-> <<R(VertAt(reg.j, 1)[k])>>]
RefWt(dim, reg, m) ==
  CASE reg.r = "dx" -> IF dim = 1 THEN NCW[m] ELSE VKron(NCW[m], NCW[m])
    [] reg.r = "ds" -> NCW[m]
    [] reg.r = "dv" -> <<R1>>
\* the (bi)linear map at the points: value and derivatives as vectors
CellVec(C, X) ==
  LET n == Len(X[1]) IN
  IF Len(C) = 2
  THEN LET h == RSub(C[2][1], C[1][1]) IN
       [x |-> <<VAdd(VConst(C[1][1], n), VScale(h, X[1]))>>, J |-> <<<<VConst(h, n)>>>>, A |-> <<<<One(n)>>>>, det |-> VConst(h, n)]
  ELSE LET c(k) == <<C[1][k], RSub(C[2][k], C[1][k]), RSub(C[4][k], C[1][k]),
                     RAdd(RSub(C[1][k], C[2][k]), RSub(C[3][k], C[4][k]))>>
           st2 == VMul(X[1], X[2])
           J == TLCEval([k \in 1..2 |-> <<VAdd(VConst(c(k)[2], n), VScale(c(k)[4], X[2])),
                                          VAdd(VConst(c(k)[3], n), VScale(c(k)[4], X[1]))>>])
       IN [x |-> TLCEval([k \in 1..2 |-> VAdd(VAdd(VConst(c(k)[1], n), VScale(c(k)[2], X[1])),
                                              VAdd(VScale(c(k)[3], X[2]), VScale(c(k)[4], st2)))]),
           J |-> J,
           \* adjugate: A[m][i] = det * d r_m / d x_i
           A |-> TLCEval(<< <<J[2][2], VScale(R(-1), J[1][2])>>, <<VScale(R(-1), J[2][1]), J[1][1]>> >>),
           det |-> TLCEval(VAdd(VMul(J[1][1], J[2][2]), VScale(R(-1), VMul(J[1][2], J[2][1]))))]
\* values of the local basis functions at the points, times det^(order of derivative);
\* second derivatives for affine cells only
BasisVec(st, a, b, X, G) ==
  LET dim == st.grid.dim  et == st.hs[b.h].et  p == Degree(et)
      c == NearestAnc(st, a, b.sf)
      w == Width(c, a)
      o == IF dim = 1 THEN <<SubPos1(PathIn(c, a), R1)>> ELSE SubPos(PathIn(c, a), R1)
      Y == TLCEval([k \in 1..dim |-> VAdd(VConst(o[k], Len(X[1])), VScale(w, X[k]))])
      T == TLCEval([k \in 1..dim |-> [i \in 0..p |-> TLCEval([d \in 0..2 |-> IF d > b.der[1] THEN <<>> ELSE
                         VScale(RPow(w, d), PEvalV(DLagTab[p][i][d], Y[k]))])]])
      nt(n) == NodeTab[dim][p][n]
      D(n, e) == IF dim = 1 THEN T[1][nt(n)[1]][e[1]] ELSE VMul(T[1][nt(n)[1]][e[1]], T[2][nt(n)[2]][e[2]])
      e1(m) == IF m = 1 THEN <<1, 0>> ELSE <<0, 1>>
      e2(m, k) == IF m = k THEN (IF m = 1 THEN <<2, 0>> ELSE <<0, 2>>) ELSE <<1, 1>>
      one(n) == IF dim = 1 THEN D(n, <<b.der[1]>>)
                ELSE CASE b.der[1] = 0 -> D(n, <<0, 0>>)
                       [] b.der[1] = 1 -> LET i == b.der[2] + 1 IN
                            VAdd(VMul(D(n, e1(1)), G.A[1][i]), VMul(D(n, e1(2)), G.A[2][i]))
                       [] b.der[1] = 2 -> LET i == b.der[2] + 1  j == b.der[3] + 1
                                              t(m, k) == VMul(D(n, e2(m, k)), VMul(G.A[m][i], G.A[k][j])) IN
                            VAdd(VAdd(t(1, 1), t(1, 2)), VAdd(t(2, 1), t(2, 2)))
  IN TLCEval([n \in 1..NLoc(dim, et) |-> one(n)])
BDofs(st, a, b) == st.hs[b.h].num[NearestAnc(st, a, b.sf)]
BOrd(b) == b.der[1]

\* value of an atom for sample s: [v, q]: vector and the power of det it carries
RECURSIVE PolyVec(_, _)
PolyVec(p, X) ==
  LET n == Len(X[1]) IN
  IF p = <<>> THEN VConst(R0, n) ELSE
  VAdd(LET t == Head(p) IN VScale(R(t[1]), IF Len(X) = 1 THEN VPow(X[1], t[2][1]) ELSE VMul(VPow(X[1], t[2][1]), VPow(X[2], t[2][2]))),
       PolyVec(Tail(p), X))
AtomVec(st, a, at, s, X, G) ==
  CASE at.a = "poly" -> [v |-> PolyVec(at.p[Pick(s, Len(at.p))], G.x), q |-> 0]
    [] at.a = "const" -> [v |-> VConst(R(at.c[Pick(s, Len(at.c))]), Len(X[1])), q |-> 0]
    [] at.a = "nodal" ->
         LET B == BasisVec(st, a, at.b, X, G)  D == BDofs(st, a, at.b) IN
         [v |-> MatVec(MatT(B), TLCEval([i \in 1..Len(D) |-> DataOf(at, D[i], Pick(s, at.ns))])), q |-> BOrd(at.b)]
DetV(det, e) == IF e >= 0 THEN VPow(det, e) ELSE VDiv(One(Len(det)), VPow(det, -e))
\* kernel times quadrature weights, with all powers of det the integrand carries
WKernel(st, a, reg, k, s, X, G, m, q) ==
  LET n == Len(X[1])
      at(i) == AtomVec(st, a, k.at[i], s, X, G)
      K == CASE k.F = "none" -> [v |-> One(n), q |-> 0]
             [] k.F = "id" -> at(1)
             [] k.F = "prod" -> LET x == at(1)  y == at(2) IN [v |-> VMul(x.v, y.v), q |-> x.q + y.q]
             [] k.F = "lin" -> LET x == at(1)  y == at(2)  e == SetMax({x.q, y.q}) IN
                               [v |-> VAdd(VScale(R(2), VMul(x.v, DetV(G.det, e - x.q))),
                                           VScale(R(-1), VMul(y.v, DetV(G.det, e - y.q)))), q |-> e]
      cw == IF k.cw # "" /\ Marked(st, a, k.cw) THEN R(2) ELSE R1
      jac == IF reg.r = "dx" THEN 1 ELSE 0
      len == IF reg.r = "ds" THEN RMul(st.un, RSqrt(SegLen2(Side(st, a, reg.j), st.grid.scale))) ELSE R1
  IN TLCEval(VScale(RMul(cw, len), VMul(VMul(RefWt(st.grid.dim, reg, m), K.v),
             DetV(G.det, jac - q - K.q))))

(* ------------------------------- forms --------------------------------- *)
RegionsIn(st, a, form) ==
  CASE form.mu = "dx" -> IF form.f = "" \/ Marked(st, a, form.f) THEN {[r |-> "dx", j |-> 0]} ELSE {}
    [] form.mu = "ds" -> {[r |-> "ds", j |-> j] : j \in {i \in SideIdx(st, a) : form.f = "" \/ <<a, i, form.f>> \in st.hm}}
    [] form.mu = "dv" -> {[r |-> "dv", j |-> j] : j \in {i \in 0..(NC(st, a) - 1) : form.f = "" \/ <<st.cor[a][i + 1], form.f>> \in st.vm}}
FormBases(form) == IF form.t = 0 THEN <<>> ELSE IF form.t = 1 THEN <<form.b>> ELSE <<form.b, form.c>>
\* a degree that bounds the integrand in each direction
FormDeg(st, a, form) ==
  LET bs == FormBases(form)
      D == SumInt([i \in 1..Len(bs) |-> Degree(st.hs[bs[i].h].et)])
      m == D + KernDeg(st, form.k) + (IF Parallelogram(st.cor[a]) THEN 0 ELSE 1) IN IF m < 1 THEN 1 ELSE m
Blocks(S, F(_)) == LET T == SeqOf(S) IN TLCEval([i \in 1..Len(T) |-> F(T[i])])     \* sequence over a set
\* contribution of one region of a cell, sample s: number, vector (as column) or matrix
LocalForm(st, a, reg, form, s) ==
  LET m == FormDeg(st, a, form)
      X == TLCEval(RefVec(st.grid.dim, reg, m))
      G == TLCEval(CellVec(CorR(st, a), X))
      bs == FormBases(form)
      q == SumInt([i \in 1..Len(bs) |-> BOrd(bs[i])])
      W == WKernel(st, a, reg, form.k, s, X, G, m, q)
  IN CASE form.t = 0 -> << <<RSumSeq(W)>> >>
       [] form.t = 1 -> LET B == BasisVec(st, a, form.b, X, G) IN TLCEval([i \in 1..Len(B) |-> <<RDot(B[i], W)>>])
       [] form.t = 2 -> LET B == BasisVec(st, a, form.b, X, G)  C == BasisVec(st, a, form.c, X, G) IN
                        MatMul(TLCEval([i \in 1..Len(B) |-> VMul(B[i], W)]), MatT(C))
PosIn(rows) == LET n == SetMax(Range(rows)) IN TLCEval([d \in 0..n |-> IF d \in Range(rows) THEN CHOOSE i \in 1..Len(rows) : rows[i] = d ELSE 0])
\* sum over cells and regions, for rows / cols given as sequences of dofs
FormBlocks(st, cells, form, s, rp, cp) ==
  Blocks(UNION {{<<a, reg>> : reg \in RegionsIn(st, a, form)} : a \in cells},
         LAMBDA x : [r |-> IF form.t = 0 THEN <<1>> ELSE LET d == BDofs(st, x[1], form.b) IN [i \in 1..Len(d) |-> rp[d[i]]],
                     c |-> IF form.t < 2 THEN <<1>> ELSE LET d == BDofs(st, x[1], form.c) IN [i \in 1..Len(d) |-> cp[d[i]]],
                     a |-> LocalForm(st, x[1], x[2], form, Pick(s, KSamples(form.k)))])
AsmForms(st, cells, forms, s, rows, cols) ==
  LET rp == PosIn(rows)  cp == PosIn(cols) IN
  ScatterSum(TLCEval(ConcatAll([i \in 1..Len(forms) |-> FormBlocks(st, cells, forms[i], s, rp, cp)])), Len(rows), Len(cols))
OfType(forms, t) == SelectSeq(forms, LAMBDA f : f.t = t)
NSamples(forms) == SetMax({KSamples(forms[i].k) : i \in 1..Len(forms)})
AsmCells(st, q) == {a \in LeafSet(st, q.sf) : q.rf = "" \/ Marked(st, a, q.rf)}
BasisDofs(st, cells, b) == UNION {Range(BDofs(st, a, b)) : a \in cells}
SeqSet(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
Den == 1073741824      \* recorded numbers are multiples of 2^-30
AsmBad(st, q, r) ==
  LET cells == AsmCells(st, q) IN
  UNION {
    LET fs == q.probs[i]  B == OfType(fs, 2)  L == OfType(fs, 1)  C == OfType(fs, 0)  p == r[i] IN
    (IF B = <<>> THEN (IF p.M.a = <<>> THEN {} ELSE {"matrix of a problem without bilinear form"})
     ELSE IF ~SeqSet(p.M.rows, BasisDofs(st, cells, B[1].b)) \/ ~SeqSet(p.M.cols, BasisDofs(st, cells, B[1].c))
     THEN {"dofs of the matrix: " \o ToString(<<p.M.rows, p.M.cols>>)}
     ELSE IF Len(p.M.a) # NSamples(B) THEN {"number of matrices"}
     ELSE {"matrix of problem " \o ToString(i) \o ", sample " \o ToString(s) \o ", rows " \o ToString(p.M.rows) :
             s \in {k \in 1..Len(p.M.a) : ~RCloseInt(p.M.a[k], Den, AsmForms(st, cells, B, k, p.M.rows, p.M.cols))}})
    \cup
    (IF L = <<>> THEN (IF p.V.a = <<>> THEN {} ELSE {"vector of a problem without linear form"})
     ELSE IF ~SeqSet(p.V.rows, BasisDofs(st, cells, L[1].b)) THEN {"dofs of the vector: " \o ToString(p.V.rows)}
     ELSE IF Len(p.V.a) # NSamples(L) THEN {"number of vectors"}
     ELSE {"vector of problem " \o ToString(i) \o ", sample " \o ToString(s) \o ", rows " \o ToString(p.V.rows)
             \o " got " \o ToString(p.V.a[s]) \o " expected " \o ToString(AsmForms(st, cells, L, s, p.V.rows, <<0>>)) :
             s \in {k \in 1..Len(p.V.a) : ~RCloseInt(p.V.a[k], Den, AsmForms(st, cells, L, k, p.V.rows, <<0>>))}})
    \cup
    (IF C = <<>> THEN (IF p.S = <<>> THEN {} ELSE {"scalar of a problem without constant form"})
     ELSE IF Len(p.S) # NSamples(C) THEN {"number of scalars"}
     ELSE {"scalar of problem " \o ToString(i) \o ", sample " \o ToString(s) \o " got " \o ToString(p.S[s]) \o " expected "
             \o ToString(AsmForms(st, cells, C, s, <<0>>, <<0>>)) :
             s \in {k \in 1..Len(p.S) : ~RCloseInt(<< <<p.S[k]>> >>, Den, AsmForms(st, cells, C, k, <<0>>, <<0>>))}})
    : i \in 1..Len(q.probs)}

(* ----------------------- operations and queries ------------------------ *)
AsmInit(init) == MeshInit(init) @@ [et |-> "Q1", num |-> <<>>, del |-> FALSE, un |-> Q(init.u[1], init.u[2]),
                                    hs |-> [h \in 1..Len(init.ets) |-> [et |-> init.ets[h], num |-> <<>>]]]
AsmApply(st, op) == IF op.o \in {"dist", "dist1"} THEN st
                    ELSE LET s == MeshApply(st, op) IN
                         IF op.o \in {"delete_children", "coarsen"}
                         THEN [s EXCEPT !.del = TRUE, !.hs = [h \in 1..Len(@) |-> [@[h] EXCEPT !.num = TLCEval(Restrict(@, Nodes(s)))]]]
                         ELSE s
\* the numberings are choices of the implementation, judged by D01 and adopted here
AdoptAll(st, step) ==
  IF step.nums = <<>> THEN st
  ELSE [st EXCEPT !.hs = [h \in 1..Len(@) |-> IF step.nums[h] = <<>> THEN @[h] ELSE [@[h] EXCEPT !.num = NumOf(step.nums[h])]]]
QBad(st, q, r) ==
  CASE q.q = "asm" -> AsmBad(st, q, r)
AsmMismatch(st0, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE LET s == AdoptAll(AsmApply(st0, step.op), step) IN
       UNION {{"query " \o ToString(step.qs[i].q) \o ": " \o b : b \in QBad(s, step.qs[i].q, step.qs[i].r)} : i \in 1..Len(step.qs)}

(* ------------------------------- laws ---------------------------------- *)
NoKern == [F |-> "none", at |-> <<>>, cw |-> ""]
PolyKern(p, deg) == [F |-> "id", at |-> <<[a |-> "poly", p |-> <<p>>, deg |-> deg]>>, cw |-> ""]
Bas(h, sf, der) == [h |-> h, sf |-> sf, der |-> der]
NVert(dim) == IF dim = 1 THEN 2 ELSE 4
AsmLaws(st0, et) ==
  LET dim == st0.grid.dim
      st == [st0 EXCEPT !.hs = <<[et |-> et, num |-> CanonNum(st0, et)]>>]
      V == VView(st, 1)
      rows == SortedSeq(LeafDofs(V, ""))
      L == LeafSet(st, "")
      z == [k \in 1..(dim + 1) |-> 0]
      d(k) == <<1>> \o [i \in 1..dim |-> k - 1]
      u == Bas(1, "", z)
      Asm(t, mu, k, b, c) == AsmForms(st, L, <<[t |-> t, mu |-> mu, f |-> "", k |-> k, b |-> b, c |-> c]>>, 1,
                                      IF t = 0 THEN <<0>> ELSE rows, IF t < 2 THEN <<0>> ELSE rows)
      mass == Asm(2, "dx", NoKern, u, u)
      ones == [i \in 1..Len(rows) |-> R1]
      load == [i \in 1..Len(rows) |-> Asm(1, "dx", NoKern, u, u)[i][1]]
      coord(i) == LET f == PosOf(V, rows[i]) IN f
      xs(k) == TLCEval([i \in 1..Len(rows) |-> RMul(st.un, Q(coord(i)[k], Fine(dim, et) * st.grid.scale))])
      area == RMul(RPow(st.un, dim), Q(SumSize(st, L), (IF dim = 1 THEN 1 ELSE 2 * st.grid.scale) * st.grid.scale))
      affine == \A a \in L : Parallelogram(st.cor[a])
  IN /\ mass = MatT(mass)
     /\ MatVec(mass, ones) = load
     /\ RSumSeq(load) = area
     /\ Asm(0, "dx", NoKern, u, u) = << <<area>> >>
     \* linear form with kernel x_k: total is the first moment; equals the mass matrix applied to the nodal values
     /\ (Degree(et) > 0 /\ \A k \in 1..dim : st.grid.per[k] = 0) =>
          \A k \in 1..dim :
            LET ex == [i \in 1..dim |-> IF i = k THEN 1 ELSE 0]
                f == Asm(1, "dx", PolyKern(<< <<1, ex>> >>, 1), u, u)
                D == Asm(2, "dx", NoKern, u, Bas(1, "", d(k)))
            IN /\ MatVec(mass, xs(k)) = [i \in 1..Len(rows) |-> f[i][1]]
               /\ MatVec(D, xs(k)) = load                 \* derivative of x_k is one
               /\ MatVec(D, ones) = [i \in 1..Len(rows) |-> R0]
               /\ (affine /\ ~Torn(et)) =>
                    LET S == Asm(2, "dx", NoKern, Bas(1, "", d(k)), Bas(1, "", d(k))) IN
                    /\ S = MatT(S)
                    /\ RDot(xs(k), MatVec(S, xs(k))) = area
     \* integrals over the sides of the mesh of a constant and, on each cell, the divergence theorem for x
     /\ dim = 2 =>
          /\ RClose(Asm(0, "ds", NoKern, u, u)[1][1],
                    RSumSeq(LET T == SeqOf(SidesOf(st, L)) IN [i \in 1..Len(T) |-> RMul(st.un, RSqrt(SegLen2(Side(st, T[i][1], T[i][2]), st.grid.scale)))]))
     /\ Asm(0, "dv", NoKern, u, u)[1][1] = R(Cardinality(L) * NVert(dim))
SqrtLaw == \A n \in {0, 1, 2, 3, 4, 7, 9, 10, 50} : \A d \in {1, 2, 9} :
              LET s == RSqrt(Q(n, d)) IN RClose(RMul(s, s), Q(n, d)) /\ RSign(s) >= 0
================================================================================
