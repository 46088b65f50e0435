--------------------------------- MODULE Integ --------------------------------
(***************************************************************************)
(* Integral operators (A05) and covariance kernels and operators (R02).    *)
(*                                                                         *)
(* A form is [t, mu, f, k, b (test), c (trial)] as in Assem, with          *)
(*   t = 3 : double integral  K_ij = int int k(x,y) c_j(y) b_i(x) dy dx    *)
(*   t = 4 : interpolation    K_ij = int k(x_i,y) c_j(y) dy  at the nodes  *)
(*           x_i of the test functions                                     *)
(* or any t of Assem.  The kernel is [F, at] with atoms                    *)
(*   sep   : sum of c * x^e * y^f (sequence of <<c, e, f>> for each sample)*)
(*   const : numbers c                                                     *)
(*   nod   : nodal function of two variables on basis b with data BData    *)
(* F: "id" or "prod".  By Fubini's theorem the double integral of a        *)
(* separable kernel is a sum of products of linear forms, and that of a    *)
(* nodal kernel a product of mass matrices with its data.                  *)
(***************************************************************************)
EXTENDS Assem

BData(at, d, e, s) == R((((d + 2) * (at.seed + 3) + (e + 1) * (e + 5) + s * (d + 2 * e)) % 9) - 4)
Zero(st) == [k \in 1..st.grid.dim |-> 0]
AddE(e, f) == [k \in DOMAIN e |-> e[k] + f[k]]
\* terms of a kernel without nodal functions, sample s
AtomTerms(st, at, s) ==
  IF at.a = "const" THEN <<<<at.c[Pick(s, Len(at.c))], Zero(st), Zero(st)>>>> ELSE at.p[Pick(s, Len(at.p))]
KTerms(st, k, s) ==
  IF k.F = "id" THEN AtomTerms(st, k.at[1], s)
  ELSE LET A == AtomTerms(st, k.at[1], s)  B == AtomTerms(st, k.at[2], s) IN
       ConcatAll([i \in 1..Len(A) |-> [j \in 1..Len(B) |-> <<A[i][1] * B[j][1], AddE(A[i][2], B[j][2]), AddE(A[i][3], B[j][3])>>]])
ISamples(k) == SetMax({IF k.at[i].a = "sep" THEN Len(k.at[i].p) ELSE IF k.at[i].a = "const" THEN Len(k.at[i].c) ELSE k.at[i].ns : i \in 1..Len(k.at)})
FSamples(form) == IF form.t < 3 THEN KSamples(form.k) ELSE ISamples(form.k)
RECURSIVE SumE(_, _)
SumE(e, i) == IF i > Len(e) THEN 0 ELSE e[i] + SumE(e, i + 1)
Mon(e) == PolyKern(<< <<1, e>> >>, SumE(e, 1))
\* int x^e b_i(x) dx for the rows
LinOf(st, cells, form, b, e, rows) ==
  LET v == AsmForms(st, cells, <<[t |-> 1, mu |-> form.mu, f |-> form.f, k |-> Mon(e), b |-> b]>>, 1, rows, <<0>>) IN
  TLCEval([i \in 1..Len(rows) |-> v[i][1]])
Outer(c, u, v) == TLCEval([i \in 1..Len(u) |-> VScale(RMul(c, u[i]), v)])
RECURSIVE MatSum(_, _)
MatSum(L, i) == IF i = Len(L) THEN L[i] ELSE MatAdd(L[i], MatSum(L, i + 1))
\* the node of a dof in the coordinates of Assem
NodePt(st, h, d) ==
  LET V == VView(st, h)  x == PosOf(V, d) IN
  TLCEval([k \in 1..st.grid.dim |-> RMul(st.un, Q(x[k], Fine(st.grid.dim, V.et) * st.grid.scale))])
MonAt(e, x) == RProdSeq([k \in 1..Len(e) |-> RPow(x[k], e[k])])
IntMat(st, cells, form, s, rows, cols) ==
  IF form.k.at[1].a = "nod"
  THEN LET at == form.k.at[1]
           D == SortedSeq(LeafDofs(VView(st, at.b.h), at.b.sf))
           mass(b, r) == AsmForms(st, cells, <<[t |-> 2, mu |-> form.mu, f |-> form.f, k |-> NoKern, b |-> b, c |-> at.b]>>, 1, r, D)
           K == TLCEval([i \in 1..Len(D) |-> [j \in 1..Len(D) |-> BData(at, D[i], D[j], Pick(s, at.ns))]])
       IN MatMul(MatMul(mass(form.b, rows), K), MatT(mass(form.c, cols)))
  ELSE LET T == KTerms(st, form.k, s)
           u(e) == IF form.t = 3 THEN LinOf(st, cells, form, form.b, e, rows)
                   ELSE TLCEval([i \in 1..Len(rows) |-> MonAt(e, NodePt(st, form.b.h, rows[i]))])
       IN MatSum(TLCEval([i \in 1..Len(T) |-> Outer(R(T[i][1]), u(T[i][2]), LinOf(st, cells, form, form.c, T[i][3], cols))]), 1)
\* matrix of several bilinear forms
ProbMat(st, cells, forms, s, rows, cols) ==
  LET plain == OfType(forms, 2)  ints == SelectSeq(forms, LAMBDA f : f.t > 2) IN
  MatSum(TLCEval([i \in 1..Len(ints) |-> IntMat(st, cells, ints[i], Pick(s, FSamples(ints[i])), rows, cols)])
         \o (IF plain = <<>> THEN <<>> ELSE <<AsmForms(st, cells, plain, s, rows, cols)>>), 1)
TestDofs(st, cells, form) == IF form.t = 4 THEN LeafDofs(VView(st, form.b.h), form.b.sf) ELSE BasisDofs(st, cells, form.b)
IntBad(st, q, r) ==
  LET cells == AsmCells(st, q) IN
  UNION {
    LET fs == q.probs[i]  p == r[i]
        n == SetMax({FSamples(fs[k]) : k \in 1..Len(fs)}) IN
    IF ~SeqSet(p.M.rows, UNION {TestDofs(st, cells, fs[k]) : k \in 1..Len(fs)})
       \/ ~SeqSet(p.M.cols, UNION {BasisDofs(st, cells, fs[k].c) : k \in 1..Len(fs)})
    THEN {"dofs of the matrix: " \o ToString(<<p.M.rows, p.M.cols>>)}
    ELSE IF Len(p.M.a) # n THEN {"number of matrices"}
    ELSE {"matrix of problem " \o ToString(i) \o ", sample " \o ToString(s) \o ", rows " \o ToString(p.M.rows) :
            s \in {k \in 1..n : ~RCloseInt(p.M.a[k], Den, ProbMat(st, cells, fs, k, p.M.rows, p.M.cols))}}
    : i \in 1..Len(q.probs)}

(* ------------------------- covariance kernels --------------------------- *)
\* q = [name, sgm, l, a, nu2 (2 nu), M (rows, or <<>>), per (box periods or <<>>), x, y]; parameters are rationals
KD2(q, x, y) ==     \* squared distance in the metric M, shortest over the periods
  LET d(k) == LET z == RAbs(RSub(x[k], y[k])) IN
              IF q.per = <<>> THEN RSub(x[k], y[k])
              ELSE LET w == RSub(q.per[k], z) IN IF RLess(w, z) THEN w ELSE z
      v == TLCEval([k \in 1..Len(x) |-> d(k)])
  IN IF q.M = <<>> THEN RDot(v, v) ELSE RDot(v, MatVec(q.M, v))
KVal(q, x, y) ==
  LET d2 == KD2(q, x, y)  s2 == RMul(q.sgm, q.sgm)
      ex(c) == RExp(RNeg(c)) IN
  CASE q.name = "constant" -> q.sgm
    [] q.name = "linear" -> RAdd(s2, IF q.M = <<>> THEN RDot(x, y) ELSE RDot(x, MatVec(q.M, y)))
    [] q.name = "gaussian" -> RMul(s2, ex(RDiv(d2, RMul(R(2), RMul(q.l, q.l)))))
    [] q.name = "exponential" -> RMul(s2, ex(RDiv(RSqrt(d2), q.l)))
    [] q.name = "rational" -> RInv(RPow(RAdd(R1, d2), q.a))
    [] q.name = "matern" ->
         LET z == RDiv(RSqrt(RMul(R(q.nu2), d2)), q.l) IN
         RMul(s2, RMul(ex(z), CASE q.nu2 = 1 -> R1 [] q.nu2 = 3 -> RAdd(R1, z)
                                [] q.nu2 = 5 -> RAdd(RAdd(R1, z), RDiv(RMul(z, z), R(3)))))
\* recorded value of the kernel at pairs of points
KernBad(q, r) ==
  IF Len(r.v) # Len(q.x) THEN {"number of values"}
  ELSE {"kernel " \o ToString(q) \o " at pair " \o ToString(i) \o " got " \o ToString(r.v[i]) \o " expected " \o ToString(KVal(q, q.x[i], q.y[i])) :
          i \in {k \in 1..Len(q.x) : ~RClose(r.v[k], KVal(q, q.x[k], q.y[k]))}}

(* ------------------------ covariance operators -------------------------- *)
\* r: rows (dofs), C, M (recorded matrices), lam, V (eigenvalues, eigenvectors as columns), P = V diag(lam) V'
\* shifted back to the coordinates of the kernel
NodeX(st, q, d) == LET x == NodePt(st, q.h, d) IN TLCEval([k \in DOMAIN x |-> RAdd(x[k], q.shift[k])])
KMat(st, q, rows) ==
  LET X == TLCEval([i \in 1..Len(rows) |-> IF q.name = "sep" THEN NodePt(st, q.h, rows[i]) ELSE NodeX(st, q, rows[i])]) IN
  TLCEval([i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> IF q.name = "sep" THEN RSumSeq([t \in 1..Len(q.p) |->
      RMul(R(q.p[t][1]), RMul(MonAt(q.p[t][2], X[i]), MonAt(q.p[t][3], X[j])))]) ELSE KVal(q, X[i], X[j])]])
MassMat(st, q, cells, rows) ==
  LET u == Bas(q.h, q.sf, [k \in 1..(st.grid.dim + 1) |-> 0]) IN
  AsmForms(st, cells, <<[t |-> 2, mu |-> "dx", f |-> "", k |-> NoKern, b |-> u, c |-> u]>>, 1, rows, rows)
Fin(a) == ~RIsZero([n |-> a.d, d |-> 1])       \* a recorded number is a number
NearT(A, B, slack) == LET m == RAdd(RMul(Q(1, 10000000), RAdd(R1, MatMax(B))), slack) IN
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(B) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(B[i]) :
       Fin(A[i][j]) /\ ~RLess(m, RAbs(RSub(A[i][j], B[i][j])))
NearM2(A, B) == NearT(A, B, R0)
CovExact(st, q, cells, rows) ==
  IF q.disc = "interpolation"
  THEN LET M == MassMat(st, q, cells, rows) IN MatMul(MatMul(M, KMat(st, q, rows)), M)
  ELSE LET u == Bas(q.h, q.sf, [k \in 1..(st.grid.dim + 1) |-> 0]) IN
       IntMat(st, cells, [t |-> 3, mu |-> "dx", f |-> "", b |-> u, c |-> u,
                          k |-> [F |-> "id", at |-> <<[a |-> "sep", p |-> <<q.p>>]>>]], 1, rows, rows)
CovBad(st, q, r) ==
  LET cells == LeafSet(st, q.sf)
      n == Len(r.rows) IN
  IF Range(r.rows) # LeafDofs(VView(st, q.h), q.sf) \/ n # Cardinality(Range(r.rows)) \/ r.n # n THEN {"dofs " \o ToString(r.rows)}
  ELSE IF \E i \in 1..n : ~Fin(r.lam[i]) \/ \E j \in 1..n : ~Fin(r.V[i][j]) THEN {"decomposition is not finite"}
  ELSE
  LET M == MassMat(st, q, cells, r.rows)
      C == CovExact(st, q, cells, r.rows)
      MV == MatMul(M, r.V)
      VL == TLCEval([i \in 1..n |-> [j \in 1..n |-> RMul(r.V[i][j], r.lam[j])]]) IN
  \* the code raises eigenvalues to sqrt(eps) times the Frobenius norm of C
  LET fl == RMul(Q(1, 50000000), RSqrt(RSumSeq([i \in 1..n |-> RDot(C[i], C[i])])))
      VV == MatMul(r.V, MatT(r.V)) IN
  (IF NearM2(r.C, C) THEN {} ELSE {"matrix of the operator " \o ToString(r.C)})
  \cup (IF NearM2(MatMul(MatT(r.V), MV), MatId(n)) THEN {} ELSE {"eigenfunctions are not orthonormal"})
  \cup (IF NearT(MatMul(C, r.V), MatMul(MV, TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN r.lam[i] ELSE R0]])), RMul(fl, MatMax(MV)))
        THEN {} ELSE {"the Fredholm equation fails"})
  \cup (IF NearM2(MatMul(r.S, MatT(r.S)), MatMul(VL, MatT(r.V))) THEN {} ELSE {"samples of the field do not have the covariance of the operator"})
  \cup (IF \A i \in 1..(n - 1) : ~RLess(r.lam[i], RSub(r.lam[i + 1], Q(1, 1000000000))) THEN {} ELSE {"eigenvalues not decreasing"})
  \cup (IF \A i \in 1..n : RSign(r.lam[i]) >= 0 THEN {} ELSE {"negative eigenvalue"})
  \cup (IF q.disc # "interpolation" \/ NearT(MatMul(VL, MatT(r.V)), KMat(st, q, r.rows), RMul(fl, MatMax(VV))) THEN {}
        ELSE {"nodal covariances are not those of the kernel"})

(* ---------------------------- operations -------------------------------- *)
IQBad(st, q, r) ==
  CASE q.q = "int" -> IntBad(st, q, r)
    [] q.q = "kern" -> KernBad(q, r)
    [] q.q = "cov" -> CovBad(st, q, r)
IntegMismatch(st0, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE LET s == AdoptAll(AsmApply(st0, step.op), step) IN
       UNION {{"query " \o ToString(step.qs[i].q) \o ": " \o b : b \in IQBad(s, step.qs[i].q, step.qs[i].r)} : i \in 1..Len(step.qs)}

(* -------------------------------- laws ---------------------------------- *)
IntegLaws(st0, et) ==
  LET dim == st0.grid.dim
      st == [st0 EXCEPT !.hs = <<[et |-> et, num |-> CanonNum(st0, et)]>>]
      V == VView(st, 1)
      rows == SortedSeq(LeafDofs(V, ""))  n == Len(rows)
      L == LeafSet(st, "")
      z == [k \in 1..(dim + 1) |-> 0]
      u == Bas(1, "", z)
      ek(k) == [i \in 1..dim |-> IF i = k THEN 1 ELSE 0]
      sep(p) == [F |-> "id", at |-> <<[a |-> "sep", p |-> <<p>>]>>]
      IOp(t, p) == IntMat(st, L, [t |-> t, mu |-> "dx", f |-> "", k |-> sep(p), b |-> u, c |-> u], 1, rows, rows)
      mass == AsmForms(st, L, <<[t |-> 2, mu |-> "dx", f |-> "", k |-> NoKern, b |-> u, c |-> u]>>, 1, rows, rows)
      ones == [i \in 1..n |-> R1]
      mom(e) == RSumSeq(LinOf(st, L, [mu |-> "dx", f |-> ""], u, e, rows))
      o == Zero(st)
      sym(k) == <<<<2, ek(k), ek(k)>>, <<1, o, ek(k)>>, <<1, ek(k), o>>, <<-1, o, o>>>>
  IN /\ \A k \in 1..dim :
          /\ IOp(3, sym(k)) = MatT(IOp(3, sym(k)))
          /\ RDot(ones, MatVec(IOp(3, <<<<1, o, ek(k)>>>>), ones)) = RMul(mom(o), mom(ek(k)))
          /\ MatVec(IOp(4, <<<<1, o, ek(k)>>>>), ones) = VConst(mom(ek(k)), n)
          \* a kernel that lies in the space in its first argument: the projection is the mass matrix times the interpolation
          /\ (Degree(et) > 0 /\ \A i \in 1..dim : st.grid.per[i] = 0) =>
               IOp(3, sym(k)) = MatMul(mass, IOp(4, sym(k)))
KernLaws ==
  LET P == <<Q(0, 1), Q(1, 2), Q(2, 1), Q(3, 2)>>
      q(nm) == [name |-> nm, sgm |-> Q(3, 2), l |-> Q(1, 2), a |-> 2, nu2 |-> 3, M |-> <<>>, per |-> <<>>]
      w(nm) == [q(nm) EXCEPT !.per = <<Q(2, 1)>>] IN
  \A nm \in {"constant", "linear", "gaussian", "exponential", "matern", "rational"} : \A i, j \in 1..4 :
    /\ RClose(KVal(q(nm), <<P[i]>>, <<P[j]>>), KVal(q(nm), <<P[j]>>, <<P[i]>>))
    /\ nm # "linear" => /\ ~RLess(KVal(q(nm), <<P[i]>>, <<P[i]>>), KVal(q(nm), <<P[i]>>, <<P[j]>>))
                        /\ RClose(KVal(w(nm), <<P[1]>>, <<P[j]>>), KVal(w(nm), <<P[3]>>, <<P[j]>>))
ExpLaw == /\ RExp(R0) = R1 /\ RClose(RExp(R1), Q(1084483, 398959)) /\ RClose(RMul(R(1000), RSub(RExp(Q(1, 1000)), R1)), Q(6001, 5998) )
          /\ \A i, j \in {-3, -1, 0, 1, 2, 5} : RClose(RMul(RExp(Q(i, 2)), RExp(Q(j, 3))), RExp(RAdd(Q(i, 2), Q(j, 3))))
================================================================================
