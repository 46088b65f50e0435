---------------------------------- MODULE Gauss ----------------------------------
(***************************************************************************)
(* Gaussian fields (src/gmrf.py, GaussianField): laws given by covariance, *)
(* precision or canonical parameters, samples driven by given noise, and   *)
(* conditioning on linear equations (R01), over the exact rationals.       *)
(*                                                                         *)
(* State: that of Spd (the matrix under construction) and flds, a sequence *)
(* of fields [mu (columns of means), b (canonical mean or <<>>), KT, QT    *)
(* (covariance, precision or <<>>), KS, KL, QS (roots of the covariance    *)
(* and of the inverse precision: adopted from the samples of the unit      *)
(* noise vectors, judged by R R' = K), nul (null space of the covariance), kt, qt (tolerances), sup].   *)
(***************************************************************************)
EXTENDS Spd

GInit(d) == MatInit(d) @@ [flds |-> <<>>]
Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])
Column(A, j) == TLCEval([i \in 1..Len(A) |-> <<A[i][j]>>])
Sel(A, lo, hi) == TLCEval([i \in 1..Len(A) |-> SubSeq(A[i], lo, hi)])
Rep(A, m) == TLCEval([i \in 1..Len(A) |-> VConst(A[i][1], m)])      \* m copies of the first column
ZeroM(n, m) == TLCEval([i \in 1..n |-> VConst(R0, m)])
None == <<>>
\* the gain and the law given A x = e
Gain(K, A) == LET KA == MatMul(K, MatT(A)) IN MatMul(KA, MatInv(MatMul(A, KA)))
CondMean(mu, K, A, e) == MatSub(mu, MatMul(Gain(K, A), MatSub(MatMul(A, mu), e)))
CondCov(K, A) == MatSub(K, MatMul(Gain(K, A), MatMul(A, K)))
CovOf(f, mode) == IF mode = "covariance" THEN f.KT ELSE MatInv(f.QT)
RootOf(f, mode) == IF mode = "covariance" THEN f.KS ELSE f.QS
MeanOf(f, mode, col) == IF mode = "canonical" /\ f.b # None THEN MatSolve(f.QT, Column(f.b, 1)) ELSE Column(f.mu, col)
TolOf(f, mode) == IF mode = "covariance" THEN f.kt ELSE f.qt

\* the orthogonal projection onto the null space spanned by rows N
NulProj(N, n) == IF N = <<>> THEN ZeroM(n, n) ELSE MatMul(MatT(N), MatMul(MatInv(MatMul(N, MatT(N))), N))

(* ------------------------------ operations ------------------------------ *)
\* the matrix a decomposition with these options represents
Repr(st, o) == IF o.k = "none" THEN None ELSE Target(st, o)
MTol(st, o) == IF FullRank(st) THEN Tol ELSE TolD
\* the fields an operation determines; roots are adopted
NewField(st, op) ==
  CASE op.o = "field" -> [mu |-> IF op.mu = <<>> THEN ZeroM(Size(st), 1) ELSE Ints(op.mu), b |-> Ints(op.b), KT |-> Repr(st, op.K), QT |-> Repr(st, op.Q),
                          kt |-> MTol(st, op.K), qt |-> MTol(st, op.Q), sup |-> FALSE, nul |-> st.nul, KS |-> None, QS |-> None, KL |-> None]
    [] op.o = "cond" -> LET f == st.flds[op.i]  K == CovOf(f, op.mode)  A == Ints(op.A) IN
                        [mu |-> CondMean(Column(f.mu, 1), K, A, Ints(op.e)), b |-> None, KT |-> CondCov(K, A), QT |-> None,
                         kt |-> Tol, qt |-> Tol, sup |-> TRUE, nul |-> (IF op.mode = "covariance" THEN f.nul ELSE <<>>) \o A, KS |-> None, QS |-> None, KL |-> None]
    [] op.o = "set_mean" -> [st.flds[op.i] EXCEPT !.mu = IF op.mu = <<>> THEN ZeroM(Len(@), 1) ELSE Ints(op.mu)]
    [] op.o = "set_b" -> [st.flds[op.i] EXCEPT !.b = Ints(op.b)]
    [] op.o = "comp_mean" -> LET f == st.flds[op.i] IN [f EXCEPT !.mu = IF f.QT # None THEN MatSolve(f.QT, f.b) ELSE MatMul(f.KT, f.b)]
    [] op.o = "comp_b" -> LET f == st.flds[op.i] IN [f EXCEPT !.b = IF f.QT # None THEN MatMul(f.QT, f.mu) ELSE MatSolve(f.KT, f.mu)]
    [] op.o = "set_K" -> [st.flds[op.i] EXCEPT !.KT = Repr(st, op.K), !.kt = MTol(st, op.K), !.nul = st.nul]
    [] op.o = "set_Q" -> [st.flds[op.i] EXCEPT !.QT = Repr(st, op.Q), !.qt = MTol(st, op.Q)]
    [] op.o = "support" -> [st.flds[op.i] EXCEPT !.sup = TRUE]
FieldOps == {"field", "cond", "set_mean", "set_b", "comp_mean", "comp_b", "set_K", "set_Q", "support"}
Adopt(f, r) == [f EXCEPT !.KS = r.KS, !.QS = r.QS, !.KL = r.KL]
GApply(st, op, r) ==
  IF op.o \in FieldOps
  THEN LET f == Adopt(NewField(st, op), r) IN
       IF op.o \in {"field", "cond"} THEN [st EXCEPT !.flds = Append(@, f)] ELSE [st EXCEPT !.flds = [@ EXCEPT ![op.i] = f]]
  ELSE IF op.o = "call" THEN st ELSE MatApply(st, op)

IsRoot(S, K, tol) == Len(S) = Len(K) /\ FiniteM(S) /\ NearG(MatMul(S, MatT(S)), K, MatAdd(MatMul(AbsM(S), AbsM(MatT(S))), AbsM(K)), tol)
\* Q S S' = I
IsInvRoot(S, P, tol) == Len(S) = Len(P) /\ FiniteM(S) /\
  LET SS == MatMul(S, MatT(S)) IN NearG(MatMul(P, SS), MatId(Len(P)), MatAdd(MatMul(AbsM(P), AbsM(SS)), MatId(Len(P))), tol)
\* Karhunen-Loeve directions: orthogonal, of decreasing size
KlOrder(S) == LET G == MatMul(MatT(S), S)  g == G[1][1] IN
  /\ \A i, j \in 1..Len(G) : i # j => RLeq(RAbs(G[i][j]), RMul(Tol, g))
  /\ \A i \in 1..Len(G) - 1 : RLeq(G[i + 1][i + 1], RAdd(G[i][i], RMul(Tol, g)))
Close(A, B, W) == NearM(A, B, W, Tol)
FieldBad(st, op, r) ==
  LET f == Adopt(NewField(st, op), r)  n == Len(f.mu)
      loose(M) == MatAdd(AbsM(M), Rep([i \in 1..Len(M) |-> <<R1>>], Cols(M)))
  IN (IF ShapeM(r.mu, n, Cols(f.mu)) /\ FiniteM(r.mu) /\ NearM(r.mu, f.mu, loose(f.mu), Tol) THEN {} ELSE {"mean is " \o ToString(r.mu)})
     \cup (IF f.b = None THEN (IF r.b = <<>> THEN {} ELSE {"canonical mean"})
           ELSE IF ShapeM(r.b, n, Cols(f.b)) /\ FiniteM(r.b) /\ NearM(r.b, f.b, loose(f.b), Tol) THEN {} ELSE {"canonical mean is " \o ToString(r.b)})
     \cup (IF f.KT = None THEN (IF r.KS = <<>> THEN {} ELSE {"covariance"})
           ELSE IF IsRoot(f.KS, f.KT, f.kt) THEN {} ELSE {"samples do not have the covariance"})
     \cup (IF f.KL = None THEN {} ELSE IF IsRoot(f.KL, f.KT, f.kt) /\ KlOrder(f.KL) THEN {} ELSE {"Karhunen-Loeve expansion"})
     \cup (IF f.QT = None THEN (IF r.QS = <<>> THEN {} ELSE {"precision"})
           ELSE IF IsInvRoot(f.QS, f.QT, f.qt) THEN {} ELSE {"samples do not have the precision"})
     \cup UNION {IF r.frame[k] THEN {} ELSE {"field " \o ToString(k) \o " changed"} : k \in 1..Len(r.frame)}
GCallBad(st, q, r) ==
  LET f == st.flds[q.i]  x == r.v  n == Len(f.mu)  m == q.m
      z == Ints(q.z)  S == IF q.f = "kl" THEN Sel(f.KL, q.lo, q.hi) ELSE RootOf(f, q.mode)
      mu == Rep(MeanOf(f, q.mode, q.col), m)
      X0 == MatAdd(mu, MatMul(S, z))
      W0 == MatAdd(AbsM(mu), MatMul(AbsM(S), AbsM(z)))
      A == Ints(q.A)  e == LET E == Ints(q.e) IN IF Cols(E) = m THEN E ELSE Rep(E, m)
      G == Gain(CovOf(f, q.mode), A)
  IN IF ~(r.same /\ ShapeM(x, n, m) /\ FiniteM(x)) THEN {"size of the samples, or an argument changed"} ELSE
     CASE q.f = "mean" -> IF Close(x, mu, MatAdd(AbsM(mu), Rep([i \in 1..n |-> <<R1>>], m))) THEN {} ELSE {"copies of the mean"}
       [] q.f = "project" ->
            LET N == MatMul(NulProj(f.nul, n), z)  p == IF q.mode = "nullspace" THEN N ELSE MatSub(z, N) IN
            IF NearM(x, p, MatAdd(Blunt(z), MatAdd(AbsM(p), AbsM(z))), TolD) THEN {} ELSE {"projection onto the " \o q.mode}
       [] q.f \in {"sample", "kl"} -> IF q.z # <<>> THEN (IF Close(x, X0, W0) THEN {} ELSE {"sample"})
                                      ELSE \* whatever the noise: no component along a direction without variance
                                           LET d == MatSub(x, mu) IN
                                           IF \A k \in 1..Len(f.nul) : q.mode = "covariance" =>
                                                LET v == <<f.nul[k]>> IN NearM(MatMul(v, d), ZeroM(1, m), MatMul(AbsM(v), MatAdd(AbsM(d), MatAdd(AbsM(mu), Rep(Column(Blunt(f.KT), 1), m)))), Q(1, 256))
                                           THEN {} ELSE {"random sample outside the range"}
       [] q.f = "csample" ->
            LET ex == MatSub(X0, MatMul(G, MatSub(MatMul(A, X0), e)))
                W == MatAdd(W0, MatMul(AbsM(G), MatAdd(MatMul(AbsM(A), W0), AbsM(e)))) IN
            (IF Close(MatMul(A, x), e, MatAdd(MatMul(AbsM(A), MatAdd(AbsM(x), IF q.z = <<>> THEN MatAdd(Blunt(x), Rep(Column(Blunt(S), 1), m)) ELSE W)), AbsM(e))) THEN {} ELSE {"the equations do not hold"})
            \cup (IF q.z = <<>> \/ Close(x, ex, W) THEN {} ELSE {"conditioned sample"})
GMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE IF step.op.o \in FieldOps THEN {"operation " \o step.op.o \o ": " \o b : b \in FieldBad(st, step.op, step.r)}
  ELSE IF step.op.o = "call" THEN {"call " \o step.op.f \o " " \o step.op.mode \o ": " \o b : b \in GCallBad(st, step.op, step.r)}
  ELSE {}

(* --------------------------------- laws ---------------------------------- *)
Sub(A, I) == TLCEval([k \in 1..Len(I) |-> A[I[k]]])
\* conditioning on the equations one after the other, in either order, or at once is the same; the conditional mean
\* satisfies them and the conditional covariance has them in its null space; correcting a sample linearly gives the
\* conditional law; the conditional precision is the reciprocal on the null space of A
GLaws(st, Rows, ents) ==
  FullRank(st) =>
  LET n == Size(st)  K == st.C
      V == {v \in [1..n -> ents] : \E i \in 1..n : v[i] # 0}
      row(v) == [i \in 1..n |-> R(v[i])]
      mu == TLCEval([i \in 1..n |-> <<R(i - 2)>>])
      psd(C) == LET e == Elim(C, <<>>) IN \A i \in 1..n : RSign(e[i]) >= 0
  IN \A u \in V :
       LET A == <<row(u)>>  e == <<<<R(3)>>>>  m1 == CondMean(mu, K, A, e)  K1 == TLCEval(CondCov(K, A))  T == MatSub(MatId(n), MatMul(Gain(K, A), A)) IN
       /\ MatMul(A, m1) = e
       /\ MatMul(A, K1) = ZeroM(1, n)
       /\ K1 = MatT(K1) /\ psd(K1)
       /\ Sandwich(T, K) = K1
       /\ Rows > 1 => \A v \in V :
            LET s == RSub(RMul(RDot(row(u), row(u)), RDot(row(v), row(v))), RMul(RDot(row(u), row(v)), RDot(row(u), row(v)))) IN
            ~RIsZero(s) =>
              LET B == <<row(v)>>  d == <<<<R(-1)>>>>  AB == A \o B  ed == e \o d IN
              /\ CondMean(m1, K1, B, d) = CondMean(mu, K, AB, ed)
              /\ CondCov(K1, B) = CondCov(K, AB)
              /\ CondCov(K, B \o A) = CondCov(K, AB)
==================================================================================
