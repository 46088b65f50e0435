----------------------------------- MODULE Spd -----------------------------------
(***************************************************************************)
(* Symmetric positive (semi)definite matrices and their decompositions     *)
(* (S01, S02), over the exact rationals.                                    *)
(*                                                                         *)
(* State: [C, nul (basis of the null space), ev (<<>> or [Q, D] with        *)
(* C = Q diag(D) Q', Q orthogonal), objs (decompositions made so far)].     *)
(* Matrices are built by bordering, elementary congruences, exchanges,      *)
(* rotations by Pythagorean angles and scalings by powers of two.           *)
(* A decomposition is [k, fmt, T (the matrix it represents), S (the square  *)
(* root it applies, adopted from the first observation), ...].              *)
(***************************************************************************)
EXTENDS Rat, Integers, Sequences, FiniteSets, TLC

Tol == Q(1, 33554432)          \* 2^-25, relative to the size of the terms
TolD == Q(1, 65536)            \* for matrices replaced by a nearby definite one
RLeq(a, b) == ~RLess(b, a)
Unit(n, i) == [k \in 1..n |-> IF k = i THEN R1 ELSE R0]
Diag(d) == TLCEval([i \in 1..Len(d) |-> [j \in 1..Len(d) |-> IF i = j THEN d[i] ELSE R0]])
AbsV(v) == TLCEval([i \in 1..Len(v) |-> RAbs(v[i])])
AbsM(A) == TLCEval([i \in 1..Len(A) |-> AbsV(A[i])])
ScaleM(c, A) == TLCEval([i \in 1..Len(A) |-> VScale(c, A[i])])
Sandwich(E, C) == MatMul(E, MatMul(C, MatT(E)))
FiniteM(A) == \A i \in 1..Len(A) : \A j \in 1..Len(A[i]) : ToString(A[i][j].d) # "0"
ShapeM(A, n, m) == Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
\* |A - B| within tol of the size of the terms (given by W >= 0) plus the largest of them in the column
RECURSIVE ColMaxTo(_, _, _)
ColMaxTo(W, j, i) == IF i = 0 THEN R0 ELSE LET m == ColMaxTo(W, j, i - 1) IN IF RLess(m, W[i][j]) THEN W[i][j] ELSE m
ColMax(W, j) == ColMaxTo(W, j, Len(W))
NearM(A, B, W, tol) == ShapeM(A, Len(B), IF B = <<>> THEN 0 ELSE Len(B[1])) /\ FiniteM(A) /\
  LET m == TLCEval(IF B = <<>> THEN <<>> ELSE [j \in 1..Len(B[1]) |-> ColMax(W, j)]) IN
  \A i \in 1..Len(B) : \A j \in 1..Len(B[i]) : RLeq(RAbs(RSub(A[i][j], B[i][j])), RMul(tol, m[j]))
\* the same with one scale for the whole matrix: identities between matrices
NearG(A, B, W, tol) == ShapeM(A, Len(B), IF B = <<>> THEN 0 ELSE Len(B[1])) /\ FiniteM(A) /\
  LET k == TLCEval(IF B = <<>> THEN R0 ELSE ColMax([j \in 1..Len(B[1]) |-> <<ColMax(W, j)>>], 1)) IN
  \A i \in 1..Len(B) : \A j \in 1..Len(B[i]) : RLeq(RAbs(RSub(A[i][j], B[i][j])), RMul(tol, k))
\* A X = B
SolvesM(A, X, B, tol) == ShapeM(X, Len(A[1]), Len(B[1])) /\ FiniteM(X) /\
  NearM(MatMul(A, X), B, MatAdd(MatMul(AbsM(A), AbsM(X)), AbsM(B)), tol)
\* every entry of A replaced by the largest
Blunt(A) == IF A = <<>> THEN A ELSE LET k == ColMax([j \in 1..Len(A[1]) |-> <<ColMax(AbsM(A), j)>>], 1) IN TLCEval([i \in 1..Len(A) |-> VConst(k, Len(A[i]))])
IsProdG(Y, A, X, tol) == NearM(Y, MatMul(A, X), MatMul(Blunt(A), AbsM(X)), tol)
IsProd(Y, A, X, tol) == NearM(Y, MatMul(A, X), MatMul(AbsM(A), AbsM(X)), tol)

(* ------------------------------- matrices ------------------------------- *)
MatInit(d) == [C |-> <<<<R(d)>>>>, nul |-> <<>>, ev |-> [Q |-> MatId(1), D |-> <<R(d)>>], objs |-> <<>>]
Size(st) == Len(st.C)
FullRank(st) == st.nul = <<>>
HasEv(st) == st.ev.D # <<>>
NoEv == [Q |-> <<>>, D |-> <<>>]
\* one more row and column: [C, Cw; w'C, w'Cw + d]
Border(st, w, d) ==
  LET n == Size(st)  W == [i \in 1..n |-> R(w[i])]  cw == MatVec(st.C, W)  z == \A i \in 1..n : w[i] = 0
  IN [st EXCEPT !.C = TLCEval([i \in 1..n + 1 |-> IF i <= n THEN Append(st.C[i], cw[i]) ELSE Append(cw, RAdd(RDot(W, cw), R(d)))]),
                !.nul = LET o == [k \in 1..Len(@) |-> Append(@[k], R0)] IN
                        IF d = 0 THEN Append(o, Append(W, R(-1))) ELSE o,
                !.ev = IF z /\ HasEv(st)
                       THEN [Q |-> TLCEval([i \in 1..n + 1 |-> IF i <= n THEN Append(@.Q[i], R0) ELSE Unit(n + 1, n + 1)]), D |-> Append(@.D, R(d))]
                       ELSE NoEv]
\* C -> E C E'; null vectors go with the transposed inverse F
Congruence(st, E, F, orth) ==
  [st EXCEPT !.C = Sandwich(E, @), !.nul = [k \in 1..Len(@) |-> MatVec(F, @[k])],
             !.ev = IF orth /\ HasEv(st) THEN [Q |-> MatMul(E, @.Q), D |-> @.D] ELSE NoEv]
Elem(n, i, j, a) == TLCEval([p \in 1..n |-> [q \in 1..n |-> IF p = q THEN R1 ELSE IF p = i /\ q = j THEN R(a) ELSE R0]])
Swap(n, i, j) == TLCEval([p \in 1..n |-> Unit(n, IF p = i THEN j ELSE IF p = j THEN i ELSE p)])
\* rotation in the plane of i and j by the angle with sine a/c, cosine b/c
Rotat(n, i, j, t) == TLCEval([p \in 1..n |-> [q \in 1..n |->
   IF p \in {i, j} /\ q \in {i, j} THEN (IF p = q THEN Q(t[2], t[3]) ELSE IF p = i THEN Q(-t[1], t[3]) ELSE Q(t[1], t[3]))
   ELSE IF p = q THEN R1 ELSE R0]])
MatApply(st, op) ==
  CASE op.o = "none" -> st
    [] op.o = "border" -> Border(st, op.w, op.d)
    [] op.o = "mix" -> Congruence(st, Elem(Size(st), op.i, op.j, op.k), Elem(Size(st), op.j, op.i, -op.k), FALSE)
    [] op.o = "swap" -> LET E == Swap(Size(st), op.i, op.j) IN Congruence(st, E, E, TRUE)
    [] op.o = "rot" -> LET E == Rotat(Size(st), op.i, op.j, op.t) IN Congruence(st, E, E, TRUE)
    [] op.o = "scale" -> LET s == IF op.k >= 0 THEN RPow(R(2), op.k) ELSE RPow(Q(1, 2), -op.k) IN
         [st EXCEPT !.C = ScaleM(s, @), !.ev = IF HasEv(st) THEN [@ EXCEPT !.D = VScale(s, @)] ELSE NoEv]
    [] OTHER -> st

(* ---------------------------- decompositions ----------------------------- *)
Frob(C) == RSqrt(RSumSeq([i \in 1..Len(C) |-> RDot(C[i], C[i])]))
\* eigenvalues at most the bound are replaced by it
Floor(d, b) == IF RLeq(d, b) THEN b ELSE d
Bound(st, op) == IF op.delta = <<>> THEN RMul(Q(1, 67108864), Frob(st.C)) ELSE Q(op.delta[1], op.delta[2])
Target(st, op) ==
  IF op.k # "eig" \/ ~HasEv(st) THEN st.C
  ELSE LET b == Bound(st, op) IN Sandwich(st.ev.Q, Diag([i \in 1..Size(st) |-> Floor(st.ev.D[i], b)]))
Spectrum(st, op) == IF ~HasEv(st) THEN <<>>
                    ELSE LET b == Bound(st, op) IN [i \in 1..Size(st) |-> Floor(st.ev.D[i], b)]
NewObj(st, op, root) ==
  [k |-> op.k, fmt |-> op.fmt, T |-> Target(st, op), S |-> root, D |-> IF op.k = "eig" THEN Spectrum(st, op) ELSE <<>>, Q |-> st.ev.Q,
   M |-> IF op.k = "gen" THEN TLCEval([i \in 1..Size(st) |-> [j \in 1..Size(st) |-> R(op.M[i][j])]]) ELSE <<>>,
   tol |-> IF FullRank(st) THEN Tol ELSE TolD, C |-> st.C, nul |-> st.nul]
SpdApply(st, op, r) == IF op.o = "new" THEN [st EXCEPT !.objs = Append(@, NewObj(st, op, r.root))] ELSE MatApply(st, op)

\* pseudo-inverse when eigenvalues up to eps count as zero
Keep(o, eps) == [i \in 1..Len(o.D) |-> RLess(eps, o.D[i])]
PinvV(o, eps) == Sandwich(o.Q, Diag([i \in 1..Len(o.D) |-> IF RLess(eps, o.D[i]) THEN RInv(o.D[i]) ELSE R0]))
Rank(o, tol) == IF o.D # <<>> THEN Cardinality({i \in 1..Len(o.D) : RLess(tol, o.D[i])}) ELSE Len(o.T) - Len(o.nul)
Ints(b) == TLCEval([i \in 1..Len(b) |-> [j \in 1..Len(b[i]) |-> R(b[i][j])]])
\* argument of a call: given columns, or their images under the matrix
Arg(st, o, q) == LET b == Ints(q.b) IN IF q.rg THEN MatMul(o.C, b) ELSE b
Eps(q, sq) == IF q.eps = <<>> THEN R0 ELSE LET e == Q(q.eps[1], q.eps[2]) IN IF sq THEN RMul(e, e) ELSE e
Orthonormal(V, n) == \A k \in {Len(V[1])} : NearM(MatMul(MatT(V), V), MatId(k), <<[j \in 1..k |-> R1]>>, Tol)
Decreasing(d) == \A i \in 1..Len(d) - 1 : RLeq(d[i + 1], d[i])

NewBad(st, op, r) ==
  LET o == NewObj(st, op, r.root)  n == Size(st) IN
  (IF r.size = n THEN {} ELSE {"size"})
  \cup (IF r.same THEN {} ELSE {"the matrix was modified"})
  \cup (CASE op.k = "chol" -> (IF r.degenerate /\ FullRank(st) THEN {"a definite matrix is called degenerate"} ELSE {})
                               \cup (IF r.sparse = (op.fmt \notin {"dense", "F"} /\ ~r.degenerate) THEN {} ELSE {"sparsity"})
          [] OTHER -> {})
  \cup (IF op.k = "gen" \/ (ShapeM(o.S, n, n) /\ FiniteM(o.S) /\ NearG(MatMul(o.S, MatT(o.S)), o.T, MatAdd(MatMul(AbsM(o.S), AbsM(MatT(o.S))), AbsM(o.T)), o.tol))
        THEN {} ELSE {"the square root does not reproduce the matrix"})

CallBad(st, q, r) ==
  LET o == st.objs[q.y]  n == Len(o.T)  b == Arg(st, o, q)  x == r.v
      St == MatT(o.S)
      known == o.D # <<>>
  IN (IF r.same THEN {} ELSE {"an argument or the matrix was modified"}) \cup
     IF q.f # "factors" /\ ~FiniteM(x) THEN {"not finite"} ELSE
     CASE q.f = "dot" -> IF IsProdG(x, IF o.k = "chol" THEN o.C ELSE o.T, b, IF o.k = "chol" THEN Tol ELSE o.tol) THEN {} ELSE {"product"}
       [] q.f = "reconstruct" -> IF NearG(x, o.T, AbsM(o.T), o.tol) THEN {} ELSE {"reconstruction"}
       [] q.f = "sqrt_dot" -> IF IsProd(x, IF q.T THEN St ELSE o.S, b, Tol) THEN {} ELSE {"product with the root"}
       [] q.f = "roots" -> \* the root applied to its transpose
            IF IsProdG(x, o.T, b, o.tol) THEN {} ELSE {"root times transposed root"}
       [] q.f = "solve" ->
            IF o.k = "gen" THEN (IF SolvesM(o.T, x, IF q.T THEN MatMul(o.M, b) ELSE b, Tol) THEN {} ELSE {"solution"})
            ELSE IF known THEN LET P == PinvV(o, Eps(q, FALSE)) IN
                                IF NearM(x, MatMul(P, b), MatMul(AbsM(P), AbsM(b)), o.tol) THEN {} ELSE {"solution"}
            ELSE (IF SolvesM(o.T, x, b, o.tol) THEN {} ELSE {"solution"})
                 \cup (IF o.k = "eig" /\ \E k \in 1..Len(o.nul) : ~NearM(MatMul(<<o.nul[k]>>, x), <<[j \in 1..Len(b[1]) |-> R0]>>, MatMul(<<VConst(RSumSeq(AbsV(o.nul[k])), n)>>, AbsM(x)), o.tol)
                       THEN {"component in the null space"} ELSE {})
       [] q.f = "undo" -> \* solve after dot
            IF NearM(x, b, MatAdd(AbsM(b), MatMul(AbsM(MatInv(o.T)), MatMul(AbsM(o.T), AbsM(b)))), o.tol) THEN {} ELSE {"solving does not undo multiplying"}
       [] q.f = "sqrt_solve" ->
            IF known THEN LET P == PinvV(o, Eps(q, TRUE))  E == IF q.T THEN MatMul(P, o.S) ELSE MatMul(St, P)
                              W == IF q.T THEN MatMul(AbsM(P), AbsM(o.S)) ELSE MatMul(AbsM(St), AbsM(P)) IN
                          IF NearM(x, MatMul(E, b), MatMul(W, AbsM(b)), o.tol) THEN {} ELSE {"solution with the root"}
            ELSE IF SolvesM(IF q.T THEN St ELSE o.S, x, b, o.tol) THEN {} ELSE {"solution with the root"}
       [] q.f = "factors" ->
            IF o.k = "chol" THEN
              IF r.kind = "dense" THEN (IF (\A i, j \in 1..n : i < j => RIsZero(r.L[i][j])) /\ NearG(MatMul(r.L, MatT(r.L)), o.C, AbsM(o.C), o.tol) THEN {} ELSE {"Cholesky factor"})
              ELSE IF r.kind = "sparse" THEN \* P C P' = L L'
                (IF (\A i, j \in 1..n : i < j => RIsZero(r.L[i][j])) /\ {r.p[i] : i \in 1..n} = 1..n
                    /\ NearG(MatMul(r.L, MatT(r.L)), [i \in 1..n |-> [j \in 1..n |-> o.C[r.p[i]][r.p[j]]]], AbsM(o.C), o.tol) THEN {} ELSE {"sparse Cholesky factor"})
              ELSE (IF (\A i, j \in 1..n : (i < j => RIsZero(r.L[i][j])) /\ (i = j => RIsZero(RSub(r.L[i][j], R1))))
                       /\ NearG(Sandwich(r.L, r.D0), Sandwich(r.P, o.C), AbsM(o.C), o.tol)
                       /\ NearG(Sandwich(r.L, r.D), Sandwich(r.P, o.C), AbsM(o.C), o.tol) THEN {} ELSE {"modified Cholesky factors"})
            ELSE LET V == r.V  d == r.d  VD == MatMul(V, Diag(d)) IN
              IF ~ShapeM(V, n, n) \/ Len(d) # n \/ ~FiniteM(V) \/ ~FiniteM(<<d>>) THEN {"shape of the factors"}
              ELSE (IF Decreasing(d) THEN {} ELSE {"order of the eigenvalues"})
                   \cup (IF o.k = "gen"
                         THEN (IF NearG(Sandwich(MatT(V), o.M), MatId(n), MatMul(AbsM(MatT(V)), MatMul(AbsM(o.M), AbsM(V))), Tol) THEN {} ELSE {"M-orthonormality"})
                              \cup (IF NearG(MatMul(o.C, V), MatMul(o.M, VD), MatAdd(MatMul(AbsM(o.C), AbsM(V)), MatMul(AbsM(o.M), AbsM(VD))), Tol) THEN {} ELSE {"generalised eigenvectors"})
                         ELSE (IF Orthonormal(V, n) THEN {} ELSE {"orthonormality"})
                              \cup (IF NearG(MatMul(VD, MatT(V)), o.T, MatAdd(AbsM(o.T), MatMul(AbsM(VD), AbsM(MatT(V)))), o.tol) THEN {} ELSE {"eigenvectors"}))
                   \cup (IF known /\ \E k \in 1..n : Cardinality({i \in 1..n : RLess(RSub(d[k], RMul(Tol, RAbs(d[1]))), o.D[i])}) < k
                         THEN {"eigenvalues"} ELSE {})
       [] q.f = "rank" -> IF RIsZero(RSub(r.v[1][1], R(Rank(o, Eps(q, FALSE))))) THEN {} ELSE {"rank"}
       [] q.f \in {"null", "range"} ->
            LET k == Rank(o, Eps(q, FALSE))  m == IF q.f = "null" THEN n - k ELSE k IN
            IF ~ShapeM(x, n, m) THEN {"dimension of the " \o q.f} ELSE IF m = 0 THEN {}
            ELSE (IF Orthonormal(x, n) THEN {} ELSE {"orthonormality of the " \o q.f})
                 \cup (LET W == IF known THEN MatSub(o.T, Sandwich(o.Q, Diag([i \in 1..n |-> IF RLess(Eps(q, FALSE), o.D[i]) THEN R0 ELSE o.D[i]]))) ELSE o.T IN
                       IF q.f = "null" THEN (IF NearG(MatMul(W, x), [i \in 1..n |-> [j \in 1..m |-> R0]], MatMul(Blunt(o.T), AbsM(x)), o.tol) THEN {} ELSE {"null space"})
                       ELSE (IF NearG(MatMul(x, MatMul(MatT(x), W)), W, AbsM(W), o.tol) THEN {} ELSE {"range"}))

SpdMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE IF step.op.o = "new" THEN {"decomposition " \o step.op.k \o " " \o step.op.fmt \o ": " \o b : b \in NewBad(st, step.op, step.r)}
  ELSE IF step.op.o = "call" THEN {"call " \o step.op.f \o " (" \o st.objs[step.op.y].k \o " " \o st.objs[step.op.y].fmt \o "): " \o b : b \in CallBad(st, step.op, step.r)}
  ELSE {}

(* --------------------------------- laws ---------------------------------- *)
RECURSIVE Elim(_, _)
\* diagonal of the symmetric elimination: nonnegative, zero only with a zero row
Elim(A, out) ==
  IF A = <<>> THEN out
  ELSE LET n == Len(A)  d == A[1][1] IN
       IF RIsZero(d) THEN (IF \A j \in 1..n : RIsZero(A[1][j]) THEN Elim([i \in 1..n - 1 |-> Tail(A[i + 1])], Append(out, R0)) ELSE Append(out, R(-1)))
       ELSE Elim(TLCEval([i \in 1..n - 1 |-> [j \in 1..n - 1 |-> RSub(A[i + 1][j + 1], RDiv(RMul(A[i + 1][1], A[1][j + 1]), d))]]), Append(out, d))
SpdLaws(st) ==
  LET n == Size(st)  e == Elim(st.C, <<>>)
      o == NewObj(st, [k |-> "eig", fmt |-> "dense", delta |-> <<0, 1>>], MatId(n))
      P == PinvV(o, R0)
      one == [i \in 1..n |-> <<R1>>]
  IN /\ st.C = MatT(st.C)
     /\ \A i \in 1..n : RSign(e[i]) >= 0
     /\ Cardinality({i \in 1..n : ~RIsZero(e[i])}) = n - Len(st.nul)
     /\ \A k \in 1..Len(st.nul) : MatVec(st.C, st.nul[k]) = [i \in 1..n |-> R0]
     /\ HasEv(st) => /\ Sandwich(st.ev.Q, MatId(n)) = MatId(n)
                     /\ o.T = st.C
                     /\ MatMul(st.C, MatMul(P, st.C)) = st.C /\ MatMul(P, MatMul(st.C, P)) = P
                     /\ MatT(MatMul(st.C, P)) = MatMul(st.C, P)
                     /\ Rank(o, R0) = n - Len(st.nul)
     /\ FullRank(st) => LET X == MatSolve(st.C, one) IN
          /\ SolvesM(st.C, X, one, Tol)
          /\ ~SolvesM(st.C, [X EXCEPT ![1][1] = RAdd(@, RAdd(R1, RAbs(@)))], one, Tol)
          /\ HasEv(st) => P = MatInv(st.C)
==================================================================================
