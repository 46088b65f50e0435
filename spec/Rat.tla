---------------------------------- MODULE Rat ----------------------------------
(* Exact rational numbers [n, d] with d > 0 and gcd(n, d) = 1.  TLC integers    *)
(* have 32 bits and overflow is an error, so results are exact or there is none. *)
(* Rat.java overrides the basic operators with the same definitions over big     *)
(* integers: components beyond 32 bits are then strings of decimal digits.       *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL RatAbs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RatGcd(_, _)
RatGcd(a, b) == IF b = 0 THEN a ELSE RatGcd(b, a % b)
RatNorm(n, d) == LET g == RatGcd(RatAbs(n), RatAbs(d)) IN
  IF d < 0 THEN [n |-> (-n) \div g, d |-> (-d) \div g] ELSE [n |-> n \div g, d |-> d \div g]
Q(n, d) == RatNorm(n, d)
R(n) == [n |-> n, d |-> 1]
RIsZero(a) == a.n = 0
RSign(a) == IF a.n < 0 THEN -1 ELSE IF a.n > 0 THEN 1 ELSE 0
R0 == R(0)
R1 == R(1)
RAdd(a, b) == IF a.d = b.d THEN RatNorm(a.n + b.n, a.d)
              ELSE LET g == RatGcd(a.d, b.d) IN RatNorm(a.n * (b.d \div g) + b.n * (a.d \div g), a.d * (b.d \div g))
RNeg(a) == [n |-> -a.n, d |-> a.d]
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF RIsZero(a) \/ RIsZero(b) THEN R0 ELSE
  LET g == RatGcd(RatAbs(a.n), b.d)  h == RatGcd(RatAbs(b.n), a.d)
  IN [n |-> (a.n \div g) * (b.n \div h), d |-> (a.d \div h) * (b.d \div g)]
RInv(a) == IF a.n < 0 THEN [n |-> -a.d, d |-> -a.n] ELSE [n |-> a.d, d |-> a.n]
RDiv(a, b) == RMul(a, RInv(b))
RLess(a, b) == RSign(RSub(a, b)) < 0
REq(a, b) == a = b
RScale(k, a) == RMul(R(k), a)
RAbs(a) == IF RSign(a) < 0 THEN RNeg(a) ELSE a
\* recorded numbers are accepted within a tolerance; d = 0 stands for "not a finite number"
RTol == Q(1, 100000000)
RClose(a, b) == a.d # 0 /\ ~RLess(RMul(RTol, RAdd(R1, RAbs(b))), RAbs(RSub(a, b)))
RCloseAll(u, v) == Len(u) = Len(v) /\ \A i \in 1..Len(v) : RClose(u[i], v[i])
RCloseMat(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(B) : RCloseAll(A[i], B[i])
RECURSIVE RSumTo(_, _)
RSumTo(f, k) == IF k = 0 THEN R0 ELSE IF RIsZero(f[k]) THEN RSumTo(f, k - 1) ELSE RAdd(f[k], RSumTo(f, k - 1))
RSumSeq(s) == LET t == TLCEval(s) IN RSumTo(t, Len(t))
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN R1 ELSE RMul(a, RPow(a, k - 1))
RECURSIVE RProdTo(_, _)
RProdTo(f, k) == IF k = 0 THEN R1 ELSE RMul(f[k], RProdTo(f, k - 1))
RProdSeq(s) == LET t == TLCEval(s) IN RProdTo(t, Len(t))
RDot(u, v) == RSumSeq([i \in 1..Len(u) |-> RMul(u[i], v[i])])
\* polynomials: sequences of coefficients, constant first
RECURSIVE RatPEval(_, _, _)
RatPEval(p, x, i) == IF i > Len(p) THEN R0 ELSE RAdd(p[i], RMul(x, RatPEval(p, x, i + 1)))
PEval(p, x) == RatPEval(p, x, 1)
PAdd(p, q) == TLCEval([i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |->
                RAdd(IF i <= Len(p) THEN p[i] ELSE R0, IF i <= Len(q) THEN q[i] ELSE R0)])
PMul(p, q) == IF Len(p) = 0 \/ Len(q) = 0 THEN <<>> ELSE TLCEval(
  [k \in 1..(Len(p) + Len(q) - 1) |->
     RSumSeq([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN RMul(p[i], q[k - i + 1]) ELSE R0])])
PScale(c, p) == TLCEval([i \in 1..Len(p) |-> RMul(c, p[i])])
PDiff(p) == IF Len(p) <= 1 THEN <<>> ELSE TLCEval([i \in 1..(Len(p) - 1) |-> RScale(i, p[i + 1])])
RECURSIVE PDiffN(_, _)
PDiffN(p, k) == IF k = 0 THEN p ELSE PDiffN(PDiff(p), k - 1)
PInt01(p) == RSumSeq([i \in 1..Len(p) |-> RMul(p[i], Q(1, i))])       \* integral over [0,1]
RECURSIVE PPow(_, _)
PPow(p, k) == IF k = 0 THEN <<R1>> ELSE PMul(p, PPow(p, k - 1))
\* matrices: sequences of rows
MatVec(A, x) == TLCEval([i \in 1..Len(A) |-> RDot(A[i], x)])
MatT(A) == TLCEval(IF A = <<>> THEN <<>> ELSE [j \in 1..Len(A[1]) |-> [i \in 1..Len(A) |-> A[i][j]]])
MatMul(A, B) == LET T == MatT(B) IN TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(T) |-> RDot(A[i], T[j])]])
MatAdd(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RAdd(A[i][j], B[i][j])]])
MatSub(A, B) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RSub(A[i][j], B[i][j])]])
MatId(n) == TLCEval([i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]])
\* vectors: pointwise operations, polynomials at several points, tensor product, piecewise sums
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VMul(u, v) == TLCEval([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VDiv(u, v) == TLCEval([i \in 1..Len(u) |-> RDiv(u[i], v[i])])
VScale(c, v) == TLCEval([i \in 1..Len(v) |-> RMul(c, v[i])])
VConst(c, n) == TLCEval([i \in 1..n |-> c])
VPow(v, k) == TLCEval([i \in 1..Len(v) |-> RPow(v[i], k)])
PEvalV(p, v) == TLCEval([i \in 1..Len(v) |-> PEval(p, v[i])])
VKron(u, v) == TLCEval([i \in 1..(Len(u) * Len(v)) |-> RMul(u[((i - 1) \div Len(v)) + 1], v[((i - 1) % Len(v)) + 1])])
\* n x m matrix, sum of blocks [r |-> rows, c |-> columns, a |-> entries]
ScatterSum(L, n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |->
   RSumSeq([k \in 1..Len(L) |-> RSumSeq([p \in 1..Len(L[k].r) |-> IF L[k].r[p] # i THEN R0 ELSE
     RSumSeq([q \in 1..Len(L[k].c) |-> IF L[k].c[q] # j THEN R0 ELSE L[k].a[p][q]])])])]])
\* recorded matrix with numerators M over one denominator d
RCloseInt(M, d, B) == Len(M) = Len(B) /\ \A i \in 1..Len(B) : Len(M[i]) = Len(B[i]) /\ \A j \in 1..Len(B[i]) : RClose(Q(M[i][j], d), B[i][j])
\* square root, exact for squares of rationals and otherwise correct to more than ten digits
RECURSIVE RatISqrt(_, _)
RatISqrt(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE RatISqrt(n, y)
RSqrt(a) == IF RIsZero(a) THEN R0 ELSE LET k == 10^15 IN Q(RatISqrt(a.n * a.d * k * k, a.n * a.d * k * k), a.d * k)
\* exponential: Taylor series on [0, 1/2], doubled (exact to more than ten digits)
RECURSIVE RatTaylor(_, _)
RatTaylor(a, k) == IF k > 18 THEN R1 ELSE RAdd(R1, RMul(RDiv(a, R(k)), RatTaylor(a, k + 1)))
RECURSIVE RExp(_)
RExp(a) == IF RSign(a) < 0 THEN RInv(RExp(RNeg(a)))
           ELSE IF RLess(Q(1, 2), a) THEN LET e == RExp(RMul(a, Q(1, 2))) IN RMul(e, e) ELSE RatTaylor(a, 1)
\* largest absolute value of the entries of a matrix
RMax(a, b) == IF RLess(a, b) THEN b ELSE a
RECURSIVE RatMaxTo(_, _)
RatMaxTo(v, k) == IF k = 0 THEN R0 ELSE RMax(RAbs(v[k]), RatMaxTo(v, k - 1))
MatMax(A) == LET t == TLCEval([i \in 1..Len(A) |-> RatMaxTo(A[i], Len(A[i]))]) IN RatMaxTo(t, Len(t))
\* solve A X = B for square nonsingular A by Gauss-Jordan elimination (rows [A | B])
LOCAL RatPivot(M, k) == CHOOSE i \in k..Len(M) : ~RIsZero(M[i][k]) /\ \A j \in k..(i-1) : RIsZero(M[j][k])
RECURSIVE RatElim(_, _)
RatElim(M, k) ==
  IF k > Len(M) THEN M ELSE
  LET p == RatPivot(M, k)
      S == TLCEval([M EXCEPT ![k] = M[p], ![p] = M[k]])
      piv == TLCEval([j \in 1..Len(S[k]) |-> RDiv(S[k][j], S[k][k])])
      N == TLCEval([i \in 1..Len(S) |-> IF i = k THEN piv ELSE
              [j \in 1..Len(S[i]) |-> RSub(S[i][j], RMul(S[i][k], piv[j]))]])
  IN RatElim(N, k + 1)
MatSolve(A, B) ==
  LET n == Len(A)
      E == RatElim(TLCEval([i \in 1..n |-> A[i] \o B[i]]), 1)
  IN TLCEval([i \in 1..n |-> [j \in 1..Len(B[1]) |-> E[i][n + j]]])
MatInv(A) == MatSolve(A, MatId(Len(A)))
================================================================================
