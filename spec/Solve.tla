--------------------------------- MODULE Solve ---------------------------------
(***************************************************************************)
(* Constrained problems: elimination of Dirichlet conditions and hanging   *)
(* nodes during assembly (A03) and in a linear system (A04).               *)
(*                                                                         *)
(* The reference is the problem itself, not an elimination: with A, b the  *)
(* exact matrix and vector of the unconstrained forms, u solves it iff     *)
(*   u takes the prescribed values, satisfies the hanging node relations,  *)
(*   and  T'(A u - b) = 0                                                  *)
(* where the columns of T are the admissible directions.                   *)
(*                                                                         *)
(* A problem is [b (basis), forms, dirs, hang, sols]; a Dirichlet          *)
(* condition is [mk (marker), on (boundary only), fn]; sols lists pairs of *)
(* a matrix and a vector sample (from 0).                                  *)
(***************************************************************************)
EXTENDS Assem

Den40 == "1099511627776"      \* recorded solutions are multiples of 2^-40
RSumAbs(v) == RSumSeq([i \in 1..Len(v) |-> RAbs(v[i])])
RAbsV(v) == TLCEval([i \in 1..Len(v) |-> RAbs(v[i])])
RAbsM(A) == TLCEval([i \in 1..Len(A) |-> RAbsV(A[i])])
Col(A, j) == TLCEval([i \in 1..Len(A) |-> A[i][j]])
Numer(v, den) == TLCEval([i \in 1..Len(v) |-> Q(v[i], den)])

(* ---------------------------- constraints ------------------------------ *)
\* entities that carry Dirichlet markers: sides (and, for the assembler, vertices) in two dimensions
DirKinds(st, sys) == IF st.grid.dim = 1 THEN {"vertex"} ELSE IF sys = "asm" THEN {"vertex", "half_edge"} ELSE {"half_edge"}
DirDofs(V, sf, dir, sys) ==
  UNION {RegionDofs(V, [et |-> k, f |-> dir.mk, ob |-> dir.on, sf |-> sf, int |-> FALSE]) : k \in DirKinds(V, sys)}
DofCoord(V, d) == LET p == PosOf(V, d) IN
  [k \in 1..V.grid.dim |-> RMul(V.un, Q(p[k], Fine(V.grid.dim, V.et) * V.grid.scale))]
DirValue(V, fn, d, s) ==
  CASE fn.a = "num" -> R(fn.c[1])
    [] fn.a = "const" -> R(fn.c[Pick(s, Len(fn.c))])
    [] fn.a = "poly" -> PolyVec(fn.p[Pick(s, Len(fn.p))], [k \in 1..V.grid.dim |-> <<DofCoord(V, d)[k]>>])[1]
    [] fn.a = "nodal" -> DataOf(fn, d, Pick(s, fn.ns))
FnSamples(fn) == CASE fn.a = "num" -> 1 [] fn.a = "const" -> Len(fn.c) [] fn.a = "poly" -> Len(fn.p) [] fn.a = "nodal" -> fn.ns
\* prescribed values: the condition registered last prevails
DirMap(V, sf, dirs, sys, s) ==
  LET D == [i \in 1..Len(dirs) |-> DirDofs(V, sf, dirs[i], sys)] IN
  TLCEval([d \in UNION {D[i] : i \in 1..Len(dirs)} |->
             LET i == SetMax({k \in 1..Len(dirs) : d \in D[k]}) IN DirValue(V, dirs[i].fn, d, s)])
HangMap(V, sf, hang) ==
  LET H == IF hang THEN HangAt(V, sf) ELSE {}  D == IF hang THEN HangDofs(V, sf) ELSE {} IN
  TLCEval([d \in D |-> HangRow(V, CHOOSE h \in H : h[1] = d)])
\* u = T v + g in the given order of the dofs
Affine(rows, dm, hm) ==
  LET n == Len(rows)  pos == PosIn(rows) IN
  [T |-> TLCEval([i \in 1..n |-> LET d == rows[i] IN
            IF d \in DOMAIN dm THEN [j \in 1..n |-> R0]
            ELSE IF d \in DOMAIN hm
                 THEN [j \in 1..n |-> IF rows[j] \in DOMAIN dm THEN R0
                                      ELSE LET E == {x \in hm[d] : x[1] = rows[j]} IN IF E = {} THEN R0 ELSE (CHOOSE x \in E : TRUE)[2]]
                 ELSE [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]),
   g |-> TLCEval([i \in 1..n |-> LET d == rows[i] IN
            IF d \in DOMAIN dm THEN dm[d]
            ELSE IF d \in DOMAIN hm
                 THEN LET T == SeqOf({x \in hm[d] : x[1] \in DOMAIN dm}) IN RSumSeq([k \in 1..Len(T) |-> RMul(T[k][2], dm[T[k][1]])])
                 ELSE R0])]
\* the claim covers constraints that do not contradict each other
Consistent(dm, hm) == /\ DOMAIN dm \cap DOMAIN hm = {}
                      /\ \A d \in DOMAIN hm : \A x \in hm[d] : x[1] \notin DOMAIN hm
FreeIdx(rows, dm, hm) == {i \in 1..Len(rows) : rows[i] \notin DOMAIN dm /\ rows[i] \notin DOMAIN hm}

\* violations by a vector u of the problem A u = b with the constraints
SolutionBad(rows, A, b, dm, hm, u) ==
  LET F == Affine(rows, dm, hm)
      Tt == MatT(F.T)
      w == TLCEval(VAdd(MatVec(F.T, u), F.g))          \* the constraints applied to u
      res == MatVec(Tt, VAdd(MatVec(A, u), VScale(R(-1), b)))
      big == MatVec(RAbsM(Tt), VAdd(MatVec(RAbsM(A), RAbsV(u)), RAbsV(b)))
  IN {"constraint at dof " \o ToString(rows[i]) : i \in {k \in 1..Len(rows) : ~RClose(u[k], w[k])}}
     \cup {"equation of dof " \o ToString(rows[i]) \o ", residual " \o ToString(res[i]) :
             i \in {k \in FreeIdx(rows, dm, hm) : ~RClose(RDiv(res[k], RAdd(R1, big[k])), R0)}}

(* ------------------- A03: elimination in the assembler ----------------- *)
Sub(A, I, J) == TLCEval([i \in 1..Len(I) |-> [j \in 1..Len(J) |-> A[I[i]][J[j]]]])
SolveBad(st, q, r) ==
  LET cells == LeafSet(st, q.sf) IN
  UNION {
    LET p == q.probs[i]  o == r[i]  V == VView(st, p.b.h)  sf == p.b.sf
        bil == OfType(p.forms, 2)  lin == OfType(p.forms, 1)
        hm == HangMap(V, sf, p.hang)
        dset == UNION {DirDofs(V, sf, p.dirs[k], "asm") : k \in 1..Len(p.dirs)}
        rows == o.rows
        A == TLCEval([s \in 1..NSamples(bil) |-> AsmForms(st, cells, bil, s, rows, rows)])
        b == TLCEval([s \in 1..NSamples(lin) |-> Col(AsmForms(st, cells, lin, s, rows, <<0>>), 1)])
        dm(s) == DirMap(V, sf, p.dirs, "asm", s)
        ok == Consistent(dm(1), hm)
    IN IF ~SeqSet(rows, LeafDofs(V, sf)) THEN {"dofs of the solution: " \o ToString(rows)}
       ELSE IF ~ok THEN {}
       ELSE (IF Range(o.dir) = dset THEN {} ELSE {"Dirichlet dofs " \o ToString(o.dir) \o " expected " \o ToString(dset)})
            \cup (IF Range(o.hng) = DOMAIN hm THEN {} ELSE {"hanging dofs " \o ToString(o.hng) \o " expected " \o ToString(DOMAIN hm)})
            \cup (IF Range(o.int) = Range(rows) \ (dset \cup DOMAIN hm) THEN {} ELSE {"free dofs " \o ToString(o.int)})
            \cup UNION {
              LET s == p.sols[k][1] + 1  v == p.sols[k][2] + 1 IN
              IF Len(o.u[k]) # Len(rows) THEN {"length of the solution"} ELSE
              {"problem " \o ToString(i) \o ", samples " \o ToString(p.sols[k]) \o ": " \o x :
                 x \in SolutionBad(rows, A[s], b[v], dm(s), hm, Numer(o.u[k], Den40))} : k \in 1..Len(p.sols)}
            \* the reduced system
            \cup UNION {
              LET s == p.sols[k][1] + 1  v == p.sols[k][2] + 1
                  F == Affine(rows, dm(s), hm)  pos == PosIn(rows)  I == [n \in 1..Len(o.int) |-> pos[o.int[n]]]
                  Tt == MatT(F.T)
                  M == MatMul(Tt, MatMul(A[s], F.T))
                  d == o.red[k]
              IN IF \E n \in 1..Len(o.int) : o.int[n] \notin Range(rows) THEN {}
                 ELSE (IF RCloseInt(d.M, Den, Sub(M, I, I)) THEN {} ELSE {"reduced matrix, sample " \o ToString(s)})
                      \cup (IF RCloseInt(<<d.V>>, Den, <<LET w == MatVec(Tt, b[v]) IN [n \in 1..Len(I) |-> w[I[n]]]>>) THEN {} ELSE {"reduced vector, sample " \o ToString(v)})
                      \cup (IF RCloseInt(<<d.x0>>, Den, <<LET w == MatVec(Tt, MatVec(A[s], F.g)) IN [n \in 1..Len(I) |-> w[I[n]]]>>)
                            THEN {} ELSE {"boundary correction, sample " \o ToString(s)})
              : k \in 1..Len(o.red)}
    : i \in 1..Len(q.probs)}

(* ---------------------- A04: histories of a system --------------------- *)
\* q = [b, sf, forms (a sequence of lists of bilinear forms: the matrices), lin, script]
\* script events: [e |-> "new", a, rhs], [e |-> "dir", y (system), d], [e |-> "solve", y, a, rhs];
\* a = 0 / rhs.k = "" mean: keep
RhsOf(st, q, rows, rhs, B) ==
  IF rhs.k = "asm" THEN TLCEval([i \in 1..Len(rows) |-> <<B[i][1]>>])
  ELSE TLCEval([i \in 1..Len(rows) |-> [c \in 1..rhs.n |-> DataOf([seed |-> rhs.seed], rows[i], c)]])
SysNew(ev) == [a |-> ev.a, rhs |-> ev.rhs, dirs |-> <<>>]
SysStep(ys, ev) ==
  CASE ev.e = "new" -> Append(ys, SysNew(ev))
    [] ev.e = "dir" -> [ys EXCEPT ![ev.y].dirs = Append(@, ev.d)]
    [] ev.e = "solve" -> [ys EXCEPT ![ev.y].a = IF ev.a = 0 THEN @ ELSE ev.a,
                                    ![ev.y].rhs = IF ev.rhs.k = "" THEN @ ELSE ev.rhs]
RECURSIVE SysAt(_, _)
SysAt(script, k) == IF k = 0 THEN <<>> ELSE SysStep(SysAt(script, k - 1), script[k])
SystemBad(st, q, r) ==
  LET V == VView(st, q.b.h)  sf == q.b.sf  rows == r.rows  cells == LeafSet(st, q.sf)
      hm == HangMap(V, sf, TRUE)
      A == TLCEval([k \in 1..Len(q.forms) |-> AsmForms(st, cells, q.forms[k], 1, rows, rows)])
      B == AsmForms(st, cells, q.lin, 1, rows, <<0>>)
      n == Len(rows)
  IN IF ~SeqSet(rows, LeafDofs(V, sf)) THEN {"equations of the system: " \o ToString(rows)}
     ELSE UNION {
       LET ys == SysAt(q.script, k)  y == ys[q.script[k].y]  o == r.out[k]
           dm == DirMap(V, sf, y.dirs, "ls", 1)
           b == RhsOf(st, q, rows, y.rhs, B)  m == Len(b[1])
       IN IF ~Consistent(dm, hm) THEN {}
          ELSE IF Len(o.u) # n \/ \E i \in 1..n : Len(o.u[i]) # m THEN {"shape of the solution of event " \o ToString(k)}
          ELSE UNION {{"event " \o ToString(k) \o ", column " \o ToString(c) \o ": " \o x :
                         x \in SolutionBad(rows, A[y.a], Col(b, c), dm, hm, Numer(Col(o.u, c), Den40))} : c \in 1..m}
               \* the constrained matrix: T' A T on free dofs, nothing but a diagonal elsewhere
               \cup (LET F == Affine(rows, dm, hm)
                         M == MatMul(MatT(F.T), MatMul(A[y.a], F.T))
                         free == FreeIdx(rows, dm, hm) IN
                     IF Len(o.K) = n /\ \A i, j \in 1..n :
                          IF i \in free /\ j \in free THEN RClose(Q(o.K[i][j], Den), M[i][j])
                          ELSE IF i = j THEN ~RIsZero(Q(o.K[i][j], Den)) ELSE RClose(Q(o.K[i][j], Den), R0)
                     THEN {} ELSE {"constrained matrix of event " \o ToString(k)})
       : k \in {j \in 1..Len(q.script) : q.script[j].e = "solve"}}

SolveQBad(st, q, r) ==
  CASE q.q = "solve" -> SolveBad(st, q, r)
    [] q.q = "ls" -> SystemBad(st, q, r)
SolveMismatch(st0, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE LET s == AdoptAll(AsmApply(st0, step.op), step) IN
       UNION {{"query " \o ToString(i) \o " " \o step.qs[i].q.q \o ": " \o b : b \in SolveQBad(s, step.qs[i].q, step.qs[i].r)} : i \in 1..Len(step.qs)}

(* ------------------------------- laws ---------------------------------- *)
\* On every mesh: constraints are consistent, the reduced matrix is nonsingular, and a function of the space (here
\* a polynomial of degree one, or two for quadratic elements) is the solution of its own problem, at all nodes.
SolveLaws(st0, et) ==
  LET dim == st0.grid.dim
      st == [st0 EXCEPT !.hs = <<[et |-> et, num |-> CanonNum(st0, et)]>>]
      V == VView(st, 1)
      rows == SortedSeq(LeafDofs(V, ""))
      L == LeafSet(st, "")
      per == \E k \in 1..dim : st.grid.per[k] # 0
      z == [k \in 1..(dim + 1) |-> 0]
      d(k) == <<1>> \o [i \in 1..dim |-> k - 1]
      sq == Degree(et) > 1 /\ ~per
      ex == [k \in 1..dim |-> IF k = 1 THEN (IF sq THEN 2 ELSE 1) ELSE 0]
      p == IF per THEN << <<3, [k \in 1..dim |-> 0]>> >> ELSE << <<2, ex>>, <<1, [k \in 1..dim |-> 0]>> >>
      affine == \A a \in L : Parallelogram(st.cor[a])
      F(t, k, b, c) == [t |-> t, mu |-> "dx", f |-> "", k |-> k, b |-> b, c |-> c]
      u == Bas(1, "", z)
      stiff == [k \in 1..dim |-> F(2, NoKern, Bas(1, "", d(k)), Bas(1, "", d(k)))]
      bil == IF affine THEN stiff ELSE <<F(2, NoKern, u, u)>>
      lin == IF affine THEN (IF sq THEN <<F(1, PolyKern(<< <<-4, [k \in 1..dim |-> 0]>> >>, 0), u, u)>> ELSE <<>>)
             ELSE <<F(1, PolyKern(p, 2), u, u)>>
      dirs == IF per THEN <<>> ELSE << [mk |-> "", on |-> TRUE, fn |-> [a |-> "poly", p |-> <<p>>]] >>
      dm == DirMap(V, "", dirs, "asm", 1)
      hm == HangMap(V, "", TRUE)
      A == AsmForms(st, L, bil, 1, rows, rows)
      b == IF lin = <<>> THEN [i \in 1..Len(rows) |-> R0] ELSE Col(AsmForms(st, L, lin, 1, rows, <<0>>), 1)
      exact == [i \in 1..Len(rows) |-> PolyVec(p, [k \in 1..dim |-> <<DofCoord(V, rows[i])[k]>>])[1]]
      T == Affine(rows, dm, hm)
      I == SortedSeq(FreeIdx(rows, dm, hm))
      M == Sub(MatMul(MatT(T.T), MatMul(A, T.T)), I, I)
      c == LET w == MatVec(MatT(T.T), VAdd(b, VScale(R(-1), MatVec(A, T.g)))) IN [n \in 1..Len(I) |-> <<w[I[n]]>>]
  IN Torn(et) \/
     /\ Consistent(dm, hm)
     /\ (per \/ ~affine \/ SolutionBad(rows, A, b, dm, hm, exact) = {})
     /\ (per \/ ~affine \/ I = <<>> \/ (LET X == MatSolve(M, c) IN \A n \in 1..Len(I) : X[n][1] = exact[I[n]]))
     \* a wrong value is noticed
     /\ (per \/ ~affine \/ SolutionBad(rows, A, b, dm, hm, [exact EXCEPT ![1] = RAdd(@, R1)]) # {})

================================================================================
