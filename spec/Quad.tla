--------------------------------- MODULE Quad ---------------------------------
(***************************************************************************)
(* Quadrature (A01).  Exact integrals of polynomials over cells, intervals *)
(* and edges are computed with Newton-Cotes weights over the rationals     *)
(* (exact for every polynomial of degree at most m in each variable);      *)
(* recorded rules (nodes and weights) are judged by their exact moments.   *)
(***************************************************************************)
EXTENDS Elem

(* ------------------------- exact integration --------------------------- *)
RECURSIVE NCProd(_, _, _)
NCProd(m, k, j) ==
  IF j > m THEN <<R1>> ELSE IF j = k THEN NCProd(m, k, j + 1)
  ELSE PMul(<<Q(-j, k - j), Q(m, k - j)>>, NCProd(m, k, j + 1))
NCW == TLCEval([m \in 1..14 |-> TLCEval([k \in 1..(m + 1) |-> PInt01(NCProd(m, k - 1, 0))])])
\* integral over [0,1] (resp. its square) of a function given at i/m (resp. (i/m, j/m)), i, j in 0..m
Int1(m, F(_)) == RSumSeq([k \in 1..(m + 1) |-> RMul(NCW[m][k], F(Q(k - 1, m)))])
Int2(m, F(_, _)) ==
  RSumSeq([k \in 1..(m + 1) |-> RMul(NCW[m][k],
     RSumSeq([l \in 1..(m + 1) |-> RMul(NCW[m][l], F(Q(k - 1, m), Q(l - 1, m)))]))])
Det2(J) == RSub(RMul(J[1][1], J[2][2]), RMul(J[1][2], J[2][1]))

(* coordinates relative to an origin o (integers) in units of h *)
Loc(p, o, h) == [k \in DOMAIN p |-> RMul(RSub(p[k], R(o[k])), Q(1, h))]
\* integral of the monomial with exponents ex in local coordinates over a cell
CellMoment(C, o, h, ex) ==
  IF Len(C) = 2
  THEN RMul(Q(C[2][1] - C[1][1], h), Int1(ex[1] + 1, LAMBDA s : RPow(Loc(SegMap(C, <<s>>), o, h)[1], ex[1])))
  ELSE IF IsRect(C)
  THEN RMul(Q(Shoelace(C, 1), 2 * h * h),
            Int2(ex[1] + ex[2] + 1, LAMBDA s, t : Mono(2, ex, Loc(BilMap(C, <<s, t>>), o, h))))
  ELSE Int2(ex[1] + ex[2] + 1, LAMBDA s, t :
          RMul(RMul(Det2(BilJac(C, <<s, t>>)), Q(1, h * h)), Mono(2, ex, Loc(BilMap(C, <<s, t>>), o, h))))
\* mean value over a line segment
SegMean(s, o, h, ex) == Int1(ex[1] + (IF Len(ex) = 2 THEN ex[2] ELSE 0) + 1,
                             LAMBDA r : Mono(Len(ex), ex, Loc(SegMap(s, <<r>>), o, h)))
SegLen2(s, h) == RDot([k \in DOMAIN s[1] |-> Q(s[2][k] - s[1][k], h)], [k \in DOMAIN s[1] |-> Q(s[2][k] - s[1][k], h)])
RECURSIVE Fact(_)
Fact(n) == IF n <= 1 THEN 1 ELSE n * Fact(n - 1)
TriMoment(ex) == RDiv(RMul(R(Fact(ex[1])), R(Fact(ex[2]))), R(Fact(ex[1] + ex[2] + 2)))
TriDegree(n) == CASE n = 1 -> 1 [] n = 3 -> 2 [] n = 7 -> 5 [] n = 13 -> 7

(* --------------------- moments of a recorded rule ---------------------- *)
\* r = [ref nodes, ref weights, nodes, weights]; weights in units of h^dim
RuleMoment(x, w, ex) == RSumSeq([i \in 1..Len(w) |-> RMul(w[i], Mono(Len(ex), ex, x[i]))])
RefMoment(ex) == RProdSeq([k \in 1..Len(ex) |-> Q(1, ex[k] + 1)])
Unit(p) == \A k \in DOMAIN p : RSign(p[k]) > 0 /\ RSign(RSub(R1, p[k])) > 0
LocAll(x, o, h) == [i \in 1..Len(x) |-> TLCEval(Loc(x[i], o, h))]
Exps(dim, m) == [1..dim -> 0..m]

QuadOK(st, q, r) ==
  LET n == q.n  dim == st.grid.dim  np == IF q.k \in {"edge", "tri"} \/ dim = 1 THEN n ELSE n * n IN
  CASE q.k = "tri" ->
         /\ Len(r.w0) = n
         /\ \A i \in 1..n : RSign(r.x0[i][1]) > 0 /\ RSign(r.x0[i][2]) > 0 /\ RSign(RSub(R1, RAdd(r.x0[i][1], r.x0[i][2]))) > 0
         /\ \A ex \in Exps(2, TriDegree(n)) : ex[1] + ex[2] <= TriDegree(n) => RClose(RuleMoment(r.x0, r.w0, ex), TriMoment(ex))
    [] q.k = "ref" ->
         /\ Len(r.w0) = np /\ Len(r.x0) = np /\ r.n = np
         /\ \A i \in 1..np : Unit(r.x0[i]) /\ RSign(r.w0[i]) > 0
         /\ \A ex \in Exps(dim, 2 * n - 1) : RClose(RuleMoment(r.x0, r.w0, ex), RefMoment(ex))
    [] q.k = "scale" ->      \* rule on the part of the reference cell covered by a descendant
         LET w == Width(q.a, q.b)
             o == IF dim = 1 THEN <<SubPos1(PathIn(q.a, q.b), R1)>> ELSE SubPos(PathIn(q.a, q.b), R1) IN
         /\ Len(r.w) = np
         /\ RCloseMat(r.x, [i \in 1..np |-> [k \in 1..dim |-> RAdd(o[k], RMul(w, r.x0[i][k]))]])
         /\ \A ex \in Range(q.ex) :
              RClose(RuleMoment(r.x, r.w, ex),
                     RProdSeq([k \in 1..dim |-> RMul(Q(1, ex[k] + 1), RSub(RPow(RAdd(o[k], w), ex[k] + 1), RPow(o[k], ex[k] + 1)))]))
    [] q.k = "edge" ->
         LET s == Side(st, q.a, q.e)  x == LocAll(r.x, q.o, q.h)  tot == RSumSeq(r.w) IN
         /\ Len(r.w) = np
         /\ RCloseMat(x, [i \in 1..np |-> Loc(SegMap(s, r.x0[i]), q.o, q.h)])
         /\ \A i \in 1..np : RSign(r.w[i]) > 0
         /\ RClose(RMul(tot, tot), SegLen2(s, q.h))
         /\ \A ex \in Range(q.ex) : RClose(RuleMoment(x, r.w, ex), RMul(tot, SegMean(s, q.o, q.h, ex)))
    [] q.k = "cell" ->
         LET C == st.cor[q.a]  x == LocAll(r.x, q.o, q.h) IN
         /\ Len(r.w) = np
         /\ RCloseMat(x, [i \in 1..np |-> Loc(IF dim = 1 THEN SegMap(C, r.x0[i]) ELSE BilMap(C, r.x0[i]), q.o, q.h)])
         /\ \A i \in 1..np : RSign(r.w[i]) > 0
         /\ \A ex \in Range(q.ex) : RClose(RuleMoment(x, r.w, ex), CellMoment(C, q.o, q.h, ex))
    [] q.k = "mapn" ->       \* mapping of given reference points
         LET C == st.cor[q.a] IN
         RCloseMat(r.x, [i \in 1..Len(q.pts) |-> IF q.e >= 0 THEN SegMap(Side(st, q.a, q.e), q.pts[i])
                                                 ELSE IF dim = 1 THEN SegMap(C, q.pts[i]) ELSE BilMap(C, q.pts[i])])
QuadMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE {"query " \o ToString(step.qs[i].q) \o " of cell " \o ToString(st.cor[step.qs[i].q.a]) \o " got " \o ToString(step.qs[i].r) :
            i \in {k \in 1..Len(step.qs) : ~QuadOK(st, step.qs[k].q, step.qs[k].r)}}

(* ------------------------------- laws ---------------------------------- *)
NCLaws == \A m \in 1..14 : \A k \in 0..m : Int1(m, LAMBDA s : RPow(s, k)) = Q(1, k + 1)
QuadLaws(st) ==
  \A a \in Nodes(st) :
    LET C == st.cor[a]  dim == st.grid.dim  z == [k \in 1..dim |-> 0]
        M(b, ex) == CellMoment(st.cor[b], st.cor[<<0>>][1], st.grid.scale, ex) IN
    /\ CellMoment(C, z, 1, z) = IF dim = 1 THEN R(C[2][1] - C[1][1]) ELSE Q(Shoelace(C, 1), 2)
    /\ Kids(st, a) # {} =>
         \A ex \in {e \in Exps(dim, 2) : TRUE} :
           M(a, ex) = RSumSeq([i \in 1..st.nodes[a].n |-> M(Append(a, i - 1), ex)])
================================================================================
