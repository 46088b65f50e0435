--------------------------------- MODULE Maps ---------------------------------
(***************************************************************************)
(* Reference maps of the cells, intervals and half-edges of a mesh (M08):  *)
(* exact values of the (bi)linear maps, of their inverses and of the first *)
(* and second derivatives of both, over rational numbers.                  *)
(* Physical coordinates are in units of 1/scale (module Mesh).             *)
(***************************************************************************)
EXTENDS Mesh, Rat

RPt(p) == [k \in DOMAIN p |-> R(p[k])]
\* coefficients of the bilinear map  x(s,t) = c0 + c1 s + c2 t + c3 s t, per coordinate
BilCoef(C) == [k \in 1..2 |-> <<R(C[1][k]), R(C[2][k] - C[1][k]), R(C[4][k] - C[1][k]),
                                R(C[1][k] - C[2][k] + C[3][k] - C[4][k])>>]
BilMap(C, r) ==
  [k \in 1..2 |-> LET c == BilCoef(C)[k] IN
     RAdd(RAdd(c[1], RMul(c[2], r[1])), RAdd(RMul(c[3], r[2]), RMul(c[4], RMul(r[1], r[2]))))]
\* rows: physical coordinate; columns: reference coordinate
BilJac(C, r) ==
  [k \in 1..2 |-> LET c == BilCoef(C)[k] IN <<RAdd(c[2], RMul(c[4], r[2])), RAdd(c[3], RMul(c[4], r[1]))>>]
Inv2(J) ==
  LET det == RSub(RMul(J[1][1], J[2][2]), RMul(J[1][2], J[2][1])) IN
  << <<RDiv(J[2][2], det), RNeg(RDiv(J[1][2], det))>>,
     <<RNeg(RDiv(J[2][1], det)), RDiv(J[1][1], det)>> >>
\* second derivatives: element [k][i][j] is d2 (target k) / d(source i) d(source j)
BilHess(C) == [k \in 1..2 |-> LET m == BilCoef(C)[k][4] IN <<<<R0, m>>, <<m, R0>>>>]
\* inverse map: differentiate  J(r(x)) r'(x) = Id  once more
InvHess(C, r) ==
  LET A == Inv2(BilJac(C, r))     \* A[m][i] = d r_m / d x_i
      m(k) == BilCoef(C)[k][4]
      mixed(i, j) == RAdd(RMul(A[1][i], A[2][j]), RMul(A[2][i], A[1][j]))
  IN [q \in 1..2 |-> [i \in 1..2 |-> [j \in 1..2 |->
        RNeg(RMul(RAdd(RMul(A[q][1], m(1)), RMul(A[q][2], m(2))), mixed(i, j)))]]]
\* line segments (intervals and half-edges)
SegMap(s, r) == [k \in DOMAIN s[1] |-> RAdd(R(s[1][k]), RMul(R(s[2][k] - s[1][k]), r[1]))]
SegJac(s) == [k \in DOMAIN s[1] |-> R(s[2][k] - s[1][k])]
SegJacInv(s) ==      \* of the orthogonal projection onto the segment
  LET v == SegJac(s)  n == RDot(v, v) IN [k \in DOMAIN v |-> RDiv(v[k], n)]
\* position of descendant b in the reference cell of a
RECURSIVE SubPos(_, _)
SubPos(path, w) ==
  IF path = <<>> THEN <<R0, R0>>
  ELSE LET h == RMul(w, Q(1, 2))
           k == Head(path)
           o == <<IF k \in {1, 2} THEN h ELSE R0, IF k \in {2, 3} THEN h ELSE R0>>
           t == SubPos(Tail(path), h)
       IN <<RAdd(o[1], t[1]), RAdd(o[2], t[2])>>
RECURSIVE SubPos1(_, _)
SubPos1(path, w) ==
  IF path = <<>> THEN R0
  ELSE LET h == RMul(w, Q(1, 2)) IN RAdd(IF Head(path) = 1 THEN h ELSE R0, SubPos1(Tail(path), h))
PathIn(a, b) == SubSeq(b, Len(a) + 1, Len(b))
Width(a, b) == RPow(Q(1, 2), Len(b) - Len(a))
(* edge part: the first (0) or second (1) half of a half-edge, repeatedly *)
HalfSeg(s, h) == IF h = 0 THEN <<s[1], Mid(s[1], s[2])>> ELSE <<Mid(s[1], s[2]), s[2]>>

MapSeg(st, q) == IF st.grid.dim = 1 THEN st.cor[q.a] ELSE Side(st, q.a, q.e)
IsQuad(st, q) == st.grid.dim = 2 /\ q.e = -1
MapExpect(st, q) ==
  LET C == st.cor[q.a]  n == 1..Len(q.pts) IN
  CASE q.q = "map" -> [i \in n |-> IF IsQuad(st, q) THEN BilMap(C, q.pts[i]) ELSE SegMap(MapSeg(st, q), q.pts[i])]
    [] q.q = "inv" -> q.pts
    [] q.q = "jr2p" -> [i \in n |-> IF IsQuad(st, q) THEN BilJac(C, q.pts[i])
                                    ELSE [k \in 1..st.grid.dim |-> <<SegJac(MapSeg(st, q))[k]>>]]
    [] q.q = "jp2r" -> [i \in n |-> IF IsQuad(st, q) THEN Inv2(BilJac(C, q.pts[i])) ELSE <<SegJacInv(MapSeg(st, q))>>]
    [] q.q = "hr2p" -> [i \in n |-> BilHess(C)]
    [] q.q = "hp2r" -> [i \in n |-> InvHess(C, q.pts[i])]
    [] q.q = "sub" -> IF st.grid.dim = 1
                      THEN <<<<SubPos1(PathIn(q.a, q.b), R1)>>, <<Width(q.a, q.b)>>>>
                      ELSE <<SubPos(PathIn(q.a, q.b), R1), <<Width(q.a, q.b)>>>>
    [] q.q = "esub" -> <<<<SubPos1(q.b, R1)>>, <<RPow(Q(1, 2), Len(q.b))>>>>
CloseHess(A, B) == Len(A) = Len(B) /\ \A k \in 1..Len(B) : RCloseMat(A[k], B[k])
MapOK(st, q, r) ==
  LET e == MapExpect(st, q) IN
  CASE q.q \in {"map", "inv", "sub", "esub"} -> RCloseMat(r, e)
    [] q.q \in {"jr2p", "jp2r"} -> CloseHess(r, e)
    [] q.q \in {"hr2p", "hp2r"} -> Len(r) = Len(e) /\ \A i \in 1..Len(e) : CloseHess(r[i], e[i])
MapMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE {"query " \o ToString(step.qs[i].q) \o " of cell " \o ToString(st.cor[step.qs[i].q.a]) \o " got "
          \o ToString(step.qs[i].r) \o " expected " \o ToString(MapExpect(st, step.qs[i].q)) :
            i \in {k \in 1..Len(step.qs) : ~MapOK(st, step.qs[k].q, step.qs[k].r)}}

(* ------------------------------- laws ---------------------------------- *)
\* checked over the states of a bounded mesh graph (MapsGen)
TestPts == {<<Q(i, 3), Q(j, 4)>> : i \in {0, 2, 3}, j \in {0, 1, 4}}
Corner01 == <<<<R0, R0>>, <<R1, R0>>, <<R1, R1>>, <<R0, R1>>>>
MapLaws(st) ==
  \A a \in Nodes(st) :
    LET C == st.cor[a] IN
    IF st.grid.dim = 1
    THEN \A b \in Nodes(st) : Prefix(a, b) =>
           \A c \in {1, 2} : SegMap(C, <<RAdd(SubPos1(PathIn(a, b), R1), RMul(Width(a, b), R(c - 1)))>>) = RPt(st.cor[b][c])
    ELSE /\ \A i \in 1..4 : BilMap(C, Corner01[i]) = RPt(C[i])
         /\ \A r \in TestPts :
              /\ MatMul(BilJac(C, r), Inv2(BilJac(C, r))) = MatId(2)
              \* the Jacobian is the difference quotient (bilinear: exact along the axes)
              /\ \A h \in {Q(1, 2), R(-1)} : \A k \in 1..2 :
                   /\ RMul(h, BilJac(C, r)[k][1]) = RSub(BilMap(C, <<RAdd(r[1], h), r[2]>>)[k], BilMap(C, r)[k])
                   /\ RMul(h, BilJac(C, r)[k][2]) = RSub(BilMap(C, <<r[1], RAdd(r[2], h)>>)[k], BilMap(C, r)[k])
              \* second derivative of the inverse: sum_k H_inv[q][i][j] relation J_i^T ... (chain rule)
              /\ LET J == BilJac(C, r)  A == Inv2(J)  H == BilHess(C)  G == InvHess(C, r) IN
                 \A k, i, j \in 1..2 :
                   RAdd(RSumSeq([q \in 1..2 |-> RMul(J[k][q], G[q][i][j])]),
                        RSumSeq([p \in 1..2 |-> RSumSeq([q \in 1..2 |->
                           RMul(H[k][p][q], RMul(A[p][i], A[q][j]))])])) = R0
         /\ \A b \in Nodes(st) : Prefix(a, b) =>
              \A i \in 1..4 : BilMap(C, LET o == SubPos(PathIn(a, b), R1)  w == Width(a, b) IN
                                  <<RAdd(o[1], RMul(w, Corner01[i][1])), RAdd(o[2], RMul(w, Corner01[i][2]))>>)
                              = RPt(st.cor[b][i])
================================================================================
