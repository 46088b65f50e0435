--------------------------------- MODULE Elem ---------------------------------
(***************************************************************************)
(* Finite elements Q1, Q2, Q3, DQ0, ..., DQ3 on the reference interval and *)
(* square (E01): nodes, Lagrange basis, exact derivatives on the reference *)
(* cell and on mapped cells, constraint coefficients of a bisected edge.   *)
(***************************************************************************)
EXTENDS Maps

Degree(et) == CASE et \in {"DQ0"} -> 0 [] et \in {"Q1", "DQ1"} -> 1 [] et \in {"Q2", "DQ2"} -> 2 [] et \in {"Q3", "DQ3"} -> 3
Torn(et) == et \in {"DQ0", "DQ1", "DQ2", "DQ3"}
\* nodes as integer multiples of 1/degree: vertices, then edge nodes along the
\* edges counterclockwise, then interior nodes row by row
EdgeDir(e) == CASE e = 0 -> <<1, 0>> [] e = 1 -> <<0, 1>> [] e = 2 -> <<-1, 0>> [] e = 3 -> <<0, -1>>
VertAt(e, p) == CASE e = 0 -> <<0, 0>> [] e = 1 -> <<p, 0>> [] e = 2 -> <<p, p>> [] e = 3 -> <<0, p>>
IntNodes(dim, p) ==
  IF p = 0 THEN (IF dim = 1 THEN << <<0>> >> ELSE << <<0, 0>> >>)
  ELSE IF dim = 1 THEN << <<0>>, <<p>> >> \o [i \in 1..(p-1) |-> <<i>>]
  ELSE [e \in 1..4 |-> VertAt(e - 1, p)]
       \o [i \in 1..(4 * (p-1)) |-> LET e == (i - 1) \div (p-1)  k == ((i - 1) % (p-1)) + 1
                                        v == VertAt(e, p)  d == EdgeDir(e)
                                    IN <<v[1] + k * d[1], v[2] + k * d[2]>>]
       \o [i \in 1..((p-1) * (p-1)) |-> <<((i - 1) % (p-1)) + 1, ((i - 1) \div (p-1)) + 1>>]
\* tables, evaluated once
NodeTab == TLCEval([dim \in 1..2 |-> [p \in 0..3 |-> TLCEval(IntNodes(dim, p))]])
NLoc(dim, et) == Len(NodeTab[dim][Degree(et)])
\* the Lagrange polynomial of node k/p among 0, 1/p, ..., 1
RECURSIVE LagProd(_, _, _)
LagProd(p, k, j) ==
  IF j > p THEN <<R1>>
  ELSE IF j = k THEN LagProd(p, k, j + 1)
  ELSE PMul(<<Q(-j, k - j), Q(p, k - j)>>, LagProd(p, k, j + 1))
LagTab == TLCEval([p \in 0..3 |-> TLCEval([k \in 0..p |-> TLCEval(LagProd(p, k, 0))])])
DLagTab == TLCEval([p \in 0..3 |-> TLCEval([k \in 0..p |-> TLCEval([d \in 0..2 |-> PDiffN(LagTab[p][k], d)])])])
\* D^(a,b) of shape function n (1-based) at reference point r
Shp(dim, et, n, d, r) ==
  LET p == Degree(et)  x == NodeTab[dim][p][n] IN
  IF dim = 1 THEN PEval(DLagTab[p][x[1]][d[1]], r[1])
  ELSE RMul(PEval(DLagTab[p][x[1]][d[1]], r[1]), PEval(DLagTab[p][x[2]][d[2]], r[2]))
\* order of differentiation in each variable, from the code's tuple (order, i, j)
DerOf(dim, t) ==
  IF dim = 1 THEN <<t[1]>>
  ELSE <<Cardinality({k \in 2..(t[1] + 1) : t[k] = 0}), Cardinality({k \in 2..(t[1] + 1) : t[k] = 1})>>
RefShape(dim, et, n, t, r) == Shp(dim, et, n, DerOf(dim, t), r)
\* derivative with respect to physical coordinates of the function mapped to a cell
G1(et, n, r, m) == Shp(2, et, n, IF m = 1 THEN <<1, 0>> ELSE <<0, 1>>, r)
G2(et, n, r, m, k) == Shp(2, et, n, IF m = k THEN (IF m = 1 THEN <<2, 0>> ELSE <<0, 2>>) ELSE <<1, 1>>, r)
PhysShape(C, et, n, t, r) ==
  IF t[1] = 0 THEN Shp(IF Len(C) = 2 THEN 1 ELSE 2, et, n, IF Len(C) = 2 THEN <<0>> ELSE <<0, 0>>, r)
  ELSE IF Len(C) = 2
  THEN RMul(RPow(RInv(R(C[2][1] - C[1][1])), t[1]), Shp(1, et, n, <<t[1]>>, r))
  ELSE LET A == TLCEval(Inv2(BilJac(C, r))) IN
       IF t[1] = 1 THEN RSumSeq([m \in 1..2 |-> RMul(G1(et, n, r, m), A[m][t[2] + 1])])
       ELSE LET i == t[2] + 1  j == t[3] + 1  G == TLCEval(InvHess(C, r)) IN
            RAdd(RSumSeq([m \in 1..2 |-> RSumSeq([k \in 1..2 |->
                    RMul(G2(et, n, r, m, k), RMul(A[m][i], A[k][j]))])]),
                 RSumSeq([m \in 1..2 |-> RMul(G1(et, n, r, m), G[m][i][j])]))
\* coefficients of the coarse edge functions (in order along the edge) at the fine
\* nodes of the two halves that are no coarse nodes: <<half, position, coefficients>>
Constraints(et) ==
  LET p == Degree(et) IN
  {<<h, i>> \in {0, 1} \X (0..p) : LET f == h * p + i IN f % 2 = 1 /\ (h = 1 => f # p \/ TRUE)}
ConstrCoef(et, h, i) ==
  LET p == Degree(et)  x == Q(h * p + i, 2 * p) IN [k \in 1..(p + 1) |-> PEval(LagTab[p][k - 1], x)]

ElemExpect(st, q) ==
  LET dim == st.grid.dim  n == 1..Len(q.pts) IN
  CASE q.q = "ref" -> [i \in n |-> [d \in 1..Len(q.ld) |-> RefShape(dim, q.et, q.ld[d] + 1, q.der, q.pts[i])]]
    [] q.q = "phys" -> [i \in n |-> [d \in 1..Len(q.ld) |-> PhysShape(st.cor[q.a], q.et, q.ld[d] + 1, q.der, q.pts[i])]]
    [] q.q = "nodes" -> LET p == Degree(q.et) IN
                        [i \in 1..NLoc(dim, q.et) |-> [k \in 1..dim |->
                            IF p = 0 THEN Q(1, 2) ELSE Q(NodeTab[dim][p][i][k], p)]]
    [] q.q = "constr" -> [i \in 1..Len(q.at) |-> ConstrCoef(q.et, q.at[i][1], q.at[i][2])]
    [] q.q = "counts" -> LET p == Degree(q.et) IN
         <<NLoc(dim, q.et), p, IF p = 0 THEN 0 ELSE 1,
           IF p = 0 THEN (IF dim = 1 THEN 1 ELSE 0) ELSE p - 1,
           IF dim = 1 THEN 0 ELSE IF p = 0 THEN 1 ELSE (p - 1) * (p - 1), IF Torn(q.et) THEN 1 ELSE 0>>
ElemOK(st, q, r) ==
  CASE q.q \in {"ref", "phys", "nodes"} -> RCloseMat(r, ElemExpect(st, q))
    [] q.q = "constr" -> Range(q.at) = Constraints(q.et) /\ RCloseMat(r, ElemExpect(st, q))
    [] q.q = "counts" -> r = ElemExpect(st, q)
ElemMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE {"query " \o ToString(step.qs[i].q) \o " of cell " \o ToString(st.cor[step.qs[i].q.a]) \o " got "
          \o ToString(step.qs[i].r) \o " expected " \o ToString(ElemExpect(st, step.qs[i].q)) :
            i \in {k \in 1..Len(step.qs) : ~ElemOK(st, step.qs[k].q, step.qs[k].r)}}

(* ------------------------------- laws ---------------------------------- *)
Types == {"DQ0", "Q1", "Q2", "Q3", "DQ1", "DQ2", "DQ3"}
RefPts(dim) == IF dim = 1 THEN {<<Q(i, 7)>> : i \in 0..7} ELSE {<<Q(i, 4), Q(j, 5)>> : i \in {0, 1, 3, 4}, j \in {0, 2, 5}}
NodeAt(dim, et, i) == LET p == Degree(et) IN [k \in 1..dim |-> IF p = 0 THEN R0 ELSE Q(NodeTab[dim][p][i][k], p)]
Mono(dim, e, r) == IF dim = 1 THEN RPow(r[1], e[1]) ELSE RMul(RPow(r[1], e[1]), RPow(r[2], e[2]))
ElemLaws(dim, et) ==
  LET p == Degree(et)  N == NLoc(dim, et) IN
  \* nodal
  /\ \A i, j \in 1..N : Shp(dim, et, i, [k \in 1..dim |-> 0], NodeAt(dim, et, j)) = IF i = j THEN R1 ELSE R0
  /\ \A i, j \in 1..N : i # j => NodeTab[dim][p][i] # NodeTab[dim][p][j]
  \* reproduces every monomial of the degree (the constant one: partition of unity) and its derivatives
  /\ \A r \in RefPts(dim), e \in [1..dim -> 0..p] :
        /\ RSumSeq([i \in 1..N |-> RMul(Mono(dim, e, NodeAt(dim, et, i)), Shp(dim, et, i, [k \in 1..dim |-> 0], r))]) = Mono(dim, e, r)
        /\ \A d \in 1..2, v \in 1..dim :
             RSumSeq([i \in 1..N |-> RMul(Mono(dim, e, NodeAt(dim, et, i)),
                                          Shp(dim, et, i, [k \in 1..dim |-> IF k = v THEN d ELSE 0], r))])
             = IF e[v] < d THEN R0
               ELSE RScale(IF d = 1 THEN e[v] ELSE e[v] * (e[v] - 1), Mono(dim, [e EXCEPT ![v] = @ - d], r))
  \* constraint coefficients sum to one
  /\ p > 0 => \A c \in Constraints(et) : RSumSeq(ConstrCoef(et, c[1], c[2])) = R1
================================================================================
