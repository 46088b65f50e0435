--------------------------------- MODULE Dofs ---------------------------------
(***************************************************************************)
(* Degrees of freedom of src/fem.py (DofHandler, Basis): numbering (D01),  *)
(* submeshes, regions and bases (D02), hanging nodes (D03).                *)
(*                                                                         *)
(* The numbering itself is a choice of the implementation; the recorded    *)
(* one is adopted into the state (field num: cell -> dofs) when it obeys   *)
(* the laws, and everything else is stated in terms of it.  Nodes of the   *)
(* mesh are identified by their position, an integer vector in units of    *)
(* 1/(scale * Fine).                                                       *)
(*   et : element type     num : adopted numbering     del : cells have    *)
(*   been deleted                                                          *)
(***************************************************************************)
EXTENDS Quad

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET x == SetMin(S) IN <<x>> \o SortedSeq(S \ {x})
PP(et) == IF Degree(et) = 0 THEN 2 ELSE Degree(et)
Fine(dim, et) == IF dim = 1 THEN PP(et) ELSE PP(et) * PP(et)
\* position of local node i (1-based) of a cell
NodePos(st, et, a, i) ==
  LET dim == st.grid.dim  p == PP(et)  C == st.cor[a]
      x == IF Degree(et) = 0 THEN [k \in 1..dim |-> 1] ELSE NodeTab[dim][Degree(et)][i]
  IN IF dim = 1 THEN <<C[1][1] * (p - x[1]) + C[2][1] * x[1]>>
     ELSE [k \in 1..2 |-> C[1][k] * (p - x[1]) * (p - x[2]) + C[2][k] * x[1] * (p - x[2])
                          + C[3][k] * x[1] * x[2] + C[4][k] * (p - x[1]) * x[2]]
\* the mesh node it refers to: periodic positions are identified
KeyMod(st, et, x) == [k \in DOMAIN x |-> IF st.grid.per[k] = 0 THEN x[k]
                                         ELSE x[k] % (st.grid.per[k] * st.grid.scale * Fine(st.grid.dim, et))]
Key(st, et, a, i) == KeyMod(st, et, NodePos(st, et, a, i))
NL(st) == NLoc(st.grid.dim, st.et)

(* ------------------------------ D01 ------------------------------------ *)
Covered(st, f) == IF f = "" THEN Nodes(st) ELSE {a \in Nodes(st) : Marked(st, a, f)}
NumFun(rec) == [a \in {rec[k].a : k \in 1..Len(rec)} |-> (CHOOSE k \in 1..Len(rec) : rec[k].a = a)]
NumOf(rec) == LET F == NumFun(rec) IN TLCEval([a \in DOMAIN F |-> rec[F[a]].d])
AncRel(a, b) == Prefix(a, b) \/ Prefix(b, a)
\* the laws of a numbering
SharedExactly(st, num) ==
  LET P == UNION {{<<Key(st, st.et, a, i), num[a][i]>> : i \in 1..NL(st)} : a \in DOMAIN num}
  IN Cardinality({x[1] : x \in P}) = Cardinality(P) /\ Cardinality({x[2] : x \in P}) = Cardinality(P)
TornApart(st, num) ==
  /\ \A a \in DOMAIN num : Cardinality(Range(num[a])) = NL(st)
  /\ \A a, b \in DOMAIN num : Range(num[a]) \cap Range(num[b]) # {} =>
       /\ AncRel(a, b)
       /\ \A i, j \in 1..NL(st) : num[a][i] = num[b][j] => Key(st, st.et, a, i) = Key(st, st.et, b, j)
NumBad(st, op, rec, cnt) ==
  LET num == NumOf(rec) IN
  (IF Covered(st, op.f) \subseteq DOMAIN num THEN {} ELSE {"cells without a full set of dofs: " \o ToString(Covered(st, op.f) \ DOMAIN num)})
  \cup (IF \A a \in DOMAIN num : Len(num[a]) = NL(st) THEN {} ELSE {"wrong number of dofs in a cell"})
  \cup {"dofs of " \o ToString(a) \o " changed from " \o ToString(st.num[a]) \o " to " \o ToString(num[a]) :
          a \in {b \in DOMAIN num \cap DOMAIN st.num : num[b] # st.num[b]}}
  \cup (IF Torn(st.et) THEN (IF TornApart(st, num) THEN {} ELSE {"discontinuous cells share dofs: " \o ToString(num)})
        ELSE IF SharedExactly(st, num) THEN {} ELSE {"dofs are not shared exactly where nodes coincide: " \o ToString(num)})
  \cup (IF st.del \/ UNION {Range(num[a]) : a \in DOMAIN num} = 0..(cnt - 1) THEN {}
        ELSE {"numbers in use are not 0..n-1, n = " \o ToString(cnt)})

(* ------------------------------ D02 ------------------------------------ *)
\* local numbers (1-based) attached to vertex i, side j, the interior
PE(st) == IF Degree(st.et) = 0 THEN (IF st.grid.dim = 1 THEN 1 ELSE 0) ELSE Degree(st.et) - 1
PV(st) == IF Degree(st.et) = 0 THEN 0 ELSE 1
NV(st) == IF st.grid.dim = 1 THEN 2 ELSE 4
VertL(st, i) == IF PV(st) = 0 THEN {} ELSE {i + 1}
EdgeL(st, j) == {NV(st) * PV(st) + j * PE(st) + k : k \in 1..PE(st)}
CellL(st) == IF st.grid.dim = 1 THEN EdgeL(st, 0) ELSE (4 * PV(st) + 4 * PE(st) + 1)..NL(st)
SideL(st, j, interior) == EdgeL(st, j) \cup (IF interior THEN {} ELSE VertL(st, j) \cup VertL(st, (j + 1) % 4))
EntL(st, kind, k, interior) ==
  CASE kind = "vertex" -> VertL(st, k)
    [] kind = "half_edge" -> SideL(st, k, interior)
    [] kind = "cell" -> IF interior THEN CellL(st) ELSE 1..NL(st)
DofsAt(st, a, L) == {st.num[a][i] : i \in L}
LeafDofs(st, sf) == UNION {Range(st.num[a]) : a \in LeafSet(st, sf)}
RegionDofs(st, q) ==
  UNION {LET ent == p[1]  a == p[2] IN
         CASE q.et = "vertex" -> DofsAt(st, a, UNION {VertL(st, i - 1) : i \in {k \in 1..NV(st) : st.cor[a][k] = ent}})
           [] q.et = "half_edge" -> DofsAt(st, a, SideL(st, ent[2], q.int))
           [] q.et = "cell" -> DofsAt(st, a, EntL(st, "cell", 0, q.int)) : p \in RegionPairs(st, q)}
Sorted(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* a position of the node with number d
PosOf(st, d) == LET a == CHOOSE a \in DOMAIN st.num : d \in Range(st.num[a])
                    i == CHOOSE i \in 1..NL(st) : st.num[a][i] = d IN NodePos(st, st.et, a, i)
\* any of the equivalent positions (of a cell that has the number)
PosSet(st, d) == UNION {{NodePos(st, st.et, a, i) : i \in {k \in 1..NL(st) : st.num[a][k] = d}} : a \in {b \in DOMAIN st.num : d \in Range(st.num[b])}}
\* (after deletions the position may be that in a deleted cell on the other side of the period)
PosOK(st, d, x) == LET P == PosSet(st, d) IN x \in P \/ (st.del /\ KeyMod(st, st.et, x) \in {KeyMod(st, st.et, y) : y \in P})
BasisOK(st, q, r) ==
  LET D == LeafDofs(st, q.sf)  n == Cardinality(D) IN
  /\ r.nd = n /\ Len(r.dofs) = n /\ Range(r.dofs) = D
  /\ Len(r.i) = n /\ Range(r.i) = 0..(n - 1) /\ r.x = r.dofs
  /\ \A k \in 1..Len(q.cells) : r.cd[k] = st.num[NearestAnc(st, q.cells[k], q.sf)]
  /\ r.one = <<r.i[1], r.dofs[1]>>

(* ------------------------------ D03 ------------------------------------ *)
\* local number of node k = 0..p along side j
AlongL(st, j, k) == LET p == Degree(st.et) IN
  IF k = 0 THEN j + 1 ELSE IF k = p THEN ((j + 1) % 4) + 1 ELSE 4 + j * (p - 1) + k
\* coarse side <<a, j>> of a leaf with its two finer halves on the other side
HangSides(st, sf) ==
  {s \in SidesOf(st, LeafSet(st, sf)) :
     LET t == Twin(st, s[1], s[2]) IN t # NoSide /\ InSub(st, t[1], sf) /\ FKids(st, t[1], sf) # {}}
\* <<dof, side of the coarse leaf, half, position>> of the constrained nodes
HangAt(st, sf) ==
  UNION {LET t == Twin(st, s[1], s[2])  ks == KidSides(t[1], t[2]) IN
         {<<st.num[ks[c[1] + 1][1]][AlongL(st, ks[c[1] + 1][2], c[2])], s, c[1], c[2]>> : c \in Constraints(st.et)} :
         s \in HangSides(st, sf)}
HangDofs(st, sf) == IF st.grid.dim = 1 \/ Torn(st.et) THEN {} ELSE {h[1] : h \in HangAt(st, sf)}
\* supporting dofs with their coefficients (the coarse basis functions at the node, summed over
\* the nodes of the edge with the same number: the ends of an edge that spans the period coincide)
HangRow(st, h) ==
  LET p == Degree(st.et)  a == h[2][1]  j == h[2][2]  c == ConstrCoef(st.et, h[3], h[4])
      dof(k) == st.num[a][AlongL(st, j, k)]
      sum(n) == RSumSeq([k \in 1..(p + 1) |-> IF dof(k - 1) = n THEN c[p - k + 2] ELSE R0]) IN
  {<<n, sum(n)>> : n \in {dof(k) : k \in 0..p}}
HangRowOK(st, sf, e) ==      \* e = [d, s, c]: recorded dof, supports, coefficients
  \A h \in {x \in HangAt(st, sf) : x[1] = e.d} :
     LET E == HangRow(st, h) IN
     /\ Len(e.s) = Len(e.c)
     /\ \A x \in E : RClose(RSumSeq([k \in 1..Len(e.s) |-> IF e.s[k] = x[1] THEN e.c[k] ELSE R0]), x[2])
     /\ \A k \in 1..Len(e.s) : e.s[k] \in {x[1] : x \in E} \/ RClose(e.c[k], R0)
HangOK(st, sf, r) ==
  /\ Len(r) = Cardinality(HangDofs(st, sf)) /\ {r[k].d : k \in 1..Len(r)} = HangDofs(st, sf)
  /\ \A k \in 1..Len(r) : HangRowOK(st, sf, r[k])

(* ----------------------- operations and queries ------------------------ *)
Restrict(num, A) == [a \in DOMAIN num \cap A |-> num[a]]
DofInit(init) == MeshInit(init) @@ [et |-> init.et, num |-> <<>>, del |-> FALSE]
DofApply(st, op) ==
  IF op.o = "dist" THEN st
  ELSE IF op.o = "clear" THEN [st EXCEPT !.num = <<>>, !.del = FALSE]
  ELSE LET s == MeshApply(st, op) IN
       [s EXCEPT !.num = IF op.o \in {"delete_children", "coarsen"} THEN TLCEval(Restrict(@, Nodes(s))) ELSE @,
                 !.del = @ \/ op.o \in {"delete_children", "coarsen"}]
\* adopt a recorded numbering
Adopt(st, step) == IF step.num = <<>> THEN st ELSE [st EXCEPT !.num = NumOf(step.num)]

DofExpect(st, q) ==
  CASE q.q = "region" -> RegionDofs(st, q)
    [] q.q = "nd" -> Cardinality(LeafDofs(st, q.sf))
    [] q.q = "hang" -> [d \in HangDofs(st, q.sf) |-> {HangRow(st, h) : h \in {x \in HangAt(st, q.sf) : x[1] = d}}]
    [] q.q = "verts" -> [k \in 1..Len(q.dofs) |-> PosSet(st, q.dofs[k])]
    [] q.q = "vall" -> [d \in LeafDofs(st, q.sf) |-> PosSet(st, d)]
    [] q.q = "ent" -> LET L == EntL(st, q.kind, q.k, q.int) IN IF q.loc THEN {i - 1 : i \in L} ELSE DofsAt(st, q.a, L)
    [] q.q = "basis" -> LeafDofs(st, q.sf)
    [] q.q = "same" -> <<q.o = "" /\ q.sf = q.sf2, q.o # "mesh" /\ q.sf = q.sf2, q.o # "mesh" /\ q.sf = q.sf2>>
DofOK(st, q, r) ==
  CASE q.q = "region" -> Range(r) = RegionDofs(st, q) /\ Sorted(r)
    [] q.q = "hang" -> HangOK(st, q.sf, r)
    [] q.q = "verts" -> Len(r) = Len(q.dofs) /\ \A k \in 1..Len(r) : PosOK(st, q.dofs[k], r[k])
    [] q.q = "vall" -> LET D == LeafDofs(st, q.sf) IN
                       /\ Len(r) = Cardinality(D)
                       /\ \E f \in {TLCEval(SortedSeq(D))} : \A k \in 1..Len(r) : PosOK(st, f[k], r[k])
    [] q.q = "ent" -> LET E == DofExpect(st, q) IN Range(r) = E /\ Len(r) = Cardinality(EntL(st, q.kind, q.k, q.int))
    [] q.q = "basis" -> BasisOK(st, q, r)
    [] OTHER -> r = DofExpect(st, q)
DofMismatch(st0, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE LET s1 == DofApply(st0, step.op)
           bad == IF step.num = <<>> THEN {} ELSE NumBad(s1, step.op, step.num, step.cnt)
       IN IF bad # {} THEN bad
          ELSE LET s2 == Adopt(s1, step) IN
               {"query " \o ToString(step.qs[i].q) \o " got " \o ToString(step.qs[i].r) \o " expected " \o ToString(DofExpect(s2, step.qs[i].q)) :
                  i \in {k \in 1..Len(step.qs) : ~DofOK(s2, step.qs[k].q, step.qs[k].r)}}

(* ------------------------------- laws ---------------------------------- *)
\* a numbering by position on the model itself
CanonNum(st, et) ==
  LET K == UNION {{Key(st, et, a, i) : i \in 1..NLoc(st.grid.dim, et)} : a \in Nodes(st)}
      S == SeqOf(K)
      F == TLCEval([x \in K |-> (CHOOSE n \in 1..Len(S) : S[n] = x) - 1])
  IN TLCEval([a \in Nodes(st) |-> [i \in 1..NLoc(st.grid.dim, et) |-> F[Key(st, et, a, i)]]])
OnSide(st, et, a, j, x) ==      \* fine position x lies on side j of a, up to a period
  LET s == Side(st, a, j)  m == Fine(2, et)  u == [k \in 1..2 |-> s[1][k] * m]  w == [k \in 1..2 |-> s[2][k] * m] IN
  \E d \in Disp(st.grid) : OnSegment(<<u, w>>, [k \in 1..2 |-> x[k] + d[k] * m])
DofLaws(st0, et) ==
  LET st == [st0 EXCEPT !.et = et, !.num = CanonNum(st0, et)] IN
  /\ SharedExactly(st, st.num)
  \* positions of children and parents agree where they coincide: a split adds nodes only inside the parent
  /\ \A a \in Nodes(st) : Degree(et) > 0 /\ HasKids(st, a) =>
       \A i \in 1..NL(st) : (\E b \in Kids(st, a), j \in 1..NL(st) : NodePos(st, et, b, j) = NodePos(st, et, a, i))
  /\ st.grid.dim = 2 /\ ~Torn(et) /\ Balanced(st, "") =>
       \* hanging nodes, geometrically: nodes of a leaf on a side of another leaf without being its nodes
       /\ HangDofs(st, "") =
            UNION {{st.num[b][i] : i \in {n \in 1..NL(st) :
                      /\ \E j \in 0..3 : OnSide(st, et, a, j, NodePos(st, et, b, n))
                      /\ st.num[b][n] \notin Range(st.num[a])}} : <<a, b>> \in LeafSet(st, "") \X LeafSet(st, "")}
       \* a node constrained from two sides has one set of supports; supports are not constrained by the same side
       /\ \A h, k \in HangAt(st, "") : h[1] = k[1] => HangRow(st, h) = HangRow(st, k)
       /\ \A h \in HangAt(st, "") : LET T == SeqOf(HangRow(st, h)) IN RSumSeq([i \in 1..Len(T) |-> T[i][2]]) = R1
================================================================================
