-------------------------------- MODULE Mesh --------------------------------
(***************************************************************************)
(* Adaptively refined meshes of src/mesh.py (Interval, QuadCell, Mesh1D,   *)
(* Mesh2D, QuadMesh): geometry, half-edge topology, periodicity, balance,  *)
(* neighbours, point location, boundary and regions.                       *)
(*                                                                         *)
(* The cells are the nodes of a forest (module Forest); the state has the  *)
(* further fields                                                          *)
(*   grid : [dim, v (points), c (corner indices per root cell), per        *)
(*           (period per coordinate, 0 = none), scale, rect]               *)
(*   rt   : twin of each root side (geometric)                             *)
(*   cor  : corners of every cell, as integers (coordinate * scale)        *)
(*   vm   : set of <<point, flag>>       (marked vertices)                 *)
(*   hm   : set of <<cell, side, flag>>  (marked half-edges)               *)
(* A side is <<cell, j>>: the half-edge from corner j to corner j+1.       *)
(***************************************************************************)
EXTENDS Forest

NoSide == <<NoneAddr, -1>>
Mid(p, q) == [k \in DOMAIN p |-> (p[k] + q[k]) \div 2]
Plus(p, q) == [k \in DOMAIN p |-> p[k] + q[k]]
Minus(p, q) == [k \in DOMAIN p |-> p[k] - q[k]]
Mod(a, n) == a % n

(* ------------------------------ geometry ------------------------------- *)
RootCorners(g, r) ==
  LET c == g.c[r + 1] IN
  [i \in 1..Len(c) |-> [k \in 1..g.dim |-> g.scale * g.v[c[i] + 1][k]]]
\* number of children of the intervals of a grid (2 in every Mesh1D)
NCh(g) == IF "nch" \in DOMAIN g THEN g.nch ELSE 2
\* corners of child k (of n, in 1D) of a cell with corners P
ChildCorners(P, k, n) ==
  IF Len(P) = 2
  THEN LET x(i) == <<P[1][1] + i * ((P[2][1] - P[1][1]) \div n)>> IN <<x(k), x(k + 1)>>
  ELSE LET ctr == [x \in 1..2 |-> (P[1][x] + P[2][x] + P[3][x] + P[4][x]) \div 4]
           at(i) == P[(i % 4) + 1]
       IN [i \in 1..4 |->
             LET j == (i - 1 + 4 - k) % 4 IN
             CASE j = 0 -> at(k)
               [] j = 1 -> Mid(at(k), at(k + 1))
               [] j = 2 -> ctr
               [] j = 3 -> Mid(at(k + 3), at(k))]
RECURSIVE Corners(_, _)
Corners(g, a) == IF IsRoot(a) THEN RootCorners(g, a[1])
                 ELSE ChildCorners(Corners(g, Parent(a)), a[Len(a)], NCh(g))
Cor(st, a) == st.cor[a]
NC(st, a) == Len(st.cor[a])
\* twice the area (2D) or the length (1D)
RECURSIVE Shoelace(_, _)
Shoelace(C, i) ==
  IF i > Len(C) THEN 0
  ELSE LET p == C[i]  q == C[(i % Len(C)) + 1]
       IN p[1] * q[2] - q[1] * p[2] + Shoelace(C, i + 1)
Size(C) == IF Len(C) = 2 THEN C[2][1] - C[1][1] ELSE Shoelace(C, 1)
RECURSIVE SumSize(_, _)
SumSize(st, S) == IF S = {} THEN 0
                  ELSE LET a == CHOOSE a \in S : TRUE
                       IN Size(Cor(st, a)) + SumSize(st, S \ {a})
Side(st, a, j) == <<st.cor[a][j + 1], st.cor[a][((j + 1) % NC(st, a)) + 1]>>
SideIdx(st, a) == 0..(NC(st, a) - 1)
SidesOf(st, S) == {<<a, j>> : a \in S, j \in 0..3} \cap
                  UNION {{<<a, j>> : j \in SideIdx(st, a)} : a \in S}
Verts(st, S) == UNION {Range(st.cor[a]) : a \in S}
\* axis parallel rectangle with side 0 along the first axis or any quarter turn
IsRect(C) ==
  /\ Len(C) = 4
  /\ \A i \in 1..4 : LET u == Minus(C[(i % 4) + 1], C[i])
                         w == Minus(C[((i + 1) % 4) + 1], C[(i % 4) + 1])
                     IN /\ u[1] * w[1] + u[2] * w[2] = 0
                        /\ u[1] = 0 \/ u[2] = 0

(* ------------------------------ topology ------------------------------- *)
Disp(g) == {<<i * g.per[1] * g.scale, j * g.per[2] * g.scale>> :
              i \in (IF g.per[1] = 0 THEN {0} ELSE {-1, 0, 1}),
              j \in (IF g.per[2] = 0 THEN {0} ELSE {-1, 0, 1})}
\* geometric twin: same level, same edge reversed, up to one period
GeoTwins(st, a, j) ==
  LET s == Side(st, a, j) IN
  {<<b, k>> \in SidesOf(st, {b \in Nodes(st) : Len(b) = Len(a)}) :
     \E d \in Disp(st.grid) : Side(st, b, k) = <<Plus(s[2], d), Plus(s[1], d)>>}
RootTwins(st) ==
  [x \in SidesOf(st, Roots(st)) |->
     LET T == GeoTwins(st, x[1], x[2]) IN IF T = {} THEN NoSide ELSE CHOOSE t \in T : TRUE]
\* the same relation, computed along the hierarchy
RECURSIVE Twin(_, _, _)
Twin(st, a, j) ==
  IF IsRoot(a) THEN st.rt[<<a, j>>]
  ELSE LET p == Parent(a)
           k == a[Len(a)]
           At(b, m, s) == IF b # NoneAddr /\ Append(b, m % 4) \in Nodes(st)
                          THEN <<Append(b, m % 4), s % 4>> ELSE NoSide
       IN CASE j = k -> LET t == Twin(st, p, k) IN At(t[1], t[2] + 1, t[2])
            [] j = (k + 3) % 4 -> LET t == Twin(st, p, j) IN At(t[1], t[2], t[2])
            [] j = (k + 1) % 4 -> At(p, k + 1, k + 3)
            [] j = (k + 2) % 4 -> At(p, k + 3, k)
\* half-edge children of side j of a split cell: first and second half
KidSides(a, j) == << <<Append(a, j), j>>, <<Append(a, (j + 1) % 4), j>> >>
IsPeriodicSide(st, a, j) ==
  LET t == Twin(st, a, j)
  IN t # NoSide /\ Side(st, t[1], t[2])[1] # Side(st, a, j)[2]
OnDomainBoundary(st, a, j) == Twin(st, a, j) = NoSide
                              /\ \A b \in StrictAnc(a) : TRUE
\* a side lies on the domain boundary iff the root side containing it has no twin
RECURSIVE RootSide(_, _)
RootSide(a, j) ==          \* NoSide if the side is interior to the root cell
  IF IsRoot(a) THEN <<a, j>>
  ELSE LET k == a[Len(a)] IN
       IF j = k \/ j = (k + 3) % 4 THEN RootSide(Parent(a), j) ELSE NoSide
IsBoundarySide(st, a, j) ==
  LET r == RootSide(a, j) IN r # NoSide /\ st.rt[r] = NoSide

(* ------------------------------- balance ------------------------------- *)
InSub(st, a, f) == f = "" \/ Marked(st, a, f)
TooCoarse(st, f, a) ==
  \E j \in 0..3 :
    LET t == Twin(st, a, j) IN
    /\ t # NoSide
    /\ InSub(st, t[1], f)
    /\ \E i \in {t[2], (t[2] + 1) % 4} :
         LET c == Append(t[1], i) IN
         /\ c \in Nodes(st) /\ InSub(st, c, f)
         /\ FKids(st, c, f) # {}
Balanced(st, f) == \A a \in LeafSet(st, f) : ~TooCoarse(st, f, a)
Refresh(s) == [s EXCEPT !.cor = [a \in Nodes(s) |->
                 IF a \in DOMAIN s.cor THEN s.cor[a] ELSE Corners(s.grid, a)],
                        !.hm = {h \in @ : h[1] \in Nodes(s)},
                        !.vm = IF @ = {} THEN {} ELSE
                               LET V == UNION {Range(Corners(s.grid, a)) : a \in Nodes(s)} IN {v \in @ : v[1] \in V}]
SplitInSub(st, S, f) ==
  LET kids == UNION {{Append(a, i) : i \in 0..(st.nodes[a].n - 1)} : a \in S}
      nd == [b \in Nodes(st) \cup kids |->
               IF b \in Nodes(st) THEN st.nodes[b]
               ELSE [fl |-> {}, reg |-> TRUE, n |-> st.nodes[Parent(b)].n]]
  IN Refresh(WithNodes(st, IF f = "" THEN nd ELSE AddFlag(nd, kids, f)))
RECURSIVE Balance(_, _)
Balance(st, f) ==
  LET T == {a \in LeafSet(st, f) : TooCoarse(st, f, a)}
  IN IF T = {} THEN st ELSE Balance(SplitInSub(st, T, f), f)

(* ------------------------------ neighbours ----------------------------- *)
NbrAcross(st, a, j, f) ==
  LET t == Twin(st, a, j) IN IF t # NoSide /\ InSub(st, t[1], f) THEN t[1] ELSE NoneAddr
\* cells met when rotating about corner i of a, anticlockwise (side i-1) or clockwise (side i)
RECURSIVE Rotate(_, _, _, _, _, _)
Rotate(st, a, c, i, ccw, acc) ==
  LET n == NC(st, c)
      t == IF ccw THEN Twin(st, c, (i + n - 1) % n) ELSE Twin(st, c, i)
  IN IF t = NoSide THEN [full |-> FALSE, s |-> acc]
     ELSE IF t[1] = a THEN [full |-> TRUE, s |-> acc]
     ELSE IF Len(acc) > 12 THEN [full |-> TRUE, s |-> acc]
     ELSE Rotate(st, a, t[1], IF ccw THEN t[2] ELSE (t[2] + 1) % NC(st, t[1]), ccw, Append(acc, t[1]))
VertexNbrs(st, a, i, f) ==
  LET r1 == Rotate(st, a, a, i, TRUE, <<>>)
      r2 == Rotate(st, a, a, i, FALSE, <<>>)
      s == IF r1.full THEN Range(r1.s) ELSE Range(r1.s) \cup Range(r2.s)
  IN {b \in s : InSub(st, b, f)}
\* 1D: the leaf of the submesh on the other side of an end point, or the
\* interval of the same level there
IvEnd(st, a, p) == IF p = 0 THEN st.cor[a][1] ELSE st.cor[a][2]
IvTouch(st, a, b, p) ==     \* b continues a across its end point p
  \E d \in (IF st.grid.per[1] = 0 THEN {0} ELSE {-1, 0, 1}) :
     IvEnd(st, b, 1 - p)[1] = IvEnd(st, a, p)[1] + d * st.grid.per[1] * st.grid.scale
IvNbr(st, a, p, f, lev) ==
  LET C == {b \in Nodes(st) : /\ IvTouch(st, a, b, p)
                              /\ IF lev THEN Len(b) = Len(a) /\ InSub(st, b, f)
                                 ELSE b \in LeafSet(st, f)}
  IN IF C = {} THEN NoneAddr ELSE CHOOSE b \in C : TRUE

(* --------------------------- point location ---------------------------- *)
Cross(p, q, x) == (q[1] - p[1]) * (x[2] - p[2]) - (x[1] - p[1]) * (q[2] - p[2])
Inside(C, x) ==
  IF Len(C) = 2 THEN C[1][1] <= x[1] /\ x[1] <= C[2][1]
  ELSE \A i \in 1..Len(C) : Cross(C[i], C[(i % Len(C)) + 1], x) >= 0
Between(a, b, x) == (a <= x /\ x <= b) \/ (b <= x /\ x <= a)
OnSegment(s, x) == /\ Cross(s[1], s[2], x) = 0
                   /\ Between(s[1][1], s[2][1], x[1])
                   /\ Between(s[1][2], s[2][2], x[2])
\* closed segments s and u have a common point
Orient(p, q, x) == LET c == Cross(p, q, x) IN IF c > 0 THEN 1 ELSE IF c < 0 THEN -1 ELSE 0
SegX(s, u) ==
  \/ OnSegment(s, u[1]) \/ OnSegment(s, u[2]) \/ OnSegment(u, s[1]) \/ OnSegment(u, s[2])
  \/ /\ Orient(s[1], s[2], u[1]) * Orient(s[1], s[2], u[2]) < 0
     /\ Orient(u[1], u[2], s[1]) * Orient(u[1], u[2], s[2]) < 0
CellX(st, a, u) == \/ Inside(st.cor[a], u[1]) \/ Inside(st.cor[a], u[2])
                   \/ \E j \in SideIdx(st, a) : SegX(Side(st, a, j), u)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
BBox(P, dim) == IF dim = 1 THEN <<SetMin({p[1] : p \in P}), SetMax({p[1] : p \in P})>>
                ELSE <<SetMin({p[1] : p \in P}), SetMax({p[1] : p \in P}),
                       SetMin({p[2] : p \in P}), SetMax({p[2] : p \in P})>>
RECURSIVE ConcatIdx(_)
ConcatIdx(bins) == IF bins = <<>> THEN <<>> ELSE Head(bins).i \o ConcatIdx(Tail(bins))
BinsOK(st, q, r) ==
  LET L == LeafSet(st, q.f)
      C == IF q.a = <<>> THEN Nodes(st) ELSE {q.a}
      out == \E n \in 1..Len(q.pts) : \A a \in (IF q.a = <<>> THEN Roots(st) ELSE {q.a}) :
                ~Inside(st.cor[a], q.pts[n])
  IN IF out THEN r.rej
     ELSE /\ ~r.rej
          /\ LET idx == ConcatIdx(r.bins) IN
             /\ Len(idx) = Len(q.pts)
             /\ Range(idx) = 0..(Len(q.pts) - 1)
          /\ \A b \in Range(r.bins) :
               /\ b.c \in L
               /\ (q.a # <<>>) => (Prefix(q.a, b.c) \/ Prefix(b.c, q.a))
               /\ \A n \in Range(b.i) : Inside(st.cor[b.c], q.pts[n + 1])
          /\ Cardinality({b.c : b \in Range(r.bins)}) = Len(r.bins)

(* --------------------------- boundary, regions ------------------------- *)
BndSides(st, sf) ==
  UNION {{<<a, j>> : j \in {k \in SideIdx(st, a) : IsBoundarySide(st, a, k)}} : a \in LeafSet(st, sf)}
\* segments: the boundary sides, each once, consecutive ones joined, none left to join
RECURSIVE ConcatSegs(_)
ConcatSegs(segs) == IF segs = <<>> THEN <<>> ELSE Head(segs) \o ConcatSegs(Tail(segs))
SegmentsOK(st, S, segs, chained) ==
  LET all == ConcatSegs(segs)
      first(g) == Side(st, g[1][1], g[1][2])[1]
      last(g) == Side(st, g[Len(g)][1], g[Len(g)][2])[2]
  IN /\ Range(all) = S /\ Len(all) = Cardinality(S)
     /\ chained =>
          /\ \A i \in 1..Len(segs) : segs[i] # <<>> /\
               \A k \in 1..(Len(segs[i]) - 1) :
                  Side(st, segs[i][k][1], segs[i][k][2])[2] = Side(st, segs[i][k+1][1], segs[i][k+1][2])[1]
          /\ \A i, k \in 1..Len(segs) : i # k => last(segs[i]) # first(segs[k])
Bnd1(st) == LET xs == {v[1] : v \in Verts(st, Roots(st))}      \* 1D end points
            IN {<<CHOOSE x \in xs : \A y \in xs : x <= y>>,
                <<CHOOSE x \in xs : \A y \in xs : x >= y>>}
RECURSIVE Pred(_, _, _)
Pred(g, p, x) ==      \* predicates in units of the root grid / 16
  CASE p.k = "le" -> 16 * x[p.c] <= p.v * g.scale
    [] p.k = "ge" -> 16 * x[p.c] >= p.v * g.scale
    [] p.k = "eq" -> 16 * x[p.c] = p.v * g.scale
    [] p.k = "and" -> Pred(g, p.l, x) /\ Pred(g, p.r, x)
    [] p.k = "or" -> Pred(g, p.l, x) \/ Pred(g, p.r, x)
    [] p.k = "not" -> ~Pred(g, p.l, x)
    [] p.k = "all" -> TRUE
PtsOf(st, s) == Range(Side(st, s[1], s[2]))
RegVerts(st, ob, sf) ==
  IF ~ob THEN Verts(st, LeafSet(st, sf))
  ELSE IF st.grid.dim = 1 THEN Bnd1(st)
  ELSE UNION {PtsOf(st, s) : s \in BndSides(st, sf)}
RegSides(st, ob, sf) ==
  IF ob THEN BndSides(st, sf) ELSE SidesOf(st, LeafSet(st, sf))
RegCells(st, ob, sf) ==
  IF ~ob THEN LeafSet(st, sf)
  ELSE IF st.grid.dim = 1 THEN {a \in LeafSet(st, sf) : Range(st.cor[a]) \cap Bnd1(st) # {}}
  ELSE {s[1] : s \in BndSides(st, sf)}
Sel(g, p, pts, strict) == IF strict THEN \A x \in pts : Pred(g, p, x) ELSE \E x \in pts : Pred(g, p, x)
MarkRegion(st, op) ==
  CASE op.et = "vertex" ->
         [st EXCEPT !.vm = @ \cup {<<x, op.f>> : x \in {y \in RegVerts(st, op.ob, op.sf) : Pred(st.grid, op.p, y)}}]
    [] op.et = "half_edge" ->
         [st EXCEPT !.hm = @ \cup {<<s[1], s[2], op.f>> :
              s \in {z \in RegSides(st, op.ob, op.sf) : Sel(st.grid, op.p, PtsOf(st, z), op.strict)}}]
    [] op.et = "cell" ->
         WithNodes(st, AddFlag(st.nodes,
              {a \in RegCells(st, op.ob, op.sf) : Sel(st.grid, op.p, Range(st.cor[a]), op.strict)}, op.f))
\* entities of a region, each with the cells it is reported for
Region(st, q) ==
  CASE q.et = "vertex" -> {x \in RegVerts(st, q.ob, q.sf) : q.f = "" \/ <<x, q.f>> \in st.vm}
    [] q.et = "half_edge" -> {s \in RegSides(st, q.ob, q.sf) : q.f = "" \/ <<s[1], s[2], q.f>> \in st.hm}
    [] q.et = "cell" -> {a \in RegCells(st, q.ob, q.sf) : q.f = "" \/ Marked(st, a, q.f)}
RegionPairs(st, q) ==
  CASE q.et = "vertex" ->
         UNION {{<<x, a>> : a \in {b \in LeafSet(st, q.sf) :
                   IF q.ob /\ st.grid.dim = 2
                   THEN \E s \in BndSides(st, q.sf) : s[1] = b /\ x \in PtsOf(st, s)
                   ELSE x \in Range(st.cor[b])}} : x \in Region(st, q)}
    [] q.et = "half_edge" -> {<<s, s[1]>> : s \in Region(st, q)}
    [] q.et = "cell" -> {<<a, a>> : a \in Region(st, q)}

(* ------------------------- operations and queries ---------------------- *)
MeshApply(st, op) ==
  CASE op.o = "balance" -> Balance(st, op.f)
    [] op.o = "mark_region" -> MarkRegion(st, op)
    [] OTHER -> Refresh(Apply(st, op))

AsSet(r, S) == Range(r) = S /\ Len(r) = Cardinality(S)
\* what a query must answer, printed when it does not
MExpect(st, q) ==
  CASE q.q = "nbr" -> NbrAcross(st, q.a, q.j, q.f)
    [] q.q = "vnbr" -> VertexNbrs(st, q.a, q.i, q.f)
    [] q.q = "inbr" -> IvNbr(st, q.a, q.p, q.f, q.lev)
    [] q.q = "balanced" -> Balanced(st, q.f)
    [] q.q = "bins" -> "one containing leaf for each point"
    [] q.q = "inside" -> [n \in 1..Len(q.pts) |-> Inside(st.cor[q.a], q.pts[n])]
    [] q.q = "onside" -> [n \in 1..Len(q.pts) |-> OnSegment(Side(st, q.a, q.j), q.pts[n])]
    [] q.q = "bnd" -> {s \in BndSides(st, q.sf) : q.f = "" \/ <<s[1], s[2], q.f>> \in st.hm}
    [] q.q = "dcbnd" -> {s \in SidesOf(st, Roots(st)) : st.rt[s] = NoSide}
    [] q.q = "dcpts" -> IF st.grid.dim = 1 THEN Bnd1(st)
                        ELSE {Side(st, s[1], s[2])[1] : s \in {z \in SidesOf(st, Roots(st)) : st.rt[z] = NoSide}}
    [] q.q = "dcnbr" -> IF st.grid.dim = 1
                        THEN LET b == IvNbr(st, q.a, q.j, "", TRUE) IN IF b = NoneAddr THEN -1 ELSE b[1]
                        ELSE LET t == st.rt[<<q.a, q.j>>] IN IF t = NoSide THEN -1 ELSE t[1][1]
    [] q.q = "bbox" -> BBox(IF q.a = <<>> THEN Verts(st, Roots(st)) ELSE Range(st.cor[q.a]), st.grid.dim)
    [] q.q = "normal" -> LET s == Side(st, q.a, q.j)  d == Minus(s[2], s[1])
                         IN <<d[2], -d[1], d[1] * d[1] + d[2] * d[2]>>
    [] q.q = "xseg" -> IF q.j = -1 THEN CellX(st, q.a, q.s) ELSE SegX(Side(st, q.a, q.j), q.s)
    [] q.q = "bndv" -> {Side(st, s[1], s[2])[1] : s \in
                          {z \in BndSides(st, q.sf) : q.f = "" \/ <<z[1], z[2], q.f>> \in st.hm}}
    [] q.q = "bndv1" -> Bnd1(st)
    [] q.q = "bndc1" -> RegCells(st, TRUE, q.sf)
    [] q.q = "region" -> IF q.rc THEN RegionPairs(st, q) ELSE Region(st, q)
    [] q.q = "size" -> SumSize(st, LeafSet(st, q.f))
    [] q.q = "periodic" -> \A c \in Range(q.cs) : st.grid.per[c + 1] # 0
    [] q.q = "vpair" -> IF st.grid.dim = 1
                        THEN {Plus(q.x, <<d * st.grid.per[1] * st.grid.scale>>) : d \in IF st.grid.per[1] = 0 THEN {} ELSE {-1, 1}}
                             \cap Verts(st, Nodes(st))
                        ELSE {Plus(q.x, d) : d \in Disp(st.grid) \ {<<0, 0>>}} \cap Verts(st, Nodes(st))
    [] OTHER -> Query(st, q)
IsSetQ(q) == q.q \in {"vnbr", "dcpts", "bndv", "bndv1", "bndc1", "region", "vpair"}
QOK(st, q, r) ==
  IF q.q = "bins" THEN BinsOK(st, q, r)
  ELSE IF q.q = "bnd" THEN SegmentsOK(st, MExpect(st, q), r, q.f = "")
  ELSE IF q.q = "dcbnd" THEN SegmentsOK(st, MExpect(st, q), r, TRUE)
  ELSE IF IsSetQ(q) THEN AsSet(r, MExpect(st, q))
  ELSE r = MExpect(st, q)

(* --------------------------- recorded topology ------------------------- *)
\* one record per cell: corners C, vertex identities V, twice the area ar, he: one
\* record per side
HeExpect(st, a, j) ==
  LET t == Twin(st, a, j)
      n == NC(st, a)
      split == HasKids(st, a)
  IN [tw |-> t[1], tj |-> t[2], nx |-> (j + 1) % n, pv |-> (j + n - 1) % n, own |-> TRUE,
      back |-> TRUE,
      kids |-> IF split THEN KidSides(a, j) ELSE <<>>,
      per |-> IsPeriodicSide(st, a, j) ]
GeoOK(st, d) ==
  /\ d.C = st.cor[d.a]
  /\ d.ar = Size(st.cor[d.a])
  /\ d.ar > 0
RectOK(st, d) == Len(st.cor[d.a]) = 4 => d.rect = IsRect(st.cor[d.a])
HeOK(st, d) ==
  st.grid.dim = 2 =>
  /\ Len(d.he) = NC(st, d.a)
  /\ \A j \in SideIdx(st, d.a) :
       LET h == d.he[j + 1]
       IN /\ [tw |-> h.tw, tj |-> h.tj, nx |-> h.nx, pv |-> h.pv, own |-> h.own, back |-> h.back,
              kids |-> h.kids, per |-> IsPeriodicSide(st, d.a, j)] = HeExpect(st, d.a, j)
          /\ <<h.b, h.h>> = Side(st, d.a, j)
PerOK(st, d) ==      \* periodic edges carry the mark and connect displaced edges
  st.grid.dim = 2 =>
  \A j \in SideIdx(st, d.a) :
     LET r == RootSide(d.a, j)
     IN /\ (r # NoSide /\ st.rt[r] # NoSide /\ IsPeriodicSide(st, r[1], r[2])) <=> d.he[j + 1].per
        /\ (<<d.he[j + 1].tw, d.he[j + 1].tj>> = Twin(st, d.a, j))
\* one vertex object per point
VertexOK(st, topo) ==
  LET P == UNION {{<<topo[i].V[k], topo[i].C[k]>> : k \in 1..Len(topo[i].C)} : i \in 1..Len(topo)}
  IN Cardinality({x[1] : x \in P}) = Cardinality(P) /\ Cardinality({x[2] : x \in P}) = Cardinality(P)

MeshMismatch(st, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE IF ~step.obs THEN {}
  ELSE IF ~NodesOK(st, step.dump)
  THEN {"set of cells: expected " \o ToString(Nodes(st)) \o " got "
         \o ToString({step.dump[i].a : i \in 1..Len(step.dump)})}
  ELSE (IF step.f THEN {"flags of " \o ToString(a) \o " expected " \o ToString(st.nodes[a].fl) :
                         a \in BadFlags(st, step.dump)} ELSE {})
   \cup (IF step.geo THEN {"geometry of " \o ToString(step.topo[i]) \o " expected " \o ToString(st.cor[step.topo[i].a]) :
                 i \in {k \in 1..Len(step.topo) : ~GeoOK(st, step.topo[k]) \/ ~RectOK(st, step.topo[k])}} ELSE {})
   \cup (IF step.geo /\ ~VertexOK(st, step.topo) THEN {"vertices are not shared exactly where points coincide"} ELSE {})
   \cup (IF step.top THEN {"half-edges of " \o ToString(step.topo[i]) \o " expected "
                           \o ToString([j \in 1..Len(step.topo[i].he) |-> HeExpect(st, step.topo[i].a, j - 1)]) :
                 i \in {k \in 1..Len(step.topo) : ~HeOK(st, step.topo[k])}} ELSE {})
   \cup (IF step.pr THEN {"periodic edges of " \o ToString(step.topo[i]) :
                 i \in {k \in 1..Len(step.topo) : ~PerOK(st, step.topo[k])}} ELSE {})
   \cup {"query " \o ToString(step.qs[i].q) \o " got " \o ToString(step.qs[i].r)
           \o " expected " \o ToString(MExpect(st, step.qs[i].q)) :
             i \in {k \in 1..Len(step.qs) : ~QOK(st, step.qs[k].q, step.qs[k].r)}}

(* ----------------------------- initial state --------------------------- *)
RECURSIVE PreSplits(_, _)
PreSplits(st, pre) == IF pre = <<>> THEN st ELSE PreSplits(Split(st, Head(pre)), Tail(pre))
MeshInit(init) ==
  LET g == init.grid
      nc == Len(g.c)
      s0 == [nodes |-> [a \in {<<i - 1>> : i \in 1..nc} |->
                [fl |-> {}, reg |-> TRUE, n |-> IF g.dim = 1 THEN NCh(g)
                                                ELSE IF Len(g.c[a[1] + 1]) = 4 THEN 4 ELSE 0]],
             nt |-> nc, free |-> FALSE, grid |-> g, vm |-> {}, hm |-> {},
             cor |-> [a \in {<<i - 1>> : i \in 1..nc} |-> RootCorners(g, a[1])], rt |-> <<>>]
      s1 == IF g.dim = 1 THEN s0 ELSE [s0 EXCEPT !.rt = RootTwins(s0)]
  IN Refresh(PreSplits(s1, init.pre))
=============================================================================
