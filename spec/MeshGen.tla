------------------------------- MODULE MeshGen -------------------------------
(* Bounded state graph of Mesh: model checks the laws of properties M01-M07   *)
(* and prints one behaviour (history of operations) per explored transition.  *)
EXTENDS Mesh, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.CFG)
Flags == Range(Cfg.flags)
FlagsN == Flags \cup {""}
Has(x) == x \in Range(Cfg.ops)

VARIABLES st, hist, ini,
          bal      \* all balanced refinements (sets of cells) of the root grid up to depth 2
vars == <<st, hist, ini, bal>>

Dim == st.grid.dim
Rooted(s) == {f \in FlagsN : f = "" \/ WellRooted(s, f)}
DeepEnough(s, sf) == \A a \in LeafSet(s, sf) : Depth(a) < Cfg.maxdepth
Ops(s) ==
  (IF Has("split") THEN {[o |-> "split", a |-> a] : a \in
        {b \in Nodes(s) : s.nodes[b].n > 0 /\ ~HasKids(s, b) /\ Depth(b) < Cfg.maxdepth}} ELSE {})
  \cup (IF Has("delete_children") THEN {[o |-> "delete_children", a |-> a] :
                                        a \in {b \in Nodes(s) : HasKids(s, b)}} ELSE {})
  \cup (IF Has("balance") /\ s.grid.dim = 2 THEN {[o |-> "balance", f |-> f] : f \in Rooted(s)} ELSE {})
  \cup (IF Has("record") THEN {[o |-> "record", f |-> f] : f \in Flags} ELSE {})
  \cup (IF Has("mrecord") THEN {[o |-> "record", f |-> f, m |-> TRUE] : f \in Flags} ELSE {})
  \cup (IF Has("mark") THEN {[o |-> "mark", a |-> a, f |-> f, rec |-> "no"] : a \in Nodes(s), f \in Flags} ELSE {})
  \cup (IF Has("refine") THEN
          {[o |-> "refine", sf |-> sf, rf |-> "", nl |-> nl, clean |-> TRUE] :
             sf \in {f \in Rooted(s) : DeepEnough(s, f)}, nl \in FlagsN} ELSE {})
  \cup (IF Has("submesh_coarsen") THEN
          {[o |-> "coarsen", sf |-> sf, cf |-> "", nl |-> "", clean |-> TRUE] : sf \in Rooted(s) \ {""}} ELSE {})
  \cup (IF Has("coarsen") THEN {[o |-> "coarsen", sf |-> "", cf |-> "", nl |-> "", clean |-> TRUE]} ELSE {})
  \cup (IF Has("mark_region") THEN Range(Cfg.regions) ELSE {})

(* all refinements of depth at most 2, as sets of cells *)
TreesOf(r, n) == {{<<r>>}} \cup
  {{<<r>>} \cup {<<r, i>> : i \in 0..(n-1)} \cup UNION {{<<r, i, j>> : j \in 0..(n-1)} : i \in K} : K \in SUBSET (0..(n-1))}
RECURSIVE Forests(_, _)
Forests(k, n) == IF k = 0 THEN {{}} ELSE {X \cup Y : X \in Forests(k-1, n), Y \in TreesOf(k-1, n)}
AsState(s, N) ==
  LET t == [s EXCEPT !.nodes = [a \in N |-> [fl |-> {}, reg |-> TRUE, n |-> 4]]]
  IN [t EXCEPT !.cor = [a \in N |-> Corners(s.grid, a)]]

Init == /\ ini \in 1..Len(Cfg.inits)
        /\ st = MeshInit(Cfg.inits[ini])
        /\ hist = <<>>
        /\ bal = IF Cfg.least THEN {N \in Forests(st.nt, 4) : Balanced(AsState(st, N), "")} ELSE {}
Next == /\ Len(hist) < Cfg.max
        /\ \E op \in Ops(st) :
              /\ st' = MeshApply(st, op)
              /\ hist' = Append(hist, op)
              /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED <<ini, bal>>
Spec == Init /\ [][Next]_vars
View == <<st, ini>>

(* ------------------------------- laws ---------------------------------- *)
LeafFlags == {f \in FlagsN : f = "" \/ (WellRooted(st, f) /\ \A r \in Roots(st) : Marked(st, r, f))}
\* M01: children tile their parent, leaves tile the domain
TileInv ==
  /\ \A a \in Nodes(st) : Size(st.cor[a]) > 0
  /\ \A a \in Nodes(st) : HasKids(st, a) =>
        LET K == {b \in Nodes(st) : b # <<>> /\ Len(b) = Len(a) + 1 /\ Prefix(a, b)} IN
        /\ SumSize(st, K) = Size(st.cor[a])
        /\ \A b \in K : \A x \in Range(st.cor[b]) : Inside(st.cor[a], x)
        /\ \A b \in K : Dim = 2 => st.cor[b][b[Len(b)] + 1] = st.cor[a][b[Len(b)] + 1]
  /\ \A f \in LeafFlags : SumSize(st, LeafSet(st, f)) = SumSize(st, Roots(st))
\* M02/M03: the hierarchical twin relation is the geometric one, and symmetric
TwinInv ==
  Dim = 2 =>
  \A x \in SidesOf(st, Nodes(st)) :
    LET t == Twin(st, x[1], x[2])  G == GeoTwins(st, x[1], x[2]) IN
    /\ IF t = NoSide THEN G = {} ELSE G = {t}
    /\ t # NoSide => Twin(st, t[1], t[2]) = x
    /\ t = NoSide => LET p == RootSide(x[1], x[2]) IN
          \/ p # NoSide /\ st.rt[p] = NoSide
          \/ \E b \in LeafSet(st, "") : Len(b) < Len(x[1])    \* not refined there
\* M07: a side lies on the domain boundary iff it lies on a root side without twin
BoundaryInv ==
  Dim = 2 =>
  LET R == {s \in SidesOf(st, Roots(st)) : st.rt[s] = NoSide} IN
  \A x \in SidesOf(st, Nodes(st)) :
    IsBoundarySide(st, x[1], x[2]) <=>
      \E s \in R : \A p \in PtsOf(st, x) : OnSegment(Side(st, s[1], s[2]), p)
\* M04: the balance test is the 2:1 rule on edges
SameSeg(s, u, d) == /\ OnSegment(u, Plus(s[1], d)) /\ OnSegment(u, Plus(s[2], d))
TwoToOne(f) ==
  LET L == LeafSet(st, f) IN
  \A a, b \in L : Len(b) > Len(a) + 1 =>
     ~\E i \in 0..3, j \in 0..3, d \in Disp(st.grid) :
         /\ SameSeg(Side(st, b, j), Side(st, a, i), d)
         /\ <<a, i>> # <<b, j>>
         /\ ~Prefix(a, b)
BalanceInv ==
  Dim = 2 =>
  \A f \in LeafFlags :
    /\ Balanced(st, f) <=> TwoToOne(f)
    /\ LET s2 == Balance(st, f) IN
       /\ Balanced(s2, f)
       /\ Nodes(st) \subseteq Nodes(s2)
       /\ Balance(s2, f) = s2
       /\ Balanced(st, f) => s2 = st
       /\ \A g \in Flags \ {f} : {a \in Nodes(st) : Marked(st, a, g)} = {a \in Nodes(s2) : Marked(s2, a, g)}
       /\ (f = "" /\ \A a \in Nodes(s2) : Len(a) <= 3) =>
             \A N \in bal : Nodes(st) \subseteq N => Nodes(s2) \subseteq N
\* M05: adjacency is symmetric; interval neighbours are unique
NbrInv ==
  IF Dim = 1
  THEN \A a \in Nodes(st), p \in {0, 1} :
         /\ LET b == IvNbr(st, a, p, "", TRUE) IN b # NoneAddr => IvNbr(st, b, 1 - p, "", TRUE) = a
         /\ \A f \in LeafFlags : a \in LeafSet(st, f) =>
              LET b == IvNbr(st, a, p, f, FALSE) IN
              /\ b # NoneAddr => b \in LeafSet(st, f) /\ IvNbr(st, b, 1 - p, f, FALSE) = a
              /\ b = NoneAddr <=> (st.grid.per[1] = 0 /\ IvEnd(st, a, p) \in Bnd1(st))
  ELSE \A a \in Nodes(st), i \in 0..3 :
         \A b \in VertexNbrs(st, a, i, "") :
            /\ Len(b) = Len(a)
            /\ \E k \in 0..3, d \in Disp(st.grid) : st.cor[b][k + 1] = Plus(st.cor[a][i + 1], d)
            /\ \E k \in 0..3 : a \in VertexNbrs(st, b, k, "")
\* M06: every point of the domain lies in a leaf of every submesh
LocInv ==
  \A f \in LeafFlags : \A a \in Nodes(st) :
     LET C == st.cor[a]
         ctr == IF Dim = 1 THEN Mid(C[1], C[2]) ELSE ChildCorners(C, 0, 2)[3]
         In == {b \in LeafSet(st, f) : Inside(st.cor[b], ctr)}
     IN /\ In # {}
        /\ a \in LeafSet(st, f) => In = {a}
=============================================================================
