------------------------------ MODULE ForestGen ------------------------------
(* Bounded state graph of Forest: model checks the laws of properties F01-F04 *)
(* and prints one behaviour (history of operations) per explored transition.  *)
EXTENDS Forest, Json, IOUtils

Cfg == JsonDeserialize(IOEnv.CFG)
Flags == Range(Cfg.flags)
FlagsN == Flags \cup {""}
Has(x) == x \in Range(Cfg.ops)

VARIABLES st, hist, ini
vars == <<st, hist, ini>>

Structural(s) ==
  (IF Has("split") THEN {[o |-> "split", a |-> a] : a \in
        {b \in Nodes(s) : s.nodes[b].reg /\ ~HasKids(s, b) /\ Depth(b) < Cfg.maxdepth}} ELSE {})
  \cup (IF Has("splitn") THEN {[o |-> "splitn", a |-> a, n |-> 2] : a \in
        {b \in Nodes(s) : ~s.nodes[b].reg /\ s.nodes[b].n = 0 /\ Depth(b) < Cfg.maxdepth}} ELSE {})
  \cup (IF Has("add_child") THEN {[o |-> "add_child", a |-> a] : a \in
        {b \in Nodes(s) : ~s.nodes[b].reg /\ s.nodes[b].n < 3 /\ Depth(b) < Cfg.maxdepth}} ELSE {})
  \cup (IF Has("remove") THEN {[o |-> "remove", a |-> a] : a \in {b \in Nodes(s) : ~IsRoot(b)}} ELSE {})
  \cup (IF Has("delete_children") THEN {[o |-> "delete_children", a |-> a] : a \in Nodes(s)} ELSE {})
  \cup (IF Has("delete_child") THEN {[o |-> "delete_child", a |-> Parent(a), i |-> a[Len(a)]] :
                              a \in {b \in Nodes(s) : ~IsRoot(b)}} ELSE {})
  \cup (IF Has("add_tree") /\ s.nt < 3 /\ ~s.free THEN
          {[o |-> "add_tree", reg |-> TRUE, n |-> 2, pre |-> p] : p \in {<<>>, << <<>> >>}} ELSE {})
  \cup (IF Has("remove_tree") /\ s.nt > 1 THEN {[o |-> "remove_tree", i |-> i] : i \in 0..(s.nt-1)} ELSE {})
Marking(s) ==
  (IF Has("mark") THEN {[o |-> "mark", a |-> a, f |-> f, rec |-> r] :
        a \in Nodes(s), f \in Flags, r \in Range(Cfg.recs)} ELSE {})
  \cup (IF Has("unmark") THEN {[o |-> "unmark", a |-> a, f |-> f, rec |-> r] :
        a \in Nodes(s), f \in Flags, r \in Range(Cfg.recs)} ELSE {})
  \cup (IF Has("unmark_all") THEN {[o |-> "unmark_all", a |-> a, rec |-> r] :
        a \in Nodes(s), r \in Range(Cfg.recs)} ELSE {})
  \cup (IF Has("record") THEN {[o |-> "record", f |-> f] : f \in Flags} ELSE {})
  \cup (IF Has("root_subtrees") THEN {[o |-> "root_subtrees", f |-> f] : f \in Flags} ELSE {})
  \cup (IF Has("make_rooted") THEN {[o |-> "make_rooted", a |-> a, f |-> f] : a \in Roots(s), f \in Flags} ELSE {})
DeepEnough(s, sf) == \A a \in LeafSet(s, sf) : Depth(a) < Cfg.maxdepth
Adapting(s) ==
  (IF Has("refine") THEN
     {op \in {[o |-> "refine", sf |-> sf, rf |-> rf, nl |-> nl, clean |-> c] :
        sf \in {f \in FlagsN : DeepEnough(s, f)}, rf \in FlagsN, nl \in FlagsN, c \in {TRUE, FALSE}} :
        op.rf = "" \/ op.rf \notin {op.sf, op.nl}} ELSE {})
  \cup (IF Has("coarsen") THEN
     {op \in {[o |-> "coarsen", sf |-> sf, cf |-> cf, nl |-> nl, clean |-> c] :
        sf \in FlagsN, cf \in FlagsN, nl \in FlagsN, c \in {TRUE, FALSE}} :
        op.cf = "" \/ op.cf \notin {op.sf, op.nl}} ELSE {})
Ops(s) == Structural(s) \cup Marking(s) \cup Adapting(s)

Init == /\ ini \in 1..Len(Cfg.inits)
        /\ st = InitState(Cfg.inits[ini])
        /\ hist = <<>>
Next == /\ Len(hist) < Cfg.max
        /\ \E op \in Ops(st) :
              /\ st' = Apply(st, op)
              /\ hist' = Append(hist, op)
              /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
View == <<st, ini>>

(* ------------------------------- laws ---------------------------------- *)
StructInv ==
  /\ \A a \in Nodes(st) : ~IsRoot(a) =>
        /\ Parent(a) \in Nodes(st)
        /\ a[Len(a)] \in 0..(st.nodes[Parent(a)].n - 1)
  /\ Roots(st) = {<<i - 1>> : i \in 1..st.nt}
TraversalInv ==
  \A m \in {"d", "b"} : LET s == TravAll(st, <<>>, m) IN
     /\ Len(s) = Cardinality(Nodes(st))
     /\ Range(s) = Nodes(st)
     /\ \A i, j \in 1..Len(s) : Prefix(s[i], s[j]) => i <= j
     /\ m = "b" => \A i \in 1..(Len(s)-1) : Depth(s[i]) <= Depth(s[i+1])
PhysLeaves == {a \in Nodes(st) : ~HasKids(st, a)}
\* the leaves of a well rooted submesh partition the finest leaves
PartitionInv ==
  \A f \in FlagsN : WellRooted(st, f) =>
     \A x \in PhysLeaves : Cardinality({a \in LeafSet(st, f) : Prefix(a, x)}) = 1
ClosureInv ==
  \A f \in Flags : LET s2 == RootSubtrees(st, f) IN
     /\ WellRooted(s2, f)
     /\ RootSubtrees(s2, f) = s2
LastOp == hist'[Len(hist')]
Touched(op) ==
  CASE op.o = "refine" -> {op.sf, op.rf, op.nl}
    [] op.o = "coarsen" -> {op.sf, op.cf, op.nl}
    [] op.o \in {"mark", "unmark", "record", "root_subtrees", "make_rooted"} -> {op.f}
    [] op.o = "unmark_all" -> Flags
    [] OTHER -> {}
Deleting(op) == op.o \in {"remove", "delete_children", "delete_child", "remove_tree"}
                \/ (op.o = "coarsen" /\ op.sf = "" /\ op.nl = "")
\* other submeshes are not affected by an operation that does not name them
PersistStep ==
  [][ (Len(hist') > Len(hist) /\ ~Deleting(LastOp)) =>
        \A f \in Flags \ Touched(LastOp) :
           /\ {a \in Nodes(st) : Marked(st, a, f)} = {a \in Nodes(st') : Marked(st', a, f)}
           /\ LeafSet(st, f) = LeafSet(st', f) ]_vars
RefineStep ==
  [][ (Len(hist') > Len(hist) /\ LastOp.o = "refine") =>
        /\ Nodes(st) \subseteq Nodes(st')
        /\ LastOp.nl # "" => WellRooted(st', LastOp.nl)
        /\ (LastOp.nl = "" /\ LastOp.sf # "" /\ LastOp.sf # LastOp.rf) => WellRooted(st', LastOp.sf)
        /\ (LastOp.nl # "" /\ LastOp.nl # LastOp.rf /\ WellRooted(st, LastOp.nl)) =>
               ContainedIn(st', LastOp.nl, LastOp.sf) ]_vars
RestoreStep ==      \* full refinement followed by full coarsening
  [][ LET s1 == Refine(st, "", "", "", TRUE)
      IN LeafSet(Coarsen(s1, "", "", "", TRUE), "") = LeafSet(st, "") ]_vars
=============================================================================
