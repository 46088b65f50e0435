------------------------------- MODULE Forest -------------------------------
(***************************************************************************)
(* Trees and forests of src/mesh.py (Tree, Forest): structure, flags,      *)
(* traversal, submesh rooting, flag driven refinement and coarsening.      *)
(*                                                                         *)
(* A state is a record                                                     *)
(*    nodes : function from addresses to [fl, reg, n]                      *)
(*            (flags carried, regular?, number of child slots)             *)
(*    nt    : number of trees                                              *)
(*    free  : TRUE if the single tree is free standing (not in a forest)   *)
(* An address is <<tree, pos_1, ..., pos_d>> (positions count from 0).     *)
(* Flags are strings; "" means "no flag given".                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Nodes(st) == DOMAIN st.nodes
Depth(a) == Len(a) - 1
IsRoot(a) == Len(a) = 1
Parent(a) == SubSeq(a, 1, Len(a) - 1)
Prefix(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]
ChildPos(st, a) == {i \in 0..(st.nodes[a].n - 1) : Append(a, i) \in Nodes(st)}
Kids(st, a) == {Append(a, i) : i \in ChildPos(st, a)}
HasKids(st, a) == \E i \in 0..(st.nodes[a].n - 1) : Append(a, i) \in Nodes(st)
Marked(st, a, f) == f \in st.nodes[a].fl
FKids(st, a, f) == IF f = "" THEN Kids(st, a)
                   ELSE {k \in Kids(st, a) : Marked(st, k, f)}
Roots(st) == {a \in Nodes(st) : IsRoot(a)}
StrictAnc(a) == {SubSeq(a, 1, i) : i \in 1..(Len(a) - 1)}
Descendants(st, a) == {b \in Nodes(st) : Prefix(a, b) /\ b # a}
Type(st, a) == IF IsRoot(a) THEN "ROOT" ELSE IF HasKids(st, a) THEN "BRANCH" ELSE "LEAF"

(* ----------------------------- traversal ------------------------------ *)
RECURSIVE ConcatAll(_)
ConcatAll(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o ConcatAll(Tail(ss))

KidSeq(st, a) == SelectSeq([i \in 1..st.nodes[a].n |-> Append(a, i - 1)],
                           LAMBDA b : b \in Nodes(st))
RECURSIVE DFS(_, _)
DFS(st, a) == LET k == KidSeq(st, a)
              IN <<a>> \o ConcatAll([i \in 1..Len(k) |-> DFS(st, k[i])])
RECURSIVE BFSFrom(_, _)
BFSFrom(st, level) ==
  IF level = <<>> THEN <<>>
  ELSE level \o BFSFrom(st, ConcatAll([i \in 1..Len(level) |-> KidSeq(st, level[i])]))

RootSeq(st) == [i \in 1..st.nt |-> <<i - 1>>]
TravAll(st, root, mode) ==         \* root = <<>> : the whole forest
  LET rs == IF root = <<>> THEN RootSeq(st) ELSE <<root>>
  IN IF mode = "d" THEN ConcatAll([i \in 1..Len(rs) |-> DFS(st, rs[i])])
     ELSE BFSFrom(st, rs)
Trav(st, root, f, mode) ==
  LET s == TravAll(st, root, mode)
  IN IF f = "" THEN s ELSE SelectSeq(s, LAMBDA a : Marked(st, a, f))
LeafSeq(st, root, f, sf, mode) ==
  LET s == SelectSeq(Trav(st, root, sf, mode), LAMBDA a : FKids(st, a, sf) = {})
  IN IF f = "" THEN s ELSE SelectSeq(s, LAMBDA a : Marked(st, a, f))
LeafSet(st, sf) ==
  {a \in Nodes(st) : (sf = "" \/ Marked(st, a, sf)) /\ FKids(st, a, sf) = {}}

Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SetMax(_)
SetMax(S) == LET x == CHOOSE x \in S : TRUE
             IN IF S = {x} THEN x ELSE Max2(x, SetMax(S \ {x}))
TreeDepth(st, a) == SetMax({Depth(b) : b \in {a} \cup Descendants(st, a)})
\* deepest node reachable through flagged children only
RECURSIVE FTreeDepth(_, _, _)
FTreeDepth(st, a, f) ==
  SetMax({Depth(a)} \cup {FTreeDepth(st, k, f) : k \in FKids(st, a, f)})

NoneAddr == <<-1>>
NearestAnc(st, a, f) ==
  IF f = "" THEN a
  ELSE LET C == {b \in {a} \cup StrictAnc(a) : Marked(st, b, f)}
       IN IF C = {} THEN NoneAddr ELSE CHOOSE b \in C : \A c \in C : Len(c) <= Len(b)
GetParent(st, a, f) ==
  IF IsRoot(a) THEN NoneAddr
  ELSE IF f = "" THEN Parent(a) ELSE NearestAnc(st, Parent(a), f)

(* --------------------------- submesh rooting --------------------------- *)
\* smallest flagged set containing the roots, closed under ancestors and siblings
RootClosure(st, f) ==
  LET M == {a \in Nodes(st) : Marked(st, a, f)}
      A == UNION {StrictAnc(a) : a \in M}
  IN Roots(st) \cup M \cup A \cup UNION {Kids(st, a) : a \in A}
WellRooted(st, f) ==
  f = "" \/ {a \in Nodes(st) : Marked(st, a, f)} = RootClosure(st, f)
TreeRooted(st, r, f) ==
  \A a \in Nodes(st) : (Prefix(r, a) /\ Marked(st, a, f)) =>
        \A b \in StrictAnc(a) : Marked(st, b, f)
ContainedIn(st, tf, rf) ==
  \/ tf = "" \/ tf = rf
  \/ \A a \in LeafSet(st, tf) : NearestAnc(st, a, rf) # NoneAddr

AddFlag(nd, S, f) == [a \in DOMAIN nd |->
    IF a \in S THEN [nd[a] EXCEPT !.fl = @ \cup {f}] ELSE nd[a]]
DelFlag(nd, S, f) == [a \in DOMAIN nd |->
    IF a \in S THEN [nd[a] EXCEPT !.fl = @ \ {f}] ELSE nd[a]]
WithNodes(st, nd) == [st EXCEPT !.nodes = nd]
RootSubtrees(st, f) == WithNodes(st, AddFlag(st.nodes, RootClosure(st, f), f))

(* ------------------------------ structure ------------------------------ *)
AddNodes(st, S, reg, n) ==
  WithNodes(st, [a \in Nodes(st) \cup S |->
      IF a \in S THEN [fl |-> {}, reg |-> reg, n |-> n] ELSE st.nodes[a]])
DropNodes(st, S) == WithNodes(st, [a \in Nodes(st) \ S |-> st.nodes[a]])
SubTree(st, a) == {b \in Nodes(st) : Prefix(a, b)}
Split(st, a) == LET n == st.nodes[a].n
                IN AddNodes(st, {Append(a, i) : i \in 0..(n-1)}, TRUE, n)
AddChild(st, a) ==
  LET n == st.nodes[a].n
      s1 == AddNodes(st, {Append(a, n)}, FALSE, 0)
  IN [s1 EXCEPT !.nodes[a].n = n + 1]
RECURSIVE AddChildren(_, _, _)
AddChildren(st, a, k) == IF k = 0 THEN st ELSE AddChildren(AddChild(st, a), a, k - 1)

(* -------------------------- refine and coarsen ------------------------- *)
Refine(st0, sf, rf, nl, clean) ==
  LET s1 == IF sf = "" THEN st0 ELSE RootSubtrees(st0, sf)
      leaves == LeafSet(s1, sf)
      \* the new label is applied first, so a refinement flag equal to the
      \* new label selects every leaf
      sel == {a \in leaves : rf = "" \/ rf = nl \/ Marked(s1, a, rf)}
      fresh == {a \in sel : ~HasKids(s1, a)}
      newkids == UNION {{Append(a, i) : i \in 0..(s1.nodes[a].n - 1)} : a \in fresh}
      s2 == WithNodes(s1, [b \in Nodes(s1) \cup newkids |->
              IF b \in Nodes(s1) THEN s1.nodes[b]
              ELSE [fl |-> {}, reg |-> TRUE, n |-> s1.nodes[Parent(b)].n]])
      kids == UNION {Kids(s2, a) : a \in sel}
      n3 == IF nl # "" THEN AddFlag(s2.nodes, leaves, nl) ELSE s2.nodes
      n4 == IF nl # "" THEN AddFlag(n3, kids, nl)
            ELSE IF sf # "" THEN AddFlag(n3, kids, sf) ELSE n3
      n5 == IF rf # "" /\ clean THEN DelFlag(n4, sel, rf) ELSE n4
      s5 == WithNodes(s2, n5)
  IN IF nl # "" THEN RootSubtrees(s5, nl) ELSE s5

RECURSIVE CoarsenNode(_, _, _, _, _, _)
RECURSIVE CoarsenSeq(_, _, _, _, _, _)
CoarsenNode(st, a, sf, cf, nl, clean) ==
  IF sf # "" /\ ~Marked(st, a, sf) THEN st
  ELSE
  LET hit == IF cf # "" THEN Marked(st, a, cf)
             ELSE /\ FKids(st, a, sf) # {}
                  /\ \A k \in Kids(st, a) : ~HasKids(st, k)
      s1 == IF nl # "" THEN WithNodes(st, AddFlag(st.nodes, {a}, nl)) ELSE st
      s2 == IF ~hit THEN s1
            ELSE IF nl # "" THEN s1
            ELSE IF sf # "" THEN WithNodes(s1, DelFlag(s1.nodes, Descendants(s1, a), sf))
            ELSE DropNodes(s1, Descendants(s1, a))
      s3 == IF hit /\ cf # "" /\ clean THEN WithNodes(s2, DelFlag(s2.nodes, {a}, cf)) ELSE s2
  IN IF hit THEN s3
     ELSE IF FKids(s1, a, sf) = {} THEN s1
     ELSE CoarsenSeq(s1, KidSeq(s1, a), sf, cf, nl, clean)
CoarsenSeq(st, ks, sf, cf, nl, clean) ==
  IF ks = <<>> THEN st
  ELSE CoarsenSeq(CoarsenNode(st, Head(ks), sf, cf, nl, clean), Tail(ks), sf, cf, nl, clean)
Coarsen(st0, sf, cf, nl, clean) ==
  LET s1 == IF sf = "" THEN st0 ELSE RootSubtrees(st0, sf)
  IN CoarsenSeq(s1, RootSeq(s1), sf, cf, nl, clean)

(* ------------------------------ operations ----------------------------- *)
MarkSet(st, a, rec) ==
  IF rec = "down" THEN SubTree(st, a)
  ELSE IF rec = "up" THEN {a} \cup StrictAnc(a) ELSE {a}

\* a new tree is described by [n, reg, pre]: pre is a sequence of addresses
\* (relative to the new tree, root = <<>>) that are split before planting
RECURSIVE PreSplit(_, _, _)
PreSplit(st, r, pre) ==
  IF pre = <<>> THEN st ELSE PreSplit(Split(st, r \o Head(pre)), r, Tail(pre))
AddTree(st, op) ==
  LET r == <<st.nt>>
      s1 == [st EXCEPT !.nt = @ + 1,
               !.nodes = [a \in Nodes(st) \cup {r} |->
                  IF a = r THEN [fl |-> {}, reg |-> op.reg, n |-> IF op.reg THEN op.n ELSE 0]
                  ELSE st.nodes[a]]]
  IN PreSplit(s1, r, op.pre)
RemoveTree(st, i) ==
  LET sh(a) == IF a[1] > i THEN <<a[1] - 1>> \o Tail(a) ELSE a
      un(b) == IF b[1] >= i THEN <<b[1] + 1>> \o Tail(b) ELSE b
      keep == {a \in Nodes(st) : a[1] # i}
  IN [st EXCEPT !.nt = @ - 1, !.nodes = [b \in {sh(a) : a \in keep} |-> st.nodes[un(b)]]]

Apply(st, op) ==
  CASE op.o = "split" -> Split(st, op.a)
    [] op.o = "splitn" -> AddChildren(st, op.a, op.n)
    [] op.o = "add_child" -> AddChild(st, op.a)
    [] op.o = "remove" -> DropNodes(st, SubTree(st, op.a))
    [] op.o = "delete_children" -> DropNodes(st, Descendants(st, op.a))
    [] op.o = "delete_child" -> DropNodes(st, SubTree(st, Append(op.a, op.i)))
    [] op.o = "mark" -> WithNodes(st, AddFlag(st.nodes, MarkSet(st, op.a, op.rec), op.f))
    [] op.o = "unmark" -> WithNodes(st, DelFlag(st.nodes, MarkSet(st, op.a, op.rec), op.f))
    [] op.o = "unmark_all" -> WithNodes(st, [a \in Nodes(st) |->
           IF a \in MarkSet(st, op.a, op.rec) THEN [st.nodes[a] EXCEPT !.fl = {}] ELSE st.nodes[a]])
    [] op.o = "record" -> WithNodes(st, AddFlag(st.nodes, Nodes(st), op.f))
    [] op.o = "root_subtrees" -> RootSubtrees(st, op.f)
    [] op.o = "make_rooted" -> WithNodes(st, AddFlag(st.nodes,
           UNION {StrictAnc(a) : a \in {b \in SubTree(st, SubSeq(op.a, 1, 1)) : Marked(st, b, op.f)}}, op.f))
    [] op.o = "refine" -> Refine(st, op.sf, op.rf, op.nl, op.clean)
    [] op.o = "coarsen" -> Coarsen(st, op.sf, op.cf, op.nl, op.clean)
    [] op.o = "add_tree" -> AddTree(st, op)
    [] op.o = "remove_tree" -> RemoveTree(st, op.i)
    [] op.o = "nop" -> st

(* ------------------------------- queries ------------------------------- *)
Range(s) == {s[i] : i \in 1..Len(s)}
AddrOrNone(st, a) == IF a \in Nodes(st) THEN a ELSE NoneAddr
Query(st, q) ==
  CASE q.q = "trav" -> Trav(st, q.a, q.f, q.m)
    [] q.q = "leaves" -> LeafSeq(st, q.a, q.f, q.sf, q.m)
    [] q.q = "depth" -> FTreeDepth(st, q.a, q.f)
    [] q.q = "fdepth" -> SetMax({Depth(b) : b \in Nodes(st)})
    [] q.q = "find" -> IF q.a = <<>> THEN <<>> ELSE AddrOrNone(st, q.a)
    [] q.q = "tfind" -> AddrOrNone(st, q.b)
    [] q.q = "near" -> NearestAnc(st, q.a, q.f)
    [] q.q = "parent" -> GetParent(st, q.a, q.f)
    [] q.q = "hasparent" -> ~IsRoot(q.a) /\ (q.f = "" \/ Marked(st, Parent(q.a), q.f))
    [] q.q = "root" -> <<q.a[1]>>
    [] q.q = "kids" -> LET s == SelectSeq(KidSeq(st, q.a), LAMBDA k : q.f = "" \/ Marked(st, k, q.f))
                       IN IF q.rev THEN [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] ELSE s
    [] q.q = "fkids" -> LET s == SelectSeq(RootSeq(st), LAMBDA k : q.f = "" \/ Marked(st, k, q.f))
                        IN IF q.rev THEN [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] ELSE s
    [] q.q = "haskids" -> FKids(st, q.a, q.f) # {}
    [] q.q = "haskid" -> Append(q.a, q.i) \in FKids(st, q.a, q.f)
    [] q.q = "fhaskids" -> \E r \in Roots(st) : q.f = "" \/ Marked(st, r, q.f)
    [] q.q = "marked" -> IF q.f = "" THEN st.nodes[q.a].fl # {} ELSE Marked(st, q.a, q.f)
    [] q.q = "contains" -> Prefix(q.a, q.b)
    [] q.q = "rooted" -> WellRooted(st, q.f)
    [] q.q = "trooted" -> TreeRooted(st, SubSeq(q.a, 1, 1), q.f)
    [] q.q = "within" -> ContainedIn(st, q.f, q.sf)

\* what one full dump of the structure must report: a is the path along which
\* the node was reached, ad the address it reports itself
DumpRec(st, a) == [a |-> a, ad |-> a, ty |-> Type(st, a), d |-> Depth(a), n |-> st.nodes[a].n,
                   ch |-> [i \in 1..Cardinality(ChildPos(st, a)) |->
                            LET k == KidSeq(st, a)[i] IN k[Len(k)]],
                   pos |-> IF IsRoot(a) /\ st.free THEN -1 ELSE a[Len(a)],
                   par |-> IF IsRoot(a) THEN NoneAddr ELSE Parent(a)]
NodesOK(st, dump) ==
  /\ Len(dump) = Cardinality(Nodes(st))
  /\ {dump[i].a : i \in 1..Len(dump)} = Nodes(st)
BadRecs(st, dump) ==
  {dump[i] : i \in {j \in 1..Len(dump) : LET d == dump[j] IN
        [a |-> d.a, ad |-> d.ad, ty |-> d.ty, d |-> d.d, n |-> d.n, ch |-> d.ch, pos |-> d.pos, par |-> d.par]
           # DumpRec(st, d.a)}}
BadFlags(st, dump) ==
  {dump[i].a : i \in {j \in 1..Len(dump) : Range(dump[j].fl) # st.nodes[dump[j].a].fl}}
BadQs(st, qs) == {i \in 1..Len(qs) : Query(st, qs[i].q) # qs[i].r}

\* step.lv selects what is compared besides the set of nodes: s(tructure), f(lags)
Mismatch(st2, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE IF ~step.obs THEN {}
  ELSE IF ~NodesOK(st2, step.dump)
  THEN {"set of nodes: expected " \o ToString(Nodes(st2)) \o " got "
         \o ToString({step.dump[i].a : i \in 1..Len(step.dump)})}
  ELSE LET recs == IF step.s THEN BadRecs(st2, step.dump) ELSE {}
           fls == IF step.f THEN BadFlags(st2, step.dump) ELSE {}
           bqs == BadQs(st2, step.qs)
       IN {"node " \o ToString(d) \o " expected " \o ToString(DumpRec(st2, d.a)) : d \in recs}
          \cup {"flags of " \o ToString(a) \o " expected " \o ToString(st2.nodes[a].fl) : a \in fls}
          \cup {"query " \o ToString(step.qs[i].q) \o " got " \o ToString(step.qs[i].r)
                   \o " expected " \o ToString(Query(st2, step.qs[i].q)) : i \in bqs}

(* --------------------------- initial structures ------------------------ *)
RECURSIVE AddTrees(_, _)
AddTrees(st, ts) == IF ts = <<>> THEN st ELSE AddTrees(AddTree(st, Head(ts)), Tail(ts))
InitState(init) ==
  AddTrees([nodes |-> <<>>, nt |-> 0, free |-> init.free], init.trees)
=============================================================================
