---------------------------------- MODULE Func ----------------------------------
(***************************************************************************)
(* Explicit, constant and nodal functions (src/function.py): evaluation of *)
(* finite element functions and their derivatives (N01), sampled rules,    *)
(* parameters and data under every history of updates (N02).               *)
(*                                                                         *)
(* The state of the mesh and the dofs is that of module Assem; in addition *)
(*   fs : sequence of functions                                            *)
(*     [k |-> "ex", nv, rules, par]     par[s]: sequence of <<name, value>>*)
(*     [k |-> "cn", nv, c]                                                 *)
(*     [k |-> "nd", nv, et, sf, num (leaf -> dofs), rows, data]            *)
(* A rule is a pair of polynomials <<p, q>>: c p(x) + d, of two variables  *)
(* c p(x) q(y) + d, with keyword parameters c (default 1) and d (0).       *)
(* A derivative is <<order, i, j>>.                                        *)
(***************************************************************************)
EXTENDS Solve

(* ------------------------- points in the leaves ------------------------ *)
In01(r) == \A k \in DOMAIN r : RSign(r[k]) >= 0 /\ RSign(RSub(R1, r[k])) >= 0
SubOf(dim, c, b) == IF dim = 1 THEN <<SubPos1(PathIn(c, b), R1)>> ELSE SubPos(PathIn(c, b), R1)
PhysAt(st, b, r) == IF st.grid.dim = 1 THEN SegMap(st.cor[b], r) ELSE BilMap(st.cor[b], r)
RVSub(u, v) == [k \in DOMAIN u |-> RSub(u[k], v[k])]
\* a point of the boundary of c, in reference coordinates
BndRefs(st, c, x) ==
  IF st.grid.dim = 1
  THEN {<<R(i - 1)>> : i \in {n \in 1..2 : RIsZero(RSub(x[1], R(st.cor[c][n][1])))}}
  ELSE {r \in {LET s == Side(st, c, j)  v == SegJac(s)  w == TLCEval(RVSub(x, RPt(s[1])))
                   cr == RSub(RMul(v[1], w[2]), RMul(v[2], w[1]))
                   t == RDiv(RDot(v, w), RDot(v, v))
                   b == VertAt(j, 1)  d == EdgeDir(j) IN
               IF RIsZero(cr) /\ In01(<<t>>) THEN <<RAdd(R(b[1]), RScale(d[1], t)), RAdd(R(b[2]), RScale(d[2], t))>> ELSE <<>> : j \in 0..3} :
          r # <<>>}
\* the position of point r of cell b in the cells of leaf set L that contain it: <<leaf, reference coordinates>>
Places(st, L, b, r) ==
  LET dim == st.grid.dim  x == TLCEval(PhysAt(st, b, r)) IN
  UNION {
    IF Prefix(c, b)
    THEN LET o == SubOf(dim, c, b)  w == Width(c, b) IN {<<c, TLCEval([k \in 1..dim |-> RAdd(o[k], RMul(w, r[k]))])>>}
    ELSE IF Prefix(b, c)
    THEN LET o == SubOf(dim, b, c)  w == Width(b, c)  y == TLCEval([k \in 1..dim |-> RDiv(RSub(r[k], o[k]), w)]) IN
         IF In01(y) THEN {<<c, y>>} ELSE {}
    ELSE {<<c, y>> : y \in BndRefs(st, c, x)} : c \in L}
RealPos(st, b, r) == LET x == PhysAt(st, b, r) IN TLCEval([k \in 1..st.grid.dim |-> RMul(RMul(st.un, Q(1, st.grid.scale)), x[k])])

(* ------------------------------ functions ------------------------------ *)
FSamples(f) == CASE f.k = "ex" -> Len(f.rules) [] f.k = "cn" -> Len(f.c)
                 [] f.k = "nd" -> IF f.nv = 1 THEN Len(f.data[1]) ELSE Len(f.data[1][1])
ParVal(par, name, dflt) == LET S == {i \in 1..Len(par) : par[i][1] = name} IN IF S = {} THEN dflt ELSE par[CHOOSE i \in S : TRUE][2]
PVal(p, x) == PolyVec(p, [k \in 1..Len(x) |-> <<x[k]>>])[1]
RuleVal(rule, par, xs) ==
  LET v == IF Len(xs) = 1 THEN PVal(rule[1], xs[1]) ELSE RMul(PVal(rule[1], xs[1]), PVal(rule[2], xs[2])) IN
  RAdd(RScale(ParVal(par, "c", 1), v), R(ParVal(par, "d", 0)))
\* shape functions of a leaf at a place, differentiated with respect to the physical coordinates
Shapes(st, et, pl, der) ==
  LET g == RPow(RDiv(R(st.grid.scale), st.un), der[1]) IN
  TLCEval([n \in 1..NLoc(st.grid.dim, et) |-> RMul(g, PhysShape(st.cor[pl[1]], et, n, der, pl[2]))])
\* values of all samples: at a place, at a pair of places
NdVal(st, f, pls, ders) ==
  LET pos == PosIn(f.rows)
      S1 == Shapes(st, f.et, pls[1], ders[1])  D1 == f.num[pls[1][1]] IN
  IF f.nv = 1
  THEN TLCEval([s \in 1..FSamples(f) |-> RSumSeq([n \in 1..Len(D1) |-> RMul(S1[n], f.data[pos[D1[n]]][s])])])
  ELSE LET S2 == Shapes(st, f.et, pls[2], ders[2])  D2 == f.num[pls[2][1]] IN
       TLCEval([s \in 1..FSamples(f) |-> RSumSeq([n \in 1..Len(D1) |-> RMul(S1[n],
                  RSumSeq([m \in 1..Len(D2) |-> RMul(S2[m], f.data[pos[D1[n]]][pos[D2[m]]][s])]))])])
\* the rows of values an evaluation may return at points pts (one or two, each [a, r]); within: cells to which the
\* evaluation is confined (<<>>: none)
FRows(st, f, pts, ders, within) ==
  CASE f.k = "ex" -> <<TLCEval([s \in 1..FSamples(f) |-> RuleVal(f.rules[s], f.par[s], [v \in 1..f.nv |-> RealPos(st, pts[v].a, pts[v].r)])])>>
    [] f.k = "cn" -> <<[s \in 1..FSamples(f) |-> R(f.c[s])]>>
    [] f.k = "nd" ->
         LET L == DOMAIN f.num
             P(v) == {pl \in Places(st, L, pts[v].a, pts[v].r) : within = <<>> \/ AncRel(within[v], pl[1])} IN
         IF f.nv = 1 THEN LET T == SeqOf(P(1)) IN TLCEval([i \in 1..Len(T) |-> NdVal(st, f, <<T[i]>>, ders)])
         ELSE LET T == SeqOf(P(1) \X P(2)) IN TLCEval([i \in 1..Len(T) |-> NdVal(st, f, T[i], ders)])
RowIn(row, S) == \E i \in 1..Len(S) : RCloseAll(row, S[i])
FView(st, et, num) == [st EXCEPT !.et = et, !.num = num]
LeafNum(st, h, sf) == TLCEval([a \in LeafSet(st, sf) |-> st.hs[h].num[a]])
NodeRef(dim, et, i) == IF Degree(et) = 0 THEN [k \in 1..dim |-> Q(1, 2)] ELSE NodeAt(dim, et, i)
NodesOf(st, num, d) == UNION {{<<a, i>> : i \in {k \in 1..Len(num[a]) : num[a][k] = d}} : a \in DOMAIN num}
\* rows of nodal values that interpolate f at dof d of a numbering of leaves
InterpRows(st, f, et, num, d) ==
  LET X == SeqOf(NodesOf(st, num, d))
      own(b) == IF f.k = "nd" /\ Torn(et) THEN {c \in DOMAIN f.num : Prefix(c, b)} ELSE {}
      rows(b, r) == FRows(st, IF own(b) = {} THEN f ELSE [f EXCEPT !.num = [c \in own(b) |-> f.num[c]]], <<[a |-> b, r |-> r]>>, << <<0, 0, 0>> >>, <<>>)
  IN ConcatAll([i \in 1..Len(X) |-> rows(X[i][1], NodeRef(st.grid.dim, et, X[i][2]))])
\* the derivative belongs to the cell of the (discontinuous) dof
DiffRows(st, f, et, num, d, der) ==
  LET X == SeqOf(NodesOf(st, num, d)) IN [i \in 1..Len(X) |-> NdVal(st, f, << <<X[i][1], NodeRef(st.grid.dim, et, X[i][2])>> >>, <<der>>)]
TornType(et) == CASE et = "Q1" -> "DQ1" [] et = "Q2" -> "DQ2" [] et = "Q3" -> "DQ3" [] OTHER -> et

(* ------------------------------ operations ----------------------------- *)
\* data of an update: integers depending on a seed, the dofs and the sample
UData(seed, d, s) == DataOf([seed |-> seed], d, s)
UData2(seed, d, e, s) == R((((d + 1) * (seed + 3) + (e + 2) * (2 * seed + 5) + s * 3 + ((d * e) % 4)) % 11) - 5)
Bc(seq, n) == IF Len(seq) = n THEN seq ELSE [i \in 1..n |-> seq[1]]
Larger(a, b) == IF a > b THEN a ELSE b
SetAt(seq, i, x) == [seq EXCEPT ![i] = x]
ExNew(op, nv) == LET n == Larger(Len(op.rules), Len(op.par)) IN [k |-> "ex", nv |-> nv, rules |-> Bc(op.rules, n), par |-> Bc(op.par, n)]
\* functions without nodal data are determined by the operation
PlainNew(st, op) ==
  LET f == IF op.i = 0 THEN <<>> ELSE st.fs[op.i] IN
  CASE op.k = "ex" -> ExNew(op, op.nv)
    [] op.k = "cn" -> [k |-> "cn", nv |-> op.nv, c |-> op.c]
    [] op.k = "add_rule" -> [f EXCEPT !.rules = Append(@, op.rules[1]), !.par = Append(@, op.par[1])]
    [] op.k = "set_rules" -> ExNew(op, f.nv)
    [] op.k = "set_rule" -> [f EXCEPT !.rules = SetAt(@, op.s, op.rules[1]), !.par = SetAt(@, op.s, op.par[1])]
    [] op.k = "set_pars" -> [f EXCEPT !.par = [i \in 1..Len(@) |-> op.par[1]]]
    [] op.k = "set_par" -> [f EXCEPT !.par = SetAt(@, op.s, op.par[1])]
    [] op.k = "set_const" -> [f EXCEPT !.c = op.c]
Plain == {"ex", "cn", "add_rule", "set_rules", "set_rule", "set_pars", "set_par", "set_const"}
Creates == {"ex", "cn", "nd", "interp", "diff"}
\* the frame of a nodal result: element type, numbering of the leaves
FrameOf(st, op, rec) ==
  CASE op.k \in {"nd", "interp"} -> [et |-> st.hs[op.h].et, sf |-> op.sf, num |-> LeafNum(st, op.h, op.sf)]
    [] op.k = "diff" -> LET f == st.fs[op.i]  N == NumOf(rec.num) IN
                        [et |-> TornType(f.et), sf |-> f.sf, num |-> TLCEval([a \in DOMAIN f.num |-> N[a]])]
    [] OTHER -> [et |-> st.fs[op.i].et, sf |-> st.fs[op.i].sf, num |-> st.fs[op.i].num]
NdOf(fr, nv, rec) == [k |-> "nd", nv |-> nv, et |-> fr.et, sf |-> fr.sf, num |-> fr.num, rows |-> rec.rows, data |-> rec.data]
\* expected rows of data (univariate): for row i of the result the acceptable value rows
SrcFun(op) == ExNew(op, op.nv)
NdExpect(st, op, fr, rows, i) ==
  LET d == rows[i] IN
  CASE op.k \in {"nd", "set_data"} -> IF op.src = "f" THEN InterpRows(st, SrcFun(op), fr.et, fr.num, d) ELSE <<[s \in 1..op.ns |-> UData(op.seed, d, s)]>>
    [] op.k = "interp" -> InterpRows(st, st.fs[op.i], fr.et, fr.num, d)
    [] op.k = "diff" -> DiffRows(st, st.fs[op.i], fr.et, fr.num, d, op.der)
    [] op.k = "modify" -> LET f == st.fs[op.i]  o == f.data[i] IN
                          <<IF (i - 1) \in Range(op.ix) THEN [o EXCEPT ![op.s] = RMul(Q(1, 2), UData(op.seed, d, 1))] ELSE o>>
    [] op.k = "add_samples" -> <<st.fs[op.i].data[i] \o [s \in 1..op.ns |-> UData(op.seed, d, s)]>>
\* bivariate: expected row of row i, column j
Pos1(st, fr, d) == LET x == CHOOSE y \in NodesOf(st, fr.num, d) : TRUE IN [a |-> x[1], r |-> NodeRef(st.grid.dim, fr.et, x[2])]
Nd2Expect(st, op, fr, rows, i, j) ==
  IF op.src = "f" THEN FRows(st, SrcFun(op), <<Pos1(st, fr, rows[i]), Pos1(st, fr, rows[j])>>, <<>>, <<>>)
  ELSE <<[s \in 1..op.ns |-> UData2(op.seed, rows[i], rows[j], s)]>>
NvOf(st, op) == CASE op.k \in {"nd", "ex", "cn"} -> op.nv [] OTHER -> st.fs[op.i].nv
FSame(f, o) ==      \* recorded content of a function that is determined
  CASE f.k = "ex" -> o.par = f.par /\ o.rules = f.rules
    [] f.k = "cn" -> RCloseAll(o.c, [s \in 1..Len(f.c) |-> R(f.c[s])])
    [] f.k = "nd" -> /\ o.rows = f.rows
                     /\ IF f.nv = 1 THEN RCloseMat(o.data, f.data)
                        ELSE Len(o.data) = Len(f.data) /\ \A i \in 1..Len(f.data) : RCloseMat(o.data[i], f.data[i])
Target(st, op) == IF op.k \in Creates THEN Len(st.fs) + 1 ELSE op.i
FopBad(st, op, rec) ==
  LET t == Target(st, op) IN
  {"function " \o ToString(rec.all[n].i) \o " changed by an operation on function " \o ToString(t) :
     n \in {m \in 1..Len(rec.all) : rec.all[m].i # t /\ ~FSame(st.fs[rec.all[m].i], rec.all[m])}}
  \cup
  (IF op.k \in Plain
   THEN LET f == PlainNew(st, op) IN
        (IF rec.nv = f.nv /\ rec.ns = FSamples(f) THEN {} ELSE {"number of variables or samples " \o ToString(<<rec.nv, rec.ns>>)})
        \cup (IF FSame(f, rec.t) THEN {} ELSE {"content of the function is " \o ToString(rec.t)})
   ELSE LET fr == FrameOf(st, op, rec)  rows == rec.t.rows  data == rec.t.data
            D == UNION {Range(fr.num[a]) : a \in DOMAIN fr.num} IN
        IF ~SeqSet(rows, D) THEN {"dofs of the function " \o ToString(rows)}
        ELSE IF op.k \in {"set_data", "modify", "add_samples"} /\ rows # st.fs[op.i].rows THEN {"order of the dofs changed"}
        ELSE IF Len(data) # Len(rows) \/ rec.nv # NvOf(st, op) THEN {"size of the data"}
        ELSE IF NvOf(st, op) = 1
        THEN {"data at dof " \o ToString(rows[i]) \o " is " \o ToString(data[i]) \o " expected " \o ToString(NdExpect(st, op, fr, rows, i)) :
                i \in {k \in 1..Len(rows) : ~RowIn(data[k], NdExpect(st, op, fr, rows, k))}}
             \cup (IF rec.ns = Len(data[1]) THEN {} ELSE {"number of samples"})
        ELSE IF \E i \in 1..Len(rows) : Len(data[i]) # Len(rows) THEN {"size of the bivariate data"}
        ELSE {"data at dofs " \o ToString(<<rows[x[1]], rows[x[2]]>>) \o " is " \o ToString(data[x[1]][x[2]]) :
                x \in {y \in (1..Len(rows)) \X (1..Len(rows)) : ~RowIn(data[y[1]][y[2]], Nd2Expect(st, op, fr, rows, y[1], y[2]))}})
FopApply(st, op, rec) ==
  LET f == IF op.k \in Plain THEN PlainNew(st, op) ELSE NdOf(FrameOf(st, op, rec), NvOf(st, op), rec.t) IN
  IF op.k \in Creates THEN [st EXCEPT !.fs = Append(@, f)] ELSE [st EXCEPT !.fs = SetAt(@, op.i, f)]

(* -------------------------------- queries ------------------------------ *)
EvalBad(st, q, r) ==
  LET f == st.fs[q.i]  n == Len(q.pts) IN
  IF Len(r.v) # n THEN {"number of values"}
  ELSE {"point " \o ToString(q.pts[k]) \o " got " \o ToString(r.v[k]) \o " expected one of " \o ToString(FRows(st, f, q.pts[k], q.der, q.cell)) :
          k \in {m \in 1..n : ~RowIn(r.v[m], FRows(st, f, q.pts[m], q.der, q.cell))}}
       \* again: a selection of the points, in another order, with repetitions
       \cup (IF Len(r.w) # Len(q.sel) THEN {"number of values"}
             ELSE {"point " \o ToString(q.pts[q.sel[k]]) \o " evaluates differently among other points" :
                     k \in {m \in 1..Len(q.sel) : ~RCloseAll(r.w[m], r.v[q.sel[m]])}})
FunQBad(st, q, r) ==
  CASE q.q = "eval" -> EvalBad(st, q, r)

FunInit(init) == AsmInit(init) @@ [fs |-> <<>>]
FunApply(st, step) == IF step.op.o = "fop" THEN FopApply(st, step.op, step.rec) ELSE AdoptAll(AsmApply(st, step.op), step)
FunMismatch(st0, step) ==
  IF step.exc # "" THEN {"exception: " \o step.exc}
  ELSE LET bad == IF step.op.o = "fop" THEN FopBad(st0, step.op, step.rec) ELSE {} IN
       IF bad # {} THEN {"operation " \o ToString(step.op.k) \o ": " \o b : b \in bad}
       ELSE LET s == TLCEval(FunApply(st0, step)) IN
            UNION {{"query " \o ToString(step.qs[i].q.q) \o ": " \o b : b \in FunQBad(s, step.qs[i].q, step.qs[i].r)} : i \in 1..Len(step.qs)}

(* ------------------------------- laws ---------------------------------- *)
\* Interpolation of the monomials of the element's degree reproduces them and their derivatives at every place of
\* every point (so also across sides, hanging nodes included); values at nodes are the nodal values; places of a point
\* are positions of the same point.
LawPts(dim) == IF dim = 1 THEN {<<R0>>, <<Q(1, 4)>>, <<R1>>} ELSE {<<R0, R0>>, <<R1, Q(1, 2)>>, <<Q(1, 4), R1>>, <<Q(3, 4), Q(1, 4)>>}
DMono(dim, e, t, x) ==      \* derivative of a monomial, order at most one
  IF t[1] = 0 THEN Mono(dim, e, x)
  ELSE LET k == t[2] + 1 IN IF e[k] = 0 THEN R0 ELSE RScale(e[k], Mono(dim, [e EXCEPT ![k] = @ - 1], x))
FunLaws(st0, et) ==
  LET dim == st0.grid.dim
      st == [st0 EXCEPT !.hs = <<[et |-> et, num |-> CanonNum(st0, et)]>>]
      num == LeafNum(st, 1, "")
      V == FView(st, et, num)
      rows == SortedSeq(UNION {Range(num[a]) : a \in DOMAIN num})
      p == Degree(et)
      per == \E k \in 1..dim : st.grid.per[k] # 0
      affine == \A a \in DOMAIN num : Parallelogram(st.cor[a])
      z == [k \in 1..dim |-> 0]
      ones(e) == [et |-> et, k |-> "nd", nv |-> 1, sf |-> "", num |-> num, rows |-> rows,
                  data |-> TLCEval([i \in 1..Len(rows) |-> LET x == CHOOSE y \in NodesOf(st, num, rows[i]) : TRUE IN
                                                          <<Mono(dim, e, RealPos(st, x[1], NodeRef(dim, et, x[2])))>>])]
      E == {e \in [1..dim -> 0..(IF per THEN 0 ELSE p)] : affine \/ (dim = 2 /\ e[1] + e[2] <= 1)}
      E1 == {e \in E : dim = 1 \/ e[1] + e[2] <= p}
      F == TLCEval([e \in E1 |-> ones(e)])
      ders == {[k \in 1..3 |-> 0]} \cup {<<1, k - 1, 0>> : k \in 1..dim}
  IN /\ \A a \in DOMAIN num : \A r \in LawPts(dim) :
          LET S == Places(st, DOMAIN num, a, r)  x == RealPos(st, a, r) IN
          /\ <<a, r>> \in S
          /\ \A pl \in S : RealPos(st, pl[1], pl[2]) = x
          /\ \A e \in E1, t \in ders, pl \in S :
               NdVal(st, F[e], <<pl>>, <<t>>)[1] = DMono(dim, e, t, x)
     /\ p > 0 => \A i \in 1..Len(rows) : \A y \in NodesOf(st, num, rows[i]) :
          \A e \in E1 : NdVal(st, F[e], << <<y[1], NodeRef(dim, et, y[2])>> >>, << <<0, 0, 0>> >>)[1] = F[e].data[i][1]
\* every function has one parameter set per rule, one data row per dof, one column per sample
FunShape(st) == \A i \in 1..Len(st.fs) : LET f == st.fs[i] IN
  CASE f.k = "ex" -> Len(f.rules) = Len(f.par) /\ Len(f.rules) > 0
    [] f.k = "cn" -> Len(f.c) > 0
    [] f.k = "nd" -> /\ Len(f.data) = Len(f.rows)
                     /\ f.nv = 1 => \A k \in 1..Len(f.rows) : Len(f.data[k]) = FSamples(f)
\* updates are local: samples and dofs that are not named keep their values; interpolation into the own space may return the
\* nodal values themselves (a hanging node has several values); the derivative of order zero is the function
UpdLaw(st, st2, op) ==
  LET f == IF op.i = 0 THEN <<>> ELSE st.fs[op.i]  g == st2.fs[Target(st, op)] IN
  CASE op.k = "modify" -> /\ g.rows = f.rows
                          /\ \A n \in 1..Len(f.rows), s \in 1..FSamples(f) : ((n - 1) \notin Range(op.ix) \/ s # op.s) => g.data[n][s] = f.data[n][s]
    [] op.k = "add_samples" -> \A n \in 1..Len(f.rows), s \in 1..FSamples(f) : g.data[n][s] = f.data[n][s]
    [] op.k = "add_rule" -> SubSeq(g.rules, 1, Len(f.rules)) = f.rules /\ SubSeq(g.par, 1, Len(f.par)) = f.par
    [] op.k \in {"set_rule", "set_par"} -> \A s \in 1..FSamples(f) : s # op.s => g.rules[s] = f.rules[s] /\ g.par[s] = f.par[s]
    [] op.k = "interp" -> (f.k = "nd" /\ f.et = g.et /\ f.sf = g.sf /\ f.num = g.num /\ f.rows = g.rows) =>
                             \A n \in 1..Len(g.rows) : f.data[n] \in Range(InterpRows(st, f, g.et, g.num, g.rows[n]))
    [] op.k = "diff" -> (op.der[1] = 0 /\ f.et = g.et /\ f.num = g.num /\ f.rows = g.rows) => f.data = g.data
    [] OTHER -> TRUE
\* frame: an operation changes the function it names and no other
FunFrame(st, st2, op) == \A i \in 1..Len(st.fs) : i # Target(st, op) => st2.fs[i] = st.fs[i]
================================================================================
