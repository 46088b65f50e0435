-------------------------------- MODULE FuncGen --------------------------------
(* Laws of functions. Spec: interpolation, differentiation and evaluation on   *)
(* every balanced mesh of the bounded graph. SpecU: every history of           *)
(* operations from Cfg.ops on functions over a fixed mesh.                      *)
EXTENDS Func, Json, IOUtils
Cfg == JsonDeserialize(IOEnv.CFG)
VARIABLES st, hist, ini
vars == <<st, hist, ini>>
Ini(i) == FunInit(Cfg.inits[i] @@ [u |-> <<1, 2>>, ets |-> <<"Q1">>])
Step(op) == /\ st' = [AsmApply(st, op) EXCEPT !.fs = <<>>] /\ hist' = Append(hist, op)
            /\ (st'.grid.dim = 2 => Balanced(st', ""))
Init == /\ ini \in 1..Len(Cfg.inits) /\ st = Ini(ini) /\ hist = <<>>
Next == /\ Len(hist) < Cfg.max
        /\ \/ \E a \in {b \in Nodes(st) : ~HasKids(st, b) /\ Len(b) <= Cfg.maxdepth} : Step([o |-> "split", a |-> a])
           \/ \E f \in Range(Cfg.flags) :
                /\ \A a \in Nodes(st) : f \notin st.nodes[a].fl
                /\ Step([o |-> "record", f |-> f])
        /\ PrintT(ToJson([i |-> ini, h |-> hist']))
        /\ UNCHANGED ini
Spec == Init /\ [][Next]_vars
View == <<st, ini>>
Laws == \A e \in Range(Cfg.ets) : FunLaws(st, e)

(* ----------------------------- update histories ------------------------- *)
RECURSIVE ApplyMesh(_, _)
ApplyMesh(s, h) == IF h = <<>> THEN s ELSE ApplyMesh(AsmApply(s, h[1]), Tail(h))
Based(i) == LET s == ApplyMesh(FunInit(Cfg.inits[i]), Cfg.base[i]) IN
            [s EXCEPT !.hs = [h \in 1..Len(@) |-> [et |-> @[h].et, num |-> CanonNum(s, @[h].et)]]]
InitU == /\ ini \in 1..Len(Cfg.inits) /\ st = Based(ini) /\ hist = <<>>
NUpd == Cardinality({n \in DOMAIN hist : hist[n].k \notin Creates})
Kinds(op) == CASE op.k \in {"add_rule", "set_rules", "set_rule", "set_pars", "set_par"} -> {"ex"}
               [] op.k = "set_const" -> {"cn"}
               [] op.k \in {"set_data", "modify", "add_samples", "diff"} -> {"nd"}
               [] op.k = "interp" -> {"ex", "cn", "nd"}
EnabledU(op) ==
  /\ op.k \in Creates => Len(st.fs) < Cfg.maxfun
  /\ op.k \notin {"ex", "cn", "nd"} =>
       /\ op.i <= Len(st.fs)
       /\ LET f == st.fs[op.i] IN
          /\ f.k \in Kinds(op)
          /\ op.k \notin {"add_rule", "set_rule", "set_par", "set_pars", "set_rules"} => f.nv = 1
          /\ "nv" \in DOMAIN op => f.nv = op.nv
          /\ op.k \in {"set_rule", "set_par", "modify"} => op.s <= FSamples(f)
          /\ op.k = "modify" => \A x \in Range(op.ix) : x < Len(f.rows)
          /\ op.k = "add_samples" => FSamples(f) < 3
          /\ op.k = "add_rule" => FSamples(f) < 3
  /\ op.reuse => hist # <<>> /\ hist[Len(hist)] = [op EXCEPT !.reuse = FALSE]
\* the outcome the specification describes, with the canonical numbering and order
Ideal(s, op) ==
  IF op.k \in Plain THEN LET f == PlainNew(s, op) IN
       [nv |-> f.nv, ns |-> FSamples(f), num |-> <<>>, all |-> <<>>,
        t |-> IF f.k = "ex" THEN [rules |-> f.rules, par |-> f.par] ELSE [c |-> [n \in 1..Len(f.c) |-> R(f.c[n])]]]
  ELSE LET N == IF op.k = "diff" THEN CanonNum(s, TornType(s.fs[op.i].et)) ELSE <<>>
           fr == IF op.k = "diff" THEN LET f == s.fs[op.i] IN [et |-> TornType(f.et), sf |-> f.sf, num |-> TLCEval([a \in DOMAIN f.num |-> N[a]])]
                 ELSE FrameOf(s, op, <<>>)
           rows == IF op.k \in {"set_data", "modify", "add_samples"} THEN s.fs[op.i].rows
                   ELSE SortedSeq(UNION {Range(fr.num[a]) : a \in DOMAIN fr.num})
           nv == NvOf(s, op)
           data == IF nv = 1 THEN TLCEval([i \in 1..Len(rows) |-> NdExpect(s, op, fr, rows, i)[1]])
                   ELSE TLCEval([i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> Nd2Expect(s, op, fr, rows, i, j)[1]]])
       IN [nv |-> nv, ns |-> IF nv = 1 THEN Len(data[1]) ELSE Len(data[1][1]), t |-> [rows |-> rows, data |-> data],
           num |-> IF op.k = "diff" THEN [n \in 1..Cardinality(DOMAIN N) |-> LET a == SeqOf(DOMAIN N)[n] IN [a |-> a, d |-> N[a]]] ELSE <<>>,
           all |-> <<>>]
NextU == /\ Len(hist) < Cfg.max
         /\ \E n \in 1..Len(Cfg.ops) : LET op == Cfg.ops[n] IN
              /\ EnabledU(op)
              /\ LET rec == TLCEval(Ideal(st, op))  s2 == TLCEval(FopApply(st, op, rec)) IN
                 /\ Assert(FopBad(st, op, rec) = {}, <<"outcome", op, FopBad(st, op, rec)>>)
                 /\ Assert(FunFrame(st, s2, op), <<"frame", op>>)
                 /\ Assert(UpdLaw(st, s2, op), <<"law", op>>)
                 /\ st' = s2
              /\ hist' = Append(hist, op)
              /\ PrintT(ToJson([i |-> ini, h |-> Cfg.base[ini] \o <<[o |-> "dist"]>> \o hist']))
         /\ UNCHANGED ini
SpecU == InitU /\ [][NextU]_vars
ViewU == <<st, ini>>
Shape == FunShape(st)
================================================================================
