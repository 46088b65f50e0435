-------------------------------- MODULE RatTest --------------------------------
(* Prints values of the operators of Rat; run once with and once without the     *)
(* Java overrides, the output has to be the same (tools/setup.py).               *)
EXTENDS Rat, Integers, Sequences, TLC
X == <<Q(1, 2), Q(-3, 4), R0, R1, Q(5, -7), Q(12, 18)>>
P == <<Q(1, 2), R0, Q(-3, 5), R1>>
A == << <<R0, Q(1, 2), R1>>, <<Q(2, 3), R1, Q(-1, 4)>>, <<R1, R1, R(3)>> >>
B == << <<R1, R0>>, <<Q(1, 3), R(2)>>, <<R0, Q(-2, 5)>> >>
Vals == << [i \in 1..6 |-> [j \in 1..6 |-> <<RAdd(X[i], X[j]), RSub(X[i], X[j]), RMul(X[i], X[j]), RLess(X[i], X[j]),
                            IF RIsZero(X[j]) THEN R0 ELSE RDiv(X[i], X[j])>>]],
           [i \in 1..6 |-> <<RSign(X[i]), RNeg(X[i]), RAbs(X[i]), RPow(X[i], 0), RPow(X[i], 3), PEval(P, X[i]), PEval(<<>>, X[i])>>],
           RSumSeq(X), RSumSeq(<<>>), RSumSeq([i \in 1..3 |-> R(i)]), RDot(X, X), PMul(P, X), PMul(P, <<>>), PDiffN(P, 1), PInt01(P), PPow(X, 2),
           MatMul(A, B), MatT(B), MatVec(A, <<R1, R0, Q(1, 3)>>), MatSolve(A, B), MatInv(A), MatMul(A, MatInv(A)) = MatId(3),
           RClose(R1, R1), RClose(R0, R1), RClose(R1, R(2)), RClose(Q(1, 2), R1), RClose(R(3), R(3)), RClose([n |-> 1, d |-> 0], R0),
           RCloseAll(<<R0, R1>>, <<R0, R1>>), RCloseAll(<<R1>>, P), RCloseAll(<<R0, R1>>, <<R1, R1>>), RCloseMat(MatId(2), MatId(2)), RCloseMat(MatId(2), << <<R1, R0>>, <<R1, R1>> >>), RCloseMat(A, <<X>>), RCloseMat(<<>>, <<>>),
           VAdd(X, X), VMul(X, X), VDiv(X, [i \in 1..6 |-> Q(i, 3)]), VScale(Q(2, 3), X), VConst(Q(1, 2), 3), VPow(X, 2), VPow(X, 0), PEvalV(P, X), PEvalV(<<>>, X), VKron(X, <<R1, Q(1, 2)>>),
           ScatterSum(<<[r |-> <<1, 3>>, c |-> <<2, 2>>, a |-> << <<R1, Q(1, 2)>>, <<R0, R1>> >>], [r |-> <<3>>, c |-> <<1, 2>>, a |-> << <<Q(1, 3), R1>> >>]>>, 3, 2),
           ScatterSum(<<>>, 1, 1), RCloseInt(<< <<1, 3>>, <<0, 2>> >>, 2, << <<Q(1, 2), Q(3, 2)>>, <<R0, R1>> >>), RCloseInt(<< <<1>> >>, 2, << <<R1>> >>), RCloseInt(<<>>, 1, << <<R1>> >>), RExp(R0), MatMax(A), MatMax(<<>>), MatMax(<< <<Q(-7, 2), R1>>, <<R(3), R0>> >>) >>
ASSUME PrintT(Vals)
VARIABLE x
Spec == x = 0 /\ [][UNCHANGED x]_x
================================================================================
