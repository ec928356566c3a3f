------------------------------- MODULE MC_LinAlg -------------------------------
(* A basis walked over a grid, one coordinate at a time.                      *)
EXTENDS LinAlgApi, Json
CONSTANTS D, N, Emit
VARIABLES b
Grid == -N..N
Init == b = [i \in 1..D |-> [j \in 1..D |-> IF i = j THEN 1 ELSE 0]]
Next == \E i, j \in 1..D, x \in Grid : b' = [b EXCEPT ![i][j] = x]
B == TLCEval([i \in 1..D |-> VInt(b[i])])
Other == [i \in 1..D |-> VInt([j \in 1..D |-> IF j = i THEN 2 ELSE IF j = i + 1 THEN 1 ELSE 0])]
NZ(os) == \A i \in 1..Len(os) : QSgn(VSq(os[i])) > 0
Safe == ~Dependent(B)
O == GramSchmidt(B)
Laws ==
  /\ Safe =>
       /\ \A i, j \in 1..D : i < j => QSgn(VDot(O[i], O[j])) = 0
       \* the difference from the original lies in the span of the preceding ones
       /\ \A i \in 2..D : VEq(VSub(B[i], O[i]), SubAll(VZero(D), VNeg(B[i]), SubSeq(O, 1, i - 1)))
       /\ QEq(Sq(Det(B)), ProdSq(O))                              \* volume is kept
       /\ MEq(GramSchmidt(O), O)
  /\ Safe =>
       /\ MEq(Change(B, B), Ident(D))
       /\ MEq(MatMul(Change(B, Other), Change(Other, B)), Ident(D))
       \* column j of the change expresses Other[j] in B
       /\ \A j \in 1..D : VEq(MatVec(Cols(B), MCol(Change(B, Other), j)), Other[j])
Arr(m) == [k |-> "arr", shape |-> <<Len(m), Len(m[1])>>, dt |-> "f", fin |-> TRUE, v |-> m]
Accepts ==
  Safe => LET ev(m) == [v |-> B, normal |-> FALSE, all |-> TRUE, indices |-> <<>>, obs |-> Arr(m)] IN
    /\ OrthoFails(ev(O)) = {}
    /\ (Apart(B, O) /\ ~MEq(O, B) => OrthoFails(ev(B)) # {})
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<[op |-> "iso", f |-> B, g |-> Other, form |-> "f"], [op |-> "iso", f |-> Other, g |-> B, form |-> "i"]>> \o
  IF Safe THEN <<[op |-> "ortho", v |-> B, normal |-> FALSE, all |-> TRUE, indices |-> <<>>, form |-> "f"],
                 [op |-> "ortho", v |-> B, normal |-> TRUE, all |-> TRUE, indices |-> <<>>, form |-> "i"],
                 [op |-> "ortho", v |-> B, normal |-> TRUE, all |-> FALSE, indices |-> <<D - 1>>, form |-> "f"]>> ELSE <<>>))
=============================================================================
