------------------------------- MODULE MC_Rigid -------------------------------
(* Three points moved about a grid, against a fixed image set, and all the   *)
(* rotations of small quaternions: the certificate of the best rotation is   *)
(* right, and exact motions are recognised.                                  *)
EXTENDS RigidApi, Json
CONSTANTS N, M, Emit
VARIABLES pts
Grid == 0..N
Init == pts = <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Next == \E k, i \in 1..3, x \in Grid : pts' = [pts EXCEPT ![k][i] = x]
QuatRot(p) ==
  LET a == p[1] b == p[2] c == p[3] d == p[4] n == a*a + b*b + c*c + d*d
      m(x) == QMk(x, n)
  IN  << <<m(a*a+b*b-c*c-d*d), m(2*(b*c-a*d)), m(2*(b*d+a*c))>>,
         <<m(2*(b*c+a*d)), m(a*a-b*b+c*c-d*d), m(2*(c*d-a*b))>>,
         <<m(2*(b*d-a*c)), m(2*(c*d+a*b)), m(a*a-b*b-c*c+d*d)>> >>
Quats == {p \in ((-M..M) \X (-M..M) \X (-M..M) \X (-M..M)) : p # <<0, 0, 0, 0>> /\ \E i \in 1..4 : p[i] > 0 /\ \A j \in 1..(i - 1) : p[j] = 0}
Rots == [p \in Quats |-> QuatRot(p)]
A == [k \in 1..3 |-> VInt(pts[k])]
B == <<VInt(<<2, 1, 0>>), VInt(<<0, 2, 1>>), VInt(<<1, 0, 1>>)>>
C == Corr(A, B)
Score(p) == Tr(MatMul(Rots[p], C))
T9 == E9
BestScore == CHOOSE s \in {Score(p) : p \in Quats} : \A p \in Quats : QLe(Score(p), s)
Certificate ==
  LET top == BestScore IN
  \A p \in Quats : Best(Rots[p], C, T9) => Near(Score(p), top, E6)
\* an exact motion of the points is best, and is recognised
Motions ==
  \A p \in {<<1, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 1, 1, 0>>, <<1, 1, 1, 0>>} :
    LET im == [k \in 1..3 |-> MatVec(Rots[p], A[k])]
    IN  Best(Rots[p], Corr(A, im), T9)
EmitCase == Emit /\ (\E i, j, k \in 1..3 : pts[i][k] # pts[j][k]) => PrintT("CASE " \o ToJson(
  <<[op |-> "model", a |-> A, b |-> B, quat |-> <<1, 1, 0, 1>>]>>))
=============================================================================
