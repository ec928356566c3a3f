----------------------------- MODULE MC_Rotations -----------------------------
(* A rotation vector, and a quaternion, walked over grids: the laws of the   *)
(* rotations they give, and calls to replay.                                 *)
EXTENDS RotationsApi, Json
CONSTANTS N, Emit
VARIABLES r, q
Grid == -N..N
Init == r = <<0, 0, 0>> /\ q = <<1, 0, 0, 0>>
Next == \/ \E i \in 1..3, x \in Grid : r' = [r EXCEPT ![i] = x] /\ UNCHANGED q
        \/ \E i \in 1..4, x \in Grid : q' = [q EXCEPT ![i] = x] /\ q' # <<0, 0, 0, 0>> /\ UNCHANGED r
\* a half unit in each direction
R == [i \in 1..3 |-> QMk(r[i], 2)]
\* the rotation of a quaternion, exactly
QuatRot(p) ==
  LET a == p[1] b == p[2] c == p[3] d == p[4] n == a*a + b*b + c*c + d*d
      m(x) == QMk(x, n)
  IN  << <<m(a*a+b*b-c*c-d*d), m(2*(b*c-a*d)), m(2*(b*d+a*c))>>,
         <<m(2*(b*c+a*d)), m(a*a-b*b+c*c-d*d), m(2*(c*d-a*b))>>,
         <<m(2*(b*d-a*c)), m(2*(c*d+a*b)), m(a*a-b*b-c*c+d*d)>> >>
M == QuatRot(q)
T20 == QMk(1, "100000000000000000000")
H == QMk(1, 1048576)
Diff(i) ==
  LET hi == RotOf([R EXCEPT ![i] = QAdd(@, H)])
      lo == RotOf([R EXCEPT ![i] = QSub(@, H)])
  IN  MScale(QDiv(Half, H), MSub(hi, lo))
VectorLaws ==
  q = <<1, 0, 0, 0>> =>
  /\ IsRotNear(RotOf(R), T20)
  /\ NearV(MatVec(RotOf(R), R), R, T20)                            \* about r
  /\ NearM(RotOf(VNeg(R)), Transp(RotOf(R)), T20)
  /\ NearM(MatMul(RotOf(R), RotOf(R)), RotOf(VScale(QI(2), R)), T20)
  /\ \A i \in 1..3 : NearM(Diff(i), DRot(R, i), QMk(1, "100000000000"))  \* the derivative
  /\ \A i \in 1..3 : NearM(RotOf(VScale(R[i], VUnit(3, i))), Euler(<<R[i]>>, <<<<"x", "y", "z">>[i]>>), T20)
QuatLaws ==
  r = <<0, 0, 0>> =>
  /\ IsRot(M)
  /\ QEq(QAdd(SinSq(M), Sq(CosOf(M))), Q1)
  /\ MEq(QuatRot([i \in 1..4 |-> -q[i]]), M)
\* Euler angles: quarter turns about named axes are exact
Quarter(a) == CASE a = "x" -> QuatRot(<<1, 1, 0, 0>>) [] a = "y" -> QuatRot(<<1, 0, 1, 0>>) [] a = "z" -> QuatRot(<<1, 0, 0, 1>>)
ASSUME \A a, b \in {"x", "y", "z"} :
  NearM(Euler(<<Radians(QI(90)), Radians(QI(90))>>, <<a, b>>), MatMul(Quarter(b), Quarter(a)), T20)
\* the check of the frame from two directions accepts only the frame
O(m) == [k |-> "arr", shape |-> <<3, 3>>, dt |-> "f", fin |-> TRUE, v |-> m]
UpLook == r = <<0, 0, 0>> =>
  LET ev(m) == [up |-> MCol(Transp(M), 2), look |-> VAdd(M[3], VScale(QI(2), M[2])), obs |-> O(m)]
  IN  /\ UpLookFails(ev(M)) = {}
      /\ UpLookFails(ev(MatMul(Quarter("y"), M))) # {}
      /\ UpLookFails(ev(<<VNeg(M[1]), M[2], VNeg(M[3])>>)) # {}
      /\ UpLookFails(ev(<<VNeg(M[1]), M[2], M[3]>>)) # {}
EmitCase == Emit => PrintT("CASE " \o ToJson(
  IF q = <<1, 0, 0, 0>>
  THEN <<[op |-> "from_vector", r |-> R, form |-> "v", jac |-> TRUE], [op |-> "from_vector", r |-> R, form |-> "c", jac |-> FALSE],
         [op |-> "as_matrix", vec |-> TRUE, r |-> R, form |-> "r"],
         [op |-> "euler", xyz |-> [i \in 1..3 |-> QI(45 * r[i])], axes |-> <<"x", "y", "z">>, units |-> "deg", form |-> "l"],
         [op |-> "euler", xyz |-> R, axes |-> <<"z", "x", "z">>, units |-> "rad", form |-> "f"]>>
  ELSE <<[op |-> "quaternion", q |-> q, jac |-> TRUE], [op |-> "up_look", up |-> M[1], look |-> VAdd(M[2], VScale(QI(r[1]), M[1])), form |-> "f"]>>))
=============================================================================
