----------------------------- MODULE RotationsApi -----------------------------
(* Rotations from two directions, from Euler angles, from rotation vectors   *)
(* and back, with derivatives, and the rotation that lays points on the x-z  *)
(* plane.  A rotation is a matrix M with M M^T = I and determinant 1.        *)
EXTENDS Obs, Trig
InitState == <<>>
Step(st, ev) == st

\* ---- about a named axis, right-handed ---------------------------------------
AxisVec(a) == CASE a = "x" -> VUnit(3, 1) [] a = "y" -> VUnit(3, 2) [] a = "z" -> VUnit(3, 3)
About(a, t) == RotOf(VScale(t, AxisVec(a)))
RECURSIVE EulerFrom(_, _, _)
EulerFrom(ts, axes, M) ==                 \* M, then about axes[1], then ...
  IF Len(ts) = 0 \/ Len(axes) = 0 THEN M
  ELSE EulerFrom(Tail(ts), Tail(axes), MatMul(About(Head(axes), Head(ts)), M))
Euler(ts, axes) == EulerFrom(ts, axes, Ident(3))

\* ---- the derivative of RotOf at r with respect to r[i] ----------------------
\* (the formula of Gallego and Yezzi; MC_Rotations compares it with differences)
DRot(r, i) ==
  LET e == VUnit(3, i)
      n == VSq(r)
      R == RotOf(r)
      w == VAdd(VScale(r[i], r), Cross(r, VSub(e, MCol(R, i))))
  IN  IF QSgn(n) = 0 THEN Skew(e) ELSE MatMul(MScale(QDiv(Q1, n), Skew(w)), R)
Flat(M) == M[1] \o M[2] \o M[3]
JacOf(r) == [i \in 1..3 |-> Flat(DRot(r, i))]          \* 3 x 9

\* ---- sine and cosine of a matrix's angle ------------------------------------
SinSq(M) == QMul(QMk(1, 4), VSq(<<QSub(M[3][2], M[2][3]), QSub(M[1][3], M[3][1]), QSub(M[2][1], M[1][2])>>))
CosOf(M) == QMul(Half, QSub(QAdd(QAdd(M[1][1], M[2][2]), M[3][3]), Q1))
\* the code treats angles within 1e-5 of 0 and of pi as such
NearlyStill(M) == QLe(SinSq(M), QMul(QI(4), E10)) /\ QSgn(CosOf(M)) > 0
NearlyHalf(M) == QLe(SinSq(M), QMul(QI(4), E10)) /\ QSgn(CosOf(M)) <= 0
RotTol(M) == IF NearlyStill(M) \/ NearlyHalf(M) THEN QMk(1, 10000) ELSE E9

\* ---- verdicts ------------------------------------------------------------------
Exact(M) == MatMul(M, Transp(M))
ProperOK(o, t) == IsMat(o, 3, 3) /\ IsRotNear(o.v, t)
UpLookFails(ev) ==
  LET up == ev.up look == ev.look o == ev.obs
      c == VSq(Cross(up, look))
      n == QMul(VSq(up), VSq(look))
      R == o.v
  IN  IF QSgn(n) = 0 \/ QSgn(c) = 0 THEN Chk(IsExc(o), "C15.collinear_refused")
      ELSE IF QLt(c, QMul(E12, n)) THEN {}              \* within 1e-6 of collinear
      ELSE IF ~ProperOK(o, E9) THEN {"C15.proper"}
      ELSE LET u == MatVec(R, up) l == MatVec(R, look)
               lu == Root(VSq(up)) ll == Root(VSq(look))
           IN  Chk(NearV(u, <<Q0, lu, Q0>>, QMul(E9, lu)), "C15.up_to_y")
               \cup Chk(Near(l[1], Q0, QMul(E9, ll)) /\ QSgn(l[3]) > 0, "C15.look_to_z")
EulerFails(ev) ==
  LET ts == [i \in 1..Len(ev.xyz) |-> IF ev.units = "deg" THEN Radians(ev.xyz[i]) ELSE ev.xyz[i]]
  IN  Chk(MatNear(ev.obs, Euler(ts, ev.axes), E10), "C15.euler")
JacNear(o, r, t) == IsMat(o, 3, 9) /\ NearM(o.v, JacOf(r), t)
FromVectorFails(ev) ==
  Chk(MatNear(ev.obs.r, RotOf(ev.r), E10), "C15.vector_to_matrix")
  \cup (IF ev.jac THEN Chk(JacNear(ev.obs.j, ev.r, E7), "C15.derivative") ELSE {})
VecOf(o) == [i \in 1..3 |-> o.v[i][1]]
\* the derivative of the map back undoes that of the map
InverseJac(o, r, t) == IsMat(o, 9, 3) /\ NearM(MatMul(JacOf(r), o.v), Ident(3), t)
FromMatrixFails(ev) ==
  LET M == ev.m o == ev.obs IN
  IF ~IsMat(o.r, 3, 1) THEN {"C15.matrix_to_vector"}
  ELSE LET v == VecOf(o.r) IN
    Chk(QLe(VSq(v), Sq(QAdd(Pi, E9))), "C15.half_turn")
    \cup (IF QLe(VSq(v), QI(16)) THEN Chk(NearM(RotOf(v), M, RotTol(M)), "C15.matrix_to_vector") ELSE {"C15.matrix_to_vector"})
    \cup (IF ~ev.jac \/ (QSgn(CosOf(M)) < 0 /\ QLt(SinSq(M), QMk(1, 10000))) THEN {}
          ELSE Chk(InverseJac(o.j, v, IF QLt(SinSq(M), E6) THEN QMk(1, 10000) ELSE E6), "C15.derivative_back"))
AsMatrixFails(ev) ==
  Chk(IF ev.vec THEN MatNear(ev.obs, RotOf(ev.r), E10) ELSE MatNear(ev.obs, ev.m, RotTol(ev.m)), "C15.as_matrix")
RefusedFails(ev) == Chk(IsExc(ev.obs), "C15.refused")

\* the points, centred unless their mean is the origin
Size(pts) == MaxAbsM(pts)
XZFails(ev) ==
  LET pts == ev.points o == ev.obs
      m == VMean(pts)
      far == QLt(QMk(11, 1000000), Root(VSq(m)))
      near == QLt(Root(VSq(m)), QMk(9, 1000000))
      s == Size(pts)
      moved == o.p0.k # "none"
      centred == IF moved THEN [i \in 1..Len(pts) |-> VSub(pts[i], m)] ELSE pts
  IN  IF o.k # "xz" THEN {"C15.xz"}
      ELSE Chk((far => moved) /\ (near => ~moved), "C15.centred")
           \cup Chk(moved => VecNear(o.p0, VNeg(m), QMul(E10, s)), "C15.centred")
           \cup (IF ~ProperOK(o.rot, E9) THEN {"C15.proper"}
                 ELSE Chk(MatNear(o.image, MatMul(centred, Transp(o.rot.v)), QMul(E9, s)), "C15.image")
                      \cup IF ev.hasnormal
                           \* the code treats a normal within 1e-5 of the axis as on it
                           THEN LET t == IF Near(QAbs(ev.normal[2]), Q1, E9) THEN QMk(1, 10000) ELSE E9
                                IN Chk(NearV(MatVec(o.rot.v, ev.normal), VUnit(3, 2), t), "C15.normal_to_y")
                           ELSE LET flat == \A i \in 1..Len(pts) : Near(QSub(o.image.v[i][2], o.image.v[1][2]), Q0, QMul(QMk(1, 10000), s))
                                IN Chk(IsMat(o.image, Len(pts), 3) /\ flat, "C15.estimated_to_y"))
NormalFails(ev) ==
  LET pts == ev.points o == ev.obs IN
  Chk(IsVec(o, 3) /\ Near(VSq(o.v), Q1, E9)
      /\ \A i \in 2..Len(pts) : Near(VDot(o.v, VSub(pts[i], pts[1])), Q0, QMul(E8, Size(pts))), "C15.estimate")

Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "up_look" -> UpLookFails(ev)
          [] ev.op = "euler" -> EulerFails(ev)
          [] ev.op = "from_vector" -> FromVectorFails(ev)
          [] ev.op = "from_matrix" -> FromMatrixFails(ev)
          [] ev.op = "as_matrix" -> AsMatrixFails(ev)
          [] ev.op = "refused" -> RefusedFails(ev)
          [] ev.op = "xz" -> XZFails(ev)
          [] ev.op = "normal" -> NormalFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C15.argument_changed")
=============================================================================
