-------------------------------- MODULE VxApi --------------------------------
(* The vector shortcuts.  A call takes one vector or a stack of them (the    *)
(* rows of a matrix), answers for each row alike, and changes nothing.       *)
EXTENDS Obs, Trig
InitState == <<>>
Step(st, ev) == st

\* ---- definitions, for one vector -------------------------------------------
Proj(v, o) == VScale(QDiv(VDot(v, o), VSq(o)), o)
Reject(v, o) == VSub(v, Proj(v, o))
ZeroAxis(v, k) == [i \in 1..Len(v) |-> IF i = k THEN Q0 ELSE v[i]]
DropAxis(v, k) == Drop(v, k)
Pad(v) == v \o <<Q1>>
TripleSign(a, b, look) == QSgn(VDot(Cross(a, b), look))
Len2(v) == Root(VSq(v))

\* ---- what a float answer may be ---------------------------------------------
R12(s) == QMul(E11, s)
UnitOK(o, v) == Len(o) = Len(v) /\ NearV(VScale(Len2(v), o), v, R12(Len2(v)))
SprojOK(o, v, w) == Near(QMul(o, Len2(w)), VDot(v, w), R12(QMul(Len2(v), Len2(w))))
ProjOK(o, v, w) == Len(o) = Len(v) /\ NearV(o, Proj(v, w), R12(Len2(v)))
RejectOK(o, v, w) == Len(o) = Len(v) /\ NearV(o, Reject(v, w), R12(Len2(v)))
MagOK(o, v) == NearRoot(o, VSq(v), E11)
\* the angle in degrees between a and b
AngleOK(o, a, b) ==
  LET n == QMul(Len2(a), Len2(b))
  IN  /\ QLe(Q0, o) /\ QLe(o, QI(180))
      /\ Near(QMul(Cos(Radians(o)), n), VDot(a, b), QMul(E11, n))
SignedOK(o, a, b, look) ==
  LET t == VDot(Cross(a, b), look)
      n == QMul(QMul(Len2(a), Len2(b)), Len2(look))
      decided == \/ QLt(QMul(E12, n), QAbs(t))
                 \/ \A v \in 1..3 : LET x == <<a, b, look>>[v] IN \A i \in 1..3 : QEq(x[i], QFloor(x[i])) /\ QLe(QAbs(x[i]), QI(1000))   \* exact in floating point
  IN  /\ AngleOK(QAbs(o), a, b)
      /\ (decided => (QSgn(o) < 0 <=> QSgn(t) < 0) \/ QSgn(o) = 0)

\* ---- verdicts ----------------------------------------------------------------
Rows(x) == IF x.nd = 1 THEN <<x.v>> ELSE x.v
\* a vector answer per row / a number per row
Each(x, o, OK(_, _)) ==
  /\ o.k = "arr" /\ Len(o.shape) = x.nd
  /\ IF x.nd = 1 THEN OK(o.v, x.v) ELSE /\ Len(o.v) = Len(x.v)
                                        /\ \A i \in 1..Len(x.v) : OK(o.v[i], x.v[i])
EachNum(x, o, OK(_, _)) ==
  IF x.nd = 1 THEN o.k = "num" /\ OK(o.v, x.v)
  ELSE o.k = "arr" /\ o.shape = <<Len(x.v)>> /\ \A i \in 1..Len(x.v) : OK(o.v[i], x.v[i])
Refused(o) == Raised(o, {"ValueError"})
VectorFails(ev) ==
  LET x == ev.x o == ev.obs IN
  IF ev.x.nd \notin {1, 2}
  THEN IF ev.fn = "sproj" THEN {} ELSE Chk(Refused(o), "C14.refused_shape")
  ELSE CASE ev.fn = "normalize" -> Chk(Each(x, o, UnitOK), "C14.normalize")
         [] ev.fn = "magnitude" -> Chk(EachNum(x, o, MagOK), "C14.magnitude")
         [] ev.fn = "sproj" -> Chk(EachNum(x, o, LAMBDA a, v : SprojOK(a, v, ev.onto)), "C14.sproj")
         [] ev.fn = "proj" -> Chk(Each(x, o, LAMBDA a, v : ProjOK(a, v, ev.onto)), "C14.proj")
         [] ev.fn = "reject" -> Chk(Each(x, o, LAMBDA a, v : RejectOK(a, v, ev.onto)), "C14.reject")
         [] ev.fn = "reject_axis" ->
              IF ev.axis \notin 0..2 THEN (IF ev.squash THEN Chk(Refused(o), "C14.refused_axis") ELSE {})
              ELSE Chk(Each(x, o, LAMBDA a, v : VEq(a, IF ev.squash THEN DropAxis(v, ev.axis + 1) ELSE ZeroAxis(v, ev.axis + 1))), "C14.reject_axis")
                   \cup Chk(~ev.shared, "C14.copy")
AngleFails(ev) ==
  Chk(ev.obs.k = "num" /\ IF ev.signed THEN SignedOK(ev.obs.v, ev.a, ev.b, ev.look) ELSE AngleOK(ev.obs.v, ev.a, ev.b), "C14.angle")
\* decided only away from the tolerance
AlmostFails(ev) ==
  LET q == IF ev.fn = "zero" THEN MaxAbsV(ev.a) ELSE Len2(Cross(ev.a, ev.b))
      slack == IF ev.fn = "zero" THEN Q0 ELSE QAdd(QMul(QMk(1, "10000000000000"), QMul(Len2(ev.a), Len2(ev.b))), QMul(E9, ev.atol))
      exact == QSgn(q) = 0
  IN  IF QLt(QAdd(ev.atol, slack), q) THEN Chk(IsBool(ev.obs, FALSE), "C14.almost")
      ELSE IF QLe(QAdd(q, slack), ev.atol) \/ exact THEN Chk(IsBool(ev.obs, TRUE), "C14.almost")
      ELSE Chk(ev.obs.k = "bool", "C14.almost")
IsN(x, w) == x.nd = 2 /\ x.w = w
ColumnOfOnes(x) == \A i \in 1..Len(x.v) : QEq(x.v[i][4], Q1)
\* more than rounding away from 1
FarFromOnes(x) == \E i \in 1..Len(x.v) : ~Near(x.v[i][4], Q1, QMk(1, "100000000000000"))
MatExact(o, e, w) == IsShape(o, <<Len(e), w>>) /\ \A i \in 1..Len(e) : VEq(o.v[i], e[i])
PadFails(ev) ==
  LET x == ev.x IN
  IF ev.fn = "pad" THEN
    IF ~IsN(x, 3) THEN Chk(Refused(ev.obs), "C14.refused_shape")
    ELSE Chk(MatExact(ev.obs, [i \in 1..Len(x.v) |-> Pad(x.v[i])], 4), "C14.pad")
  ELSE IF ~IsN(x, 4) \/ FarFromOnes(x) THEN Chk(Refused(ev.obs), "C14.refused_shape")
  ELSE IF ColumnOfOnes(x) THEN Chk(MatExact(ev.obs, [i \in 1..Len(x.v) |-> Drop(x.v[i], 4)], 3), "C14.unpad")
  ELSE {}
Affine(M) == QSgn(M[4][1]) = 0 /\ QSgn(M[4][2]) = 0 /\ QSgn(M[4][3]) = 0 /\ QEq(M[4][4], Q1)
ApplyFails(ev) ==
  LET x == ev.x M == ev.m
      img(v) == MatVec(M, Pad(v))
      \* the largest sum of the sizes of the terms of a coordinate
      size(v) == LET w == Pad(v) IN QMaxAbs([i \in 1..3 |-> QSum([j \in 1..4 |-> QAbs(QMul(M[i][j], w[j]))])])
  IN  IF ~IsN(x, 3) \/ ~(Len(M) = 4 /\ \A i \in 1..4 : Len(M[i]) = 4) THEN Chk(Refused(ev.obs), "C14.refused_shape")
      ELSE IF Affine(M)
      THEN Chk(IsShape(ev.obs, <<Len(x.v), 3>>) /\ \A i \in 1..Len(x.v) : NearV(ev.obs.v[i], Drop(img(x.v[i]), 4), R12(size(x.v[i]))), "C14.apply")
      ELSE IF \E i \in 1..Len(x.v) : ~Near(img(x.v[i])[4], Q1, QMk(1, 10000)) THEN Chk(Refused(ev.obs), "C14.apply")
      ELSE {}
BasisOf == [x |-> VInt(<<1, 0, 0>>), y |-> VInt(<<0, 1, 0>>), z |-> VInt(<<0, 0, 1>>),
            neg_x |-> VInt(<<-1, 0, 0>>), neg_y |-> VInt(<<0, -1, 0>>), neg_z |-> VInt(<<0, 0, -1>>)]
BasisFails(ev) == Chk(IsVec(ev.obs, 3) /\ VEq(ev.obs.v, BasisOf[ev.name]), "C14.basis")

Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "vector" -> VectorFails(ev)
          [] ev.op = "angle" -> AngleFails(ev)
          [] ev.op = "almost" -> AlmostFails(ev)
          [] ev.op = "pad" -> PadFails(ev)
          [] ev.op = "apply" -> ApplyFails(ev)
          [] ev.op = "basis" -> BasisFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C14.argument_changed")
=============================================================================
