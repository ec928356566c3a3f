------------------------------- MODULE Planes -------------------------------
(* Planes in space: [pt, n], n any non-zero normal.  Offsets along n are    *)
(* exact; distances are offsets divided by the length of n.                 *)
EXTENDS Obs

Rel(q) == QMul(E9, q)
Lerp(a, b, t) == VAdd(a, VScale(t, VSub(b, a)))
Off(pl, x) == VDot(pl.n, VSub(x, pl.pt))
Side(pl, x) == QSgn(Off(pl, x))
\* clearly off the plane, in relation to the size s of the coordinates
MarginSq(pl, s) == QMul(QMul(E20, Sq(s)), VSq(pl.n))
Clear(pl, x, s) == QLt(MarginSq(pl, s), Sq(Off(pl, x)))
CrossPoint(pl, a, b) == Lerp(a, b, QDiv(Off(pl, a), QSub(Off(pl, a), Off(pl, b))))
Project(pl, x) == VSub(x, VScale(QDiv(Off(pl, x), VSq(pl.n)), pl.n))
Canonical(pl) == VScale(QDiv(VDot(pl.pt, pl.n), VSq(pl.n)), pl.n)
Flipped(pl) == [pl EXCEPT !.n = VNeg(@)]

\* numbers that floating point adds and multiplies without rounding here
Nice(q) == QFin(q) /\ LET s == QMul(q, QI(256)) IN QEq(QFloor(s), s) /\ QLe(QAbs(q), QI(100000))
NiceV(v) == \A i \in 1..Len(v) : Nice(v[i])
NonZeros(v) == {i \in 1..Len(v) : QSgn(v[i]) # 0}
AxisAligned(n) == \E i \in 1..3 : NonZeros(n) = {i}
\* the side is decided without rounding
ExactSide(pl, x) == AxisAligned(pl.n) /\ NiceV(pl.n) /\ NiceV(pl.pt) /\ NiceV(x)
Decided(pl, x, s) == Clear(pl, x, s) \/ ExactSide(pl, x)

\* ---- lines and segments ------------------------------------------------------
Powers == {QI(0), QI(1), QI(-1), QI(2), QI(-2), Half, QNeg(Half)}
\* exactly parallel, and floating point sees it so
ExactParallel(pl, ray) ==
  /\ QSgn(VDot(pl.n, ray)) = 0
  /\ \/ AxisAligned(pl.n)
     \/ /\ \A i, j \in NonZeros(pl.n) : QEq(QAbs(pl.n[i]), QAbs(pl.n[j]))
        /\ \A i \in 1..3 : \E p \in Powers : QEq(ray[i], p)
ClearlyCrossing(pl, ray) == QLt(QMul(E10, QMul(VSq(pl.n), VSq(ray))), Sq(VDot(pl.n, ray)))
LinePoint(pl, pt, ray) == VSub(pt, VScale(QDiv(Off(pl, pt), VDot(pl.n, ray)), ray))
\* "point", "none" or "open" (no verdict)
LineCase(pl, ray) == IF ExactParallel(pl, ray) THEN "none"
                     ELSE IF ClearlyCrossing(pl, ray) THEN "point" ELSE "open"
SegSpan(pl, a, b) == QMax(MaxAbsV(pl.pt), QMax(MaxAbsV(a), MaxAbsV(b)))
\* how far rounding may move the crossing of an edge whose ends are close to
\* the plane, or nearly parallel to it
CrossTol(pl, a, b, s) ==
  LET d == QAbs(QSub(Off(pl, a), Off(pl, b)))
      r == QMul(QI(9), QMul(MaxAbsV(VSub(b, a)), MaxAbsV(pl.n)))
  IN  QAdd(QMul(E9, s), QMul(QMul(E14, s), QDiv(r, d)))
SegCase(pl, a, b) ==
  LET s == SegSpan(pl, a, b) IN
  IF ~Clear(pl, a, s) \/ ~Clear(pl, b, s) THEN "open"
  ELSE IF Side(pl, a) = Side(pl, b) THEN "none" ELSE "point"
=============================================================================
