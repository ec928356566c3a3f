------------------------------ MODULE RoundTo ------------------------------
(* Rounding to an increment, as a relation: ties may go either way.         *)
EXTENDS Obs

QRound(q) == QFloor(QAdd(q, Half))
IsMultiple(o, inc) == LET k == QDiv(o, inc) IN Near(k, QRound(k), QMul(E9, Max1(QAbs(k))))
RoundedTo(o, v, inc) ==
  /\ QFin(o)
  /\ IsMultiple(o, inc)
  /\ QLe(QAbs(QSub(o, v)), QAdd(QDiv(QAbs(inc), QI(2)), QMul(E9, QMax(QAbs(v), QAbs(inc)))))
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN Q1 ELSE IF k > 0 THEN QMul(QI(10), Pow10(k - 1)) ELSE QDiv(Pow10(k + 1), QI(10))
=============================================================================
