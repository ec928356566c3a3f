---------------------------- MODULE MC_Rationals ----------------------------
(* The Java override of Rationals agrees with the TLA+ definitions.        *)
EXTENDS Rationals, RationalsPure, TLC
CONSTANT N
Small == {PQMk(n, d) : n \in -N..N, d \in 0..N}
VARIABLES a, b
Init == a \in Small /\ b \in Small
Next == UNCHANGED <<a, b>>
Agree ==
  /\ QAdd(a,b) = PQAdd(a,b) /\ QSub(a,b) = PQSub(a,b) /\ QMul(a,b) = PQMul(a,b)
  /\ QDiv(a,b) = PQDiv(a,b) /\ QNeg(a) = PQNeg(a) /\ QAbs(a) = PQAbs(a)
  /\ QSgn(a) = PQSgn(a) /\ QLt(a,b) = PQLt(a,b) /\ QLe(a,b) = PQLe(a,b)
  /\ QEq(a,b) = PQEq(a,b) /\ QFloor(a) = PQFloor(a) /\ QCeil(a) = PQCeil(a)
  /\ QMax(a,b) = PQMax(a,b) /\ QMin(a,b) = PQMin(a,b) /\ QFin(a) = PQFin(a)
  /\ QSum(<<a,b,a>>) = PQSum(<<a,b,a>>) /\ QMaxAbs(<<a,b>>) = PQMaxAbs(<<a,b>>)
  /\ QDot(<<a,b>>,<<b,b>>) = PQDot(<<a,b>>,<<b,b>>)
  /\ QMk(a[1],a[2]) = PQMk(a[1],a[2])
\* The field laws hold of the numbers themselves (a sanity check of the meaning).
Field == QFin(a) /\ QFin(b) =>
  /\ QEq(QSub(QAdd(a,b),b), a)
  /\ (QSgn(b) # 0 => QEq(QMul(QDiv(a,b),b), a))
\* The override really is unbounded.
ASSUME QMul(QMk("123456789012345678901", 7), QMk(7, "123456789012345678901")) = <<1,1>>
=============================================================================
