----------------------------- MODULE Rationals -----------------------------
(***************************************************************************)
(* Exact rational numbers, the number system of every specification here.  *)
(*                                                                         *)
(* A rational is the pair <<n, d>> in lowest terms with d > 0.  The pairs  *)
(* with d = 0 are the non-numbers an implementation can produce:           *)
(* <<0,0>> is NaN, <<1,0>> and <<-1,0>> are the infinities.  Arithmetic    *)
(* with a non-number gives NaN, and no comparison with one is TRUE.        *)
(*                                                                         *)
(* The definitions below are the meaning.  TLC's integers have 32 bits, so *)
(* java/Rationals.java overrides the operators with BigInteger arithmetic; *)
(* a numerator or denominator that does not fit in an integer is then a    *)
(* decimal string.  MC_Rationals checks, over a finite domain, that the    *)
(* override agrees with these definitions (copied in RationalsPure).       *)
(***************************************************************************)
EXTENDS Integers, Sequences

NaN == <<0, 0>>

LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE GcdI(_, _)
GcdI(a, b) == IF b = 0 THEN a ELSE GcdI(b, a % b)

\* <<n, d>> in lowest terms
QMk(n, d) == IF d = 0 THEN <<IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0, 0>>
             ELSE LET g == GcdI(AbsI(n), AbsI(d))
                      s == IF d < 0 THEN -1 ELSE 1
                  IN  <<s * (n \div g), AbsI(d) \div g>>

QFin(a) == a[2] # 0
QI(n) == <<n, 1>>
QInt(a) == a[1]        \* of an integral rational that fits in TLC's integers

QAdd(a, b) == IF QFin(a) /\ QFin(b) THEN QMk(a[1] * b[2] + b[1] * a[2], a[2] * b[2]) ELSE NaN
QNeg(a)    == IF QFin(a) THEN <<-a[1], a[2]>> ELSE NaN
QSub(a, b) == IF QFin(a) /\ QFin(b) THEN QMk(a[1] * b[2] - b[1] * a[2], a[2] * b[2]) ELSE NaN
QMul(a, b) == IF QFin(a) /\ QFin(b) THEN QMk(a[1] * b[1], a[2] * b[2]) ELSE NaN
QDiv(a, b) == IF QFin(a) /\ QFin(b) /\ b[1] # 0 THEN QMk(a[1] * b[2], a[2] * b[1]) ELSE NaN
QAbs(a)    == IF QFin(a) THEN <<AbsI(a[1]), a[2]>> ELSE NaN
QSgn(a)    == IF ~QFin(a) \/ a[1] = 0 THEN 0 ELSE IF a[1] < 0 THEN -1 ELSE 1
QLt(a, b)  == QFin(a) /\ QFin(b) /\ a[1] * b[2] < b[1] * a[2]
QLe(a, b)  == QFin(a) /\ QFin(b) /\ a[1] * b[2] <= b[1] * a[2]
QEq(a, b)  == QFin(a) /\ QFin(b) /\ a[1] * b[2] = b[1] * a[2]
QFloor(a)  == IF QFin(a) THEN <<a[1] \div a[2], 1>> ELSE NaN
QCeil(a)   == IF QFin(a) THEN <<-((-a[1]) \div a[2]), 1>> ELSE NaN
QMax(a, b) == IF QLe(a, b) THEN b ELSE IF QLt(b, a) THEN a ELSE NaN
QMin(a, b) == IF QLe(a, b) THEN a ELSE IF QLt(b, a) THEN b ELSE NaN

RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN QI(0) ELSE QAdd(Head(s), QSum(Tail(s)))

RECURSIVE QDot(_, _)
QDot(s, t) == IF s = <<>> THEN QI(0)
              ELSE QAdd(QMul(Head(s), Head(t)), QDot(Tail(s), Tail(t)))

RECURSIVE QMaxAbs(_)      \* largest absolute value in a sequence, 0 if empty
QMaxAbs(s) == IF s = <<>> THEN QI(0) ELSE QMax(QAbs(Head(s)), QMaxAbs(Tail(s)))
=============================================================================
