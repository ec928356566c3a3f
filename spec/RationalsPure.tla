----------------------------- MODULE RationalsPure -----------------------------
\* Generated copy of Rationals.tla that no Java class overrides; see MC_Rationals.
EXTENDS Integers, Sequences

PNaN == <<0, 0>>

LOCAL AbsI(a) == IF a < 0 THEN -a ELSE a
RECURSIVE PGcdI(_, _)
PGcdI(a, b) == IF b = 0 THEN a ELSE PGcdI(b, a % b)

\* <<n, d>> in lowest terms
PQMk(n, d) == IF d = 0 THEN <<IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0, 0>>
             ELSE LET g == PGcdI(AbsI(n), AbsI(d))
                      s == IF d < 0 THEN -1 ELSE 1
                  IN  <<s * (n \div g), AbsI(d) \div g>>

PQFin(a) == a[2] # 0
PQI(n) == <<n, 1>>
PQInt(a) == a[1]        \* of an integral rational that fits in TLC's integers

PQAdd(a, b) == IF PQFin(a) /\ PQFin(b) THEN PQMk(a[1] * b[2] + b[1] * a[2], a[2] * b[2]) ELSE PNaN
PQNeg(a)    == IF PQFin(a) THEN <<-a[1], a[2]>> ELSE PNaN
PQSub(a, b) == IF PQFin(a) /\ PQFin(b) THEN PQMk(a[1] * b[2] - b[1] * a[2], a[2] * b[2]) ELSE PNaN
PQMul(a, b) == IF PQFin(a) /\ PQFin(b) THEN PQMk(a[1] * b[1], a[2] * b[2]) ELSE PNaN
PQDiv(a, b) == IF PQFin(a) /\ PQFin(b) /\ b[1] # 0 THEN PQMk(a[1] * b[2], a[2] * b[1]) ELSE PNaN
PQAbs(a)    == IF PQFin(a) THEN <<AbsI(a[1]), a[2]>> ELSE PNaN
PQSgn(a)    == IF ~PQFin(a) \/ a[1] = 0 THEN 0 ELSE IF a[1] < 0 THEN -1 ELSE 1
PQLt(a, b)  == PQFin(a) /\ PQFin(b) /\ a[1] * b[2] < b[1] * a[2]
PQLe(a, b)  == PQFin(a) /\ PQFin(b) /\ a[1] * b[2] <= b[1] * a[2]
PQEq(a, b)  == PQFin(a) /\ PQFin(b) /\ a[1] * b[2] = b[1] * a[2]
PQFloor(a)  == IF PQFin(a) THEN <<a[1] \div a[2], 1>> ELSE PNaN
PQCeil(a)   == IF PQFin(a) THEN <<-((-a[1]) \div a[2]), 1>> ELSE PNaN
PQMax(a, b) == IF PQLe(a, b) THEN b ELSE IF PQLt(b, a) THEN a ELSE PNaN
PQMin(a, b) == IF PQLe(a, b) THEN a ELSE IF PQLt(b, a) THEN b ELSE PNaN

RECURSIVE PQSum(_)
PQSum(s) == IF s = <<>> THEN PQI(0) ELSE PQAdd(Head(s), PQSum(Tail(s)))

RECURSIVE PQDot(_, _)
PQDot(s, t) == IF s = <<>> THEN PQI(0)
              ELSE PQAdd(PQMul(Head(s), Head(t)), PQDot(Tail(s), Tail(t)))

RECURSIVE PQMaxAbs(_)      \* largest absolute value in a sequence, 0 if empty
PQMaxAbs(s) == IF s = <<>> THEN PQI(0) ELSE PQMax(PQAbs(Head(s)), PQMaxAbs(Tail(s)))
=============================================================================
