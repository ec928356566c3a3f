-------------------------------- MODULE Trig --------------------------------
(* Sine, cosine and the rotation of a rotation vector, as power series over *)
(* the exact rationals, truncated far below any tolerance used here.        *)
EXTENDS Vec

Big == QMk("1267650600228229401496703205376", 1)          \* 2^100
Trunc(a) == QDiv(QFloor(QMul(a, Big)), Big)
Tiny == QDiv(Q1, QMk("1237940039285380274899124224", 1))  \* 2^-90
Pi == QMk("3141592653589793238462643383279502884197", "1000000000000000000000000000000000000000")

\* square root, to about 30 digits: Newton's iteration from above
RECURSIVE Newton(_, _)
Newton(q, x) == LET y == Trunc(QMul(Half, QAdd(x, QDiv(q, x))))
                IN  IF QLe(x, y) THEN x ELSE Newton(q, y)
P40 == QMk("1099511627776", 1)                             \* 2^40
RECURSIVE Root(_)                          \* to 20 digits or more, however small
Root(q) == IF QSgn(q) <= 0 THEN Q0
           ELSE IF QLt(QMul(q, P40), Q1) THEN QDiv(Root(QMul(q, Sq(P40))), P40)
           ELSE Newton(q, Max1(q))

RECURSIVE Series(_, _, _, _)
\* sum of (-t)^k / ((m+1)(m+2)...(m+2k)), term = the current one
Series(t, term, m, acc) ==
  IF QLe(QAbs(term), Tiny) THEN acc
  ELSE Series(t, Trunc(QNeg(QDiv(QMul(term, t), QI((m + 1) * (m + 2))))), m + 2, QAdd(acc, term))
Sinc(t) == Series(t, Q1, 1, Q0)              \* sin(x)/x       with t = x^2
Cosc(t) == Series(t, Half, 2, Q0)            \* (1-cos(x))/x^2 with t = x^2
Sin(x) == QMul(x, Sinc(Sq(x)))
Cos(x) == QSub(Q1, QMul(Sq(x), Cosc(Sq(x))))
Radians(deg) == QDiv(QMul(deg, Pi), QI(180))

\* exp of the skew matrix of r: rotation by |r| about r
RotOf(r) == LET t == VSq(r)
                K == Skew(r)
            IN  MAdd(MAdd(Ident(3), MScale(Sinc(t), K)), MScale(Cosc(t), MatMul(K, K)))
IsRot(M) == MEq(MatMul(M, Transp(M)), Ident(3)) /\ QEq(Det(M), Q1)
IsRotNear(M, t) == /\ NearM(MatMul(M, Transp(M)), Ident(3), t)
                   /\ Near(Det(M), Q1, t)
=============================================================================
