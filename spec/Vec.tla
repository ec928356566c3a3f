-------------------------------- MODULE Vec --------------------------------
(* Vectors and matrices over the exact rationals: a vector is a sequence    *)
(* of rationals, a matrix is the sequence of its rows.                      *)
EXTENDS Rationals, TLC, FiniteSets

Q0 == QI(0)
IsNaN(q) == ~QFin(q) /\ q[1] = 0
Q1 == QI(1)
Half == QMk(1, 2)

VAdd(a, b) == TLCEval([i \in 1..Len(a) |-> QAdd(a[i], b[i])])
VSub(a, b) == TLCEval([i \in 1..Len(a) |-> QSub(a[i], b[i])])
VNeg(a) == TLCEval([i \in 1..Len(a) |-> QNeg(a[i])])
VScale(k, a) == TLCEval([i \in 1..Len(a) |-> QMul(k, a[i])])
VAbs(a) == [i \in 1..Len(a) |-> QAbs(a[i])]
VDot(a, b) == QDot(a, b)
Sq(a) == QMul(a, a)
VSq(a) == QDot(a, a)                        \* squared length
VZero(n) == [i \in 1..n |-> Q0]
VEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : QEq(a[i], b[i])
VUnit(n, k) == [i \in 1..n |-> IF i = k THEN Q1 ELSE Q0]
VInt(s) == [i \in 1..Len(s) |-> QI(s[i])]
VMean(pts) == [j \in 1..Len(pts[1]) |->
                 QDiv(QSum([i \in 1..Len(pts) |-> pts[i][j]]), QI(Len(pts)))]
VIsZero(a) == \A i \in 1..Len(a) : QSgn(a[i]) = 0 /\ QFin(a[i])

Cross(a, b) == << QSub(QMul(a[2], b[3]), QMul(a[3], b[2])),
                  QSub(QMul(a[3], b[1]), QMul(a[1], b[3])),
                  QSub(QMul(a[1], b[2]), QMul(a[2], b[1])) >>

Ident(n) == [i \in 1..n |-> VUnit(n, i)]
MCol(A, j) == TLCEval([i \in 1..Len(A) |-> A[i][j]])
Transp(A) == IF Len(A) = 0 THEN <<>> ELSE TLCEval([j \in 1..Len(A[1]) |-> MCol(A, j)])
MatVec(A, v) == TLCEval([i \in 1..Len(A) |-> QDot(A[i], v)])
MatMul(A, B) == LET BT == Transp(B)
                IN  TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(BT) |-> QDot(A[i], BT[j])]])
MScale(k, A) == TLCEval([i \in 1..Len(A) |-> VScale(k, A[i])])
MAdd(A, B) == TLCEval([i \in 1..Len(A) |-> VAdd(A[i], B[i])])
MSub(A, B) == TLCEval([i \in 1..Len(A) |-> VSub(A[i], B[i])])
MAbs(A) == [i \in 1..Len(A) |-> VAbs(A[i])]
MEq(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : VEq(A[i], B[i])
Skew(r) == << <<Q0, QNeg(r[3]), r[2]>>, <<r[3], Q0, QNeg(r[1])>>, <<QNeg(r[2]), r[1], Q0>> >>

Drop(s, k) == [i \in 1..(Len(s) - 1) |-> IF i < k THEN s[i] ELSE s[i + 1]]
Minor(A, i, j) == [r \in 1..(Len(A) - 1) |-> Drop(A[IF r < i THEN r ELSE r + 1], j)]
RECURSIVE Det(_)
Det(A) == IF Len(A) = 0 THEN Q1
          ELSE IF Len(A) = 1 THEN A[1][1]
          ELSE IF Len(A) = 2 THEN QSub(QMul(A[1][1], A[2][2]), QMul(A[1][2], A[2][1]))
          ELSE QSum([j \in 1..Len(A) |->
                 IF QSgn(A[1][j]) = 0 THEN Q0 ELSE
                 LET t == QMul(A[1][j], Det(Minor(A, 1, j)))
                 IN  IF j % 2 = 1 THEN t ELSE QNeg(t)])
\* inverse by the adjugate; A is square and Det(A) # 0
Inv(A) == LET n == Len(A)
              d == Det(A)
          IN  [i \in 1..n |-> [j \in 1..n |->
                 LET m == QDiv(IF n = 1 THEN Q1 ELSE Det(Minor(A, j, i)), d)
                 IN  IF (i + j) % 2 = 0 THEN m ELSE QNeg(m)]]

MaxAbsV(v) == QMaxAbs(v)
MaxAbsM(A) == QMaxAbs([i \in 1..Len(A) |-> QMaxAbs(A[i])])
Max1(q) == QMax(Q1, q)

\* |obs - exp| <= t.  FALSE when obs is NaN or infinite.
Near(o, e, t) == QLe(QAbs(QSub(o, e)), t)
NearV(o, e, t) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : Near(o[i], e[i], t)
NearM(o, e, t) == Len(o) = Len(e) /\ \A i \in 1..Len(e) : NearV(o[i], e[i], t)

\* Decimal tolerances: 10^-k
E3 == QMk(1, 1000)
E6 == QMk(1, 1000000)
E7 == QMk(1, 10000000)
E8 == QMk(1, 100000000)
E9 == QMk(1, 1000000000)
E10 == QMk(1, "10000000000")
E11 == QMk(1, "100000000000")
E12 == QMk(1, "1000000000000")
E14 == QMk(1, "100000000000000")
E20 == QMk(1, "100000000000000000000")

\* obs is the non-negative square root of q, to relative tolerance t
NearRoot(o, q, t) == QFin(o) /\ QSgn(o) >= 0 /\ Near(Sq(o), q, QMul(t, q))

\* ---- sequences and finite sets of indices -------------------------------
Range(s) == {s[i] : i \in 1..Len(s)}
MinS(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxS(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Ascending(_)                     \* the finite set S as a sequence
Ascending(S) == IF S = {} THEN <<>> ELSE LET m == MinS(S) IN <<m>> \o Ascending(S \ {m})
Has(r, f) == f \in DOMAIN r
=============================================================================
