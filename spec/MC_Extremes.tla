------------------------------ MODULE MC_Extremes ------------------------------
(* A curve over an even span whose heights change one at a time; its points  *)
(* are also just points, and two of its heights a box.                       *)
EXTENDS ExtremesApi, Json
CONSTANTS N, H, Emit
VARIABLES y
Init == y = [i \in 1..N |-> 0]
Next == \E i \in 1..N, h \in -H..H : y' = [y EXCEPT ![i] = h]
X == [i \in 1..N |-> QI(2 * i)]
Y == TLCEval([i \in 1..N |-> QI(y[i])])
P == TLCEval([i \in 1..N |-> <<X[i], Y[i], QI(1 - y[i])>>])
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Tilt == [i \in 1..N |-> QAdd(QMul(QI(3), Y[i]), QAdd(QMul(QI(-5), X[i]), QI(7)))]
InflectionLaws ==
  LET I == Inflects(Y, X) IN
  /\ Inflects(Tilt, X) = I
  /\ Inflects([i \in 1..N |-> QNeg(Y[i])], X) = I
  /\ Inflects(Y, [i \in 1..N |-> QMul(QI(-3), X[i])]) = I
  /\ {N - i : i \in Inflects(Rev(Y), X)} = I
  \* curved one way throughout
  /\ Inflects([i \in 1..N |-> QI(i * i)], X) = {}
  /\ Inflects([i \in 1..N |-> QI(5 * i)], X) = 1..(N - 1)
Up == <<Q0, Q1, Q0>>
ExtremeLaws ==
  LET k == ApexIndex(P, Up) IN
  /\ \A i \in 1..N : QLe(Y[i], Y[k])
  /\ \A i \in 1..N : QEq(Y[i], Y[k]) => k <= i
  /\ ApexIndex(P, VScale(QI(4), Up)) = k
  \* very far along an axis, the farthest is the apex the other way
  /\ LET f == FarIndex(VScale(QI(-100000), Up), P) IN QEq(Y[f], Y[k])
BoxLaws ==
  LET o == P[1]
      s == VAbs(<<Y[1], Y[2], QI(3)>>)
      B == BoxOf(o, s) IN
  /\ QEq(QAdd(B.min_x, B.max_x), QMul(QI(2), B.mid_x))
  /\ QEq(QSub(B.max_z, B.min_z), B.depth)
  /\ QEq(QMul(B.surface_area, B.depth), QMul(QI(2), QAdd(QMul(B.depth, QMul(s[3], QAdd(s[1], s[2]))), B.volume)))
  /\ VEq(CentreOf(o, s), <<B.mid_x, B.mid_y, B.mid_z>>)
  /\ VEq(FloorOf(o, s), <<B.mid_x, B.min_y, B.mid_z>>)
Arr(v) == [k |-> "arr", shape |-> <<Len(v)>>, dt |-> "f", fin |-> TRUE, v |-> v]
Mat(v) == [k |-> "arr", shape |-> <<Len(v), 3>>, dt |-> "f", fin |-> TRUE, v |-> v]
Pick(S) == LET a == Ascending(S) IN [k \in 1..Len(a) |-> P[a[k]]]
Accepts ==
  LET I == Inflects(Y, X)
      ev(o) == [op |-> "inflection", v |-> P, axis |-> Up, span |-> <<Q1, Q0, Q0>>, obs |-> o, mut |-> FALSE]
      ap(o) == [op |-> "apex", v |-> P, axis |-> Up, obs |-> o, mut |-> FALSE] IN
  /\ Fails(<<>>, ev(Mat(Pick(I)))) = {}
  /\ \A i \in 1..N : Fails(<<>>, ev(Mat(Pick(IF i \in I THEN I \ {i} ELSE I \cup {i})))) # {}
  /\ \A i \in 1..N : Fails(<<>>, ap(Arr(P[i]))) = {} <=> i = ApexIndex(P, Up)
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<[op |-> "inflection", v |-> P, axis |-> Up, span |-> <<Q1, Q0, Q0>>, form |-> "f"],
    [op |-> "apex", v |-> P, axis |-> Up, form |-> "i", via |-> "f"],
    [op |-> "far", v |-> P, p |-> <<QI(N + 1), Q0, Q0>>, form |-> "f"],
    [op |-> "box", origin |-> P[2], size |-> <<Y[1], Y[2], Y[3]>>, form |-> "f"]>>))
=============================================================================
