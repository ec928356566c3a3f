------------------------------ MODULE MC_Helpers ------------------------------
(* A view of a buffer is cut, turned round and reshaped, step by step; and the *)
(* rounding rules, over fractions.                                             *)
EXTENDS HelpersApi, Json
CONSTANTS Shapes, Depth, Emit
SomeShapes == {<<12>>, <<4, 6>>, <<2, 3, 4>>, <<1, 4, 2>>, <<3, 1, 2>>}
VARIABLES shape, strides, off, n
vars == <<shape, strides, off, n>>
RECURSIVE CStrides(_)
CStrides(s) == IF s = <<>> THEN <<>> ELSE <<Prod(Tail(s))>> \o CStrides(Tail(s))
Init == \E s \in Shapes : shape = s /\ strides = CStrides(s) /\ off = 0 /\ n = 0
Swap(s, d) == [i \in 1..Len(s) |-> IF i = d THEN s[d + 1] ELSE IF i = d + 1 THEN s[d] ELSE s[i]]
Transpose == \E d \in 1..(Len(shape) - 1) : shape' = Swap(shape, d) /\ strides' = Swap(strides, d) /\ off' = off
Reverse == \E d \in 1..Len(shape) : strides' = [strides EXCEPT ![d] = -@] /\ off' = off + strides[d] * (shape[d] - 1) /\ shape' = shape
Every2nd == \E d \in 1..Len(shape) : shape' = [shape EXCEPT ![d] = (@ + 1) \div 2] /\ strides' = [strides EXCEPT ![d] = 2 * @] /\ off' = off
Part == \E d \in 1..Len(shape) : shape[d] > 1 /\ shape' = [shape EXCEPT ![d] = @ - 1] /\ strides' = strides /\ off' = off + strides[d]
Next == n < Depth /\ n' = n + 1 /\ (Transpose \/ Reverse \/ Every2nd \/ Part)
Size == Prod(shape)
Divs == {d \in 1..Size : Size % d = 0}
News == {<<Size>>} \cup {<<d, Size \div d>> : d \in Divs}
        \cup {<<p[1], p[2], Size \div (p[1] * p[2])>> : p \in {p \in Divs \X Divs : Size % (p[1] * p[2]) = 0}}
ViewLaws == \A new \in News :
  /\ CanView(shape, strides, new) <=> CanSplit(shape, strides, new)
  /\ (strides = CStrides(shape) => CanView(shape, strides, new))
  /\ (new = shape => CanView(shape, strides, new))
\* joining and splitting back
Through == \A new \in News : CanView(shape, strides, new) =>
  LET t == [d \in 1..Len(new) |-> StepTo(new, d, Places(shape, strides))] IN CanView(new, t, shape)
Fr == {QMk(a, 8) : a \in -20..20}
Incs == {QMk(1, 4), QMk(1, 3), QMk(3, 4), QI(1), QI(2), QMk(1, 10)}
RoundLaws == n = 0 => \A v \in Fr, inc \in Incs :
  /\ RoundedTo(QMul(inc, QRound(QDiv(v, inc))), v, inc)
  /\ MultipleOf(QMul(inc, QRound(QDiv(v, inc))), inc)
  /\ ~RoundedTo(QAdd(inc, QMul(inc, QRound(QDiv(v, inc)))), v, inc) \/ QEq(QMul(QI(2), QAbs(QSub(v, QMul(inc, QRound(QDiv(v, inc)))))), inc)
Doubled(a) == HalfUlp(QMul(QI(2), a))
UlpLaws == n = 0 => \A v \in Fr : QSgn(v) # 0 => QEq(Doubled(v), QMul(QI(2), HalfUlp(v))) /\ QEq(HalfUlp(v), HalfUlp(QNeg(v)))
RECURSIVE ToSeq(_)
ToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o ToSeq(S \ {x})
SeqOf == TLCEval(ToSeq(News))
EmitCase == Emit => PrintT("CASE " \o ToJson(
  [i \in 1..Cardinality(News) |-> [op |-> "reshape", shape |-> shape, strides |-> strides, off |-> off,
      new |-> SeqOf[i], justwarn |-> (i % 2 = 0)]]))
=============================================================================
