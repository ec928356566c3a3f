-------------------------------- MODULE Obs --------------------------------
(* What the harness saw a call return.  An observation is a record with a  *)
(* kind k; nothing else is assumed about it, so that every observation,    *)
(* however wrong, gets a verdict and not an evaluation error.              *)
(*   arr  array of numbers: shape, dt (f, i or b), v (nested sequences)    *)
(*   num  a float or an integer: v a rational, dt                          *)
(*   bool, str, none, list (v a sequence of observations)                  *)
(*   exc  the call raised: t is the class name                             *)
(*   bad  anything else: v says what                                       *)
EXTENDS Vec

IsArr(o) == o.k = "arr"
IsShape(o, s) == o.k = "arr" /\ o.shape = s
IsMat(o, n, m) == IsShape(o, <<n, m>>)
IsVec(o, n) == IsShape(o, <<n>>)
IsNum(o) == o.k = "num"
IsBool(o, b) == o.k = "bool" /\ o.v = b
IsStr(o, s) == o.k = "str" /\ o.v = s
IsNone(o) == o.k = "none"
IsExc(o) == o.k = "exc"
Raised(o, ts) == o.k = "exc" /\ o.t \in ts
IsIntVal(o, n) == o.k = "num" /\ QEq(o.v, QI(n))
NumNear(o, e, t) == o.k = "num" /\ Near(o.v, e, t)
VecNear(o, e, t) == IsVec(o, Len(e)) /\ NearV(o.v, e, t)
MatNear(o, e, t) == IF Len(e) = 0 THEN o.k = "arr" /\ o.shape[1] = 0
                    ELSE IsMat(o, Len(e), Len(e[1])) /\ NearM(o.v, e, t)
IntVec(o, s) == IsVec(o, Len(s)) /\ o.dt = "i" /\ \A i \in 1..Len(s) : QEq(o.v[i], QI(s[i]))
Finite(o) == o.k = "arr" /\ o.fin

\* Verdicts: the names of the clauses that fail.
Chk(c, name) == IF c THEN {} ELSE {name}
=============================================================================
