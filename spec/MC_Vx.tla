-------------------------------- MODULE MC_Vx --------------------------------
(* Two vectors walked over a grid, one step in one coordinate at a time: the *)
(* laws of the definitions, and calls to replay.                             *)
EXTENDS VxApi, Json
CONSTANTS N, Emit
VARIABLES a, b
Grid == -N..N
Init == a = <<1, 0, 0>> /\ b = <<1, 1, 0>>
Move(v) == {[v EXCEPT ![i] = x] : i \in 1..3, x \in Grid} \ {<<0, 0, 0>>}
Next == \/ a' \in Move(a) /\ UNCHANGED b
        \/ b' \in Move(b) /\ UNCHANGED a
A == VInt(a)
B == VInt(b)
P == Proj(A, B)
R == Reject(A, B)
Laws ==
  /\ VEq(VAdd(P, R), A)                                       \* a split
  /\ QSgn(VDot(R, B)) = 0 /\ VIsZero(Cross(P, B))             \* along and perpendicular
  /\ QEq(QAdd(VSq(P), VSq(R)), VSq(A))
  /\ VEq(Proj(P, B), P) /\ VIsZero(Proj(R, B))
  /\ \A k \in {-3, 2} : VEq(Proj(A, VScale(QI(k), B)), P)     \* whatever its length
  /\ \A k \in 1..3 : /\ VEq(ZeroAxis(A, k), Reject(A, VUnit(3, k)))
                     /\ VEq(Drop(ZeroAxis(A, k), k), DropAxis(A, k))
  /\ \A look \in {VInt(<<0, 0, 1>>), VInt(<<1, -2, 3>>)} :
       /\ TripleSign(A, B, look) = -TripleSign(B, A, look)
       /\ TripleSign(A, B, look) = -TripleSign(A, B, VNeg(look))
  /\ VEq(Drop(Pad(A), 4), A)
\* the checks accept the exact answers where these are rational, and nothing else
Accepts ==
  /\ ProjOK(P, A, B) /\ RejectOK(R, A, B)
  /\ ((\E i \in 1..3 : QSgn(P[i]) # 0) => ~ProjOK(VNeg(P), A, B) /\ ~ProjOK(VScale(QI(2), P), A, B))
  /\ MagOK(Root(VSq(A)), A) /\ ~MagOK(QNeg(Root(VSq(A))), A)
  /\ UnitOK(VScale(QDiv(Q1, Len2(A)), A), A)
  /\ (VEq(A, B) => AngleOK(Q0, A, B) /\ ~AngleOK(QI(1), A, B))
  /\ (QSgn(VDot(A, B)) = 0 => AngleOK(QI(90), A, B) /\ SignedOK(QI(90), A, B, Cross(A, B)) /\ ~SignedOK(QI(-90), A, B, Cross(A, B)))
X1 == [nd |-> 1, w |-> 3, v |-> A]
X2 == [nd |-> 2, w |-> 3, v |-> <<A, B, VSub(A, B)>>]
Vc(fn, x) == [op |-> "vector", fn |-> fn, x |-> x, onto |-> B, axis |-> 1, squash |-> FALSE]
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<Vc("normalize", X1), Vc("magnitude", X1), Vc("sproj", X1), Vc("proj", X1), Vc("reject", X1),
    Vc("sproj", X2), Vc("proj", X2), Vc("reject", X2), Vc("magnitude", X2),
    [op |-> "angle", signed |-> FALSE, a |-> A, b |-> B, look |-> VUnit(3, 1)],
    [op |-> "angle", signed |-> TRUE, a |-> A, b |-> B, look |-> VInt(<<1, 2, -3>>)],
    [op |-> "almost", fn |-> "collinear", a |-> A, b |-> B, atol |-> Half, hastol |-> TRUE],
    [op |-> "almost", fn |-> "collinear", a |-> A, b |-> B, atol |-> E8, hastol |-> FALSE]>>))
=============================================================================
