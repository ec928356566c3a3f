------------------------------ MODULE MC_Planes ------------------------------
(* The laws of planes, over every plane and segment on a small grid.        *)
EXTENDS Planes, Json
CONSTANTS R, Emit
VARIABLES pl, a, b
Grid == {VInt(<<x, y, z>>) : x, y, z \in -R..R}
Normals == {VInt(<<0, 0, 1>>), VInt(<<0, -2, 0>>), VInt(<<1, 2, 3>>), VInt(<<-1, 1, 0>>), VInt(<<2, -1, 2>>)}
Points == {VInt(<<0, 0, 0>>), VInt(<<1, 0, 2>>), <<Half, QMk(-3, 2), Half>>}
Init == /\ pl \in {[pt |-> p, n |-> n] : p \in Points, n \in Normals}
        /\ a \in Grid /\ b \in (IF Emit THEN {VInt(<<1, 0, -1>>), VInt(<<-1, 1, 1>>), VInt(<<0, 1, 1>>)} ELSE Grid)
Next == UNCHANGED <<pl, a, b>>
V == VSub(b, a)
ProjectLaws == LET p == Project(pl, a) IN
  /\ Side(pl, p) = 0 /\ VEq(Project(pl, p), p) /\ VEq(Project(Flipped(pl), a), p)
  /\ VIsZero(Cross(VSub(a, p), pl.n))
CanonicalLaws == Side(pl, Canonical(pl)) = 0 /\ VIsZero(Cross(Canonical(pl), pl.n))
FlipLaws == Side(Flipped(pl), a) = -Side(pl, a) /\ Flipped(Flipped(pl)) = pl
CrossLaws ==
  /\ Side(pl, a) * Side(pl, b) = -1 =>
       /\ Side(pl, CrossPoint(pl, a, b)) = 0
       /\ VEq(CrossPoint(pl, a, b), LinePoint(pl, a, V)) /\ VEq(CrossPoint(pl, b, a), CrossPoint(pl, a, b))
  /\ QSgn(VDot(pl.n, V)) # 0 => Side(pl, LinePoint(pl, a, V)) = 0
  /\ QSgn(VDot(pl.n, V)) = 0 => Side(pl, a) = Side(pl, b)
EmitCase == Emit => PrintT("CASE " \o ToJson(<<
  [op |-> "make", kind |-> "pn", pt |-> pl.pt, n |-> pl.n],
  [op |-> "query", pts |-> <<a, b, Project(pl, a)>>, single |-> FALSE, inv |-> FALSE],
  [op |-> "line", x |-> a, ray |-> b],
  [op |-> "segment", a |-> a, b |-> b],
  [op |-> "batch", kind |-> "segment", a |-> <<a, b, a>>, b |-> <<b, a, a>>],
  [op |-> "batch", kind |-> "line", a |-> <<a, b>>, b |-> <<b, a>>]>>))
=============================================================================
