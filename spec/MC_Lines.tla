------------------------------- MODULE MC_Lines -------------------------------
(* Two lines whose four given points walk over a grid; the same lines laid   *)
(* on a plane in space.                                                      *)
EXTENDS LinesApi, Json
CONSTANTS N, Emit
VARIABLES pts
Grid == {<<x, y>> : x \in 0..N, y \in 0..N}
Names == {"p0", "q0", "p1", "q1"}
Init == pts = [x \in Names |-> <<0, 0>>]
Next == \E x \in Names, g \in Grid : pts' = [pts EXCEPT ![x] = g]
L == TLCEval([x \in Names |-> VInt(pts[x])])
Lines == pts["p0"] # pts["q0"] /\ pts["p1"] # pts["q1"]
Swap(l) == [p0 |-> l.p1, q0 |-> l.q1, p1 |-> l.p0, q1 |-> l.q0]
Back(l) == [l EXCEPT !.p0 = l.q0, !.q0 = l.p0]
\* a plane in space
O3 == VInt(<<1, -2, 5>>)
U3 == VInt(<<1, 2, 2>>)
W3 == VInt(<<3, 0, -1>>)
Lay(p) == VAdd(O3, VAdd(VScale(p[1], U3), VScale(p[2], W3)))
L3 == TLCEval([x \in Names |-> Lay(L[x])])
Off == VAdd(Lay(L["q1"]), VScale(QMk(3, 2), Cross(U3, W3)))   \* above the plane
PlaneLaws == Lines /\ ~Parallel2(L) =>
  LET x == Meet2(L) IN
  /\ On2(x, L.p0, L.q0) /\ On2(x, L.p1, L.q1)
  /\ VEq(Meet2(Swap(L)), x) /\ VEq(Meet2(Back(L)), x)
SpaceLaws == Lines =>
  /\ Coplanar(L3) /\ (Parallel3(L3) <=> Parallel2(L))
  /\ ~Parallel3(L3) =>
       LET x == Meet3(L3) IN
       /\ VEq(x, Lay(Meet2(L)))
       /\ On3(x, L3.p0, L3.q0) /\ On3(x, L3.p1, L3.q1)
       /\ VEq(Meet3(Swap(L3)), x) /\ VEq(Meet3(Back(L3)), x)
       /\ \A s \in SharedP(L3) : VEq(L3[s], x)
       \* the two cross products are parallel: length and sign tell how far to walk
       /\ LET f == G(L3) IN VIsZero(Cross(Cross(f, VSub(L3.p1, L3.p0)), Cross(f, E(L3))))
TriangleLaws ==
  LET q == L3.p0 u == VSub(L3.q0, q) v == VSub(L3.p1, q) IN
  ~VIsZero(Cross(u, v)) =>
    LET b == Bary(Off, q, u, v) IN
    /\ QEq(QSum(b), Q1)
    /\ VEq(At(b, q, u, v), Foot(Off, q, u, v))
    /\ VEq(Foot(Off, q, u, v), L3.q1)
    /\ VEq(Bary(q, q, u, v), VInt(<<1, 0, 0>>))
    /\ VEq(Bary(VAdd(q, u), q, u, v), VInt(<<0, 1, 0>>))
    /\ VEq(Bary(VAdd(q, v), q, u, v), VInt(<<0, 0, 1>>))
    /\ VEq(Bary(Off, q, v, u), <<b[1], b[3], b[2]>>)
Arr(v) == [k |-> "arr", shape |-> <<Len(v)>>, dt |-> "f", fin |-> TRUE, v |-> v]
Accepts == Lines /\ ~Parallel3(L3) =>
  LET ev(x) == [op |-> "line3", l |-> L3, obs |-> x, mut |-> FALSE] IN
  /\ Fails(<<>>, ev(Arr(Meet3(L3)))) = {}
  /\ Fails(<<>>, ev(Arr(VAdd(Meet3(L3), W3)))) # {}
  /\ Fails(<<>>, ev([k |-> "none"])) # {}
EmitCase == Emit /\ Lines => PrintT("CASE " \o ToJson(
  <<[op |-> "line2", l |-> L, form |-> "i"], [op |-> "line3", l |-> L3, form |-> "f"],
    [op |-> "line3", l |-> Swap(L3), form |-> "i"],
    [op |-> "bary", p |-> <<Off>>, q |-> <<L3.p0>>, u |-> <<VSub(L3.q0, L3.p0)>>, v |-> <<VSub(L3.p1, L3.p0)>>,
     single |-> TRUE, form |-> "f"]>>))
=============================================================================
