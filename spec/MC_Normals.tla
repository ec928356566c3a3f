------------------------------ MODULE MC_Normals ------------------------------
(* A mesh of four vertices whose vertices, faces and settings change between     *)
(* reads.                                                                        *)
EXTENDS NormalsApi, Json
CONSTANTS Depth, Emit
VARIABLES h
P1 == <<VInt(<<0, 0, 0>>), VInt(<<3, 0, 0>>), VInt(<<0, 4, 0>>), VInt(<<1, 0, 2>>)>>
P2 == <<VInt(<<1, 0, 0>>), VInt(<<2, 1, 2>>), VInt(<<0, 2, -1>>), VInt(<<0, 0, 3>>)>>
P5 == P1 \o <<VInt(<<2, 2, 2>>)>>
F1 == <<<<0, 2, 1>>, <<0, 1, 3>>, <<0, 3, 2>>, <<1, 2, 3>>>>      \* closed
F2 == <<<<0, 1, 2>>, <<2, 1, 3>>>>
Start == [op |-> "mesh", v |-> P1, f |-> F1, unit |-> TRUE]
Small == {[op |-> "set_v", v |-> P2, how |-> "inplace"], [op |-> "set_v", v |-> P1, how |-> "replace"],
          [op |-> "set_v", v |-> P5, how |-> "replace"],
          [op |-> "set_f", f |-> F2], [op |-> "set_f", f |-> F1],
          [op |-> "set_unit", unit |-> FALSE], [op |-> "set_unit", unit |-> TRUE],
          [op |-> "set_corners", to |-> 2, from |-> 1]}
Reads == {[op |-> "read", what |-> "vertex_normals", deriv |-> FALSE], [op |-> "read", what |-> "vertex_normals", deriv |-> TRUE],
          [op |-> "read", what |-> "edges", deriv |-> TRUE]}
Init == h = <<Start>>
Next == Len(h) <= Depth /\ \E x \in Small \cup Reads : h' = Append(h, x)
RECURSIVE After(_, _)
After(st, ops) == IF ops = <<>> THEN st ELSE After(Step(st, Head(ops)), Tail(ops))
st == TLCEval(After(InitState, h))
N == Len(st.v)
M == Len(st.f)
Moved(j, c, s) == [st EXCEPT !.v = [k \in 1..N |-> IF k = j THEN VAdd(st.v[k], VScale(QI(s), VUnit(3, c))) ELSE st.v[k]]]
Rot90(p) == <<QNeg(p[2]), p[1], p[3]>>
Turned == [st EXCEPT !.v = [k \in 1..N |-> VAdd(VInt(<<5, -1, 2>>), Rot90(st.v[k]))]]
FacesFit == \A i \in 1..M : \A k \in 1..3 : st.f[i][k] < N
\* quadratic maps: central differences are their derivatives exactly
DerivativeLaws == FacesFit => \A i \in 1..M : LET D == DScaled(st, i) E == DEdge(st, i, st.to, st.from) IN
  \A j \in 1..N : \A c \in 1..3 : LET k == 3 * (j - 1) + c IN
    /\ VEq(MCol(D, k), VScale(Half, VSub(ScaledAt(Moved(j, c, 1), i), ScaledAt(Moved(j, c, -1), i))))
    /\ VEq(MCol(E, k), VSub(Edge(Moved(j, c, 1), i, st.to, st.from), Edge(st, i, st.to, st.from)))
\* moving all vertices alike changes nothing
RECURSIVE SumCols(_, _, _)
SumCols(D, c, j) == IF j = 0 THEN VZero(3) ELSE VAdd(MCol(D, 3 * (j - 1) + c), SumCols(D, c, j - 1))
Invariance == FacesFit => \A i \in 1..M :
  /\ \A c \in 1..3 : VIsZero(SumCols(DScaled(st, i), c, N))
  /\ VEq(ScaledAt(Turned, i), Rot90(ScaledAt(st, i)))
\* the scaled normals of a closed mesh cancel
ClosedLaw == st.f = F1 => VIsZero(VAdd(VAdd(ScaledAt(st, 1), ScaledAt(st, 2)), VAdd(ScaledAt(st, 3), ScaledAt(st, 4))))
\* |x| * (x / |x|) = x and sqrt|x| * (x / sqrt|x|) = x, differentiated
Vecs == {VInt(<<1, 2, 2>>), VInt(<<-4, 4, 7>>), VInt(<<0, 0, -9>>), VInt(<<2, -3, 6>>)}
UnitLaws == Len(h) = 1 => \A x \in Vecs : LET L == Root(VSq(x)) IN
  /\ NearM(MAdd(MScale(L, DUnit(x, L)), MScale(QDiv(Q1, Sq(L)), Outer(x, x))), Ident(3), E12)
  /\ NearV(MatVec(DUnit(x, L), x), VZero(3), E12)
  /\ NearM(MAdd(MScale(Root(L), DRooted(x, L)), MScale(QDiv(Half, Sq(L)), Outer(x, x))), Ident(3), E12)
  \* against a difference, to first order
  /\ \A c \in 1..3 : LET y(s) == VAdd(x, VScale(s, VUnit(3, c)))
                          u(v) == VScale(QDiv(Q1, Root(VSq(v))), v)
                          w(v) == VScale(QDiv(Q1, Root(Root(VSq(v)))), v)
                          d(f(_)) == VScale(QDiv(Half, E3), VSub(f(y(E3)), f(y(QNeg(E3)))))
                      IN  NearV(d(u), MCol(DUnit(x, L), c), E6) /\ NearV(d(w), MCol(DRooted(x, L), c), E6)
Closing == <<[op |-> "read", what |-> "vertex_normals", deriv |-> TRUE], [op |-> "read", what |-> "normals", deriv |-> TRUE],
             [op |-> "read", what |-> "scaled", deriv |-> TRUE], [op |-> "read", what |-> "edges", deriv |-> TRUE]>>
EmitCase == Emit /\ Len(h) = Depth + 1 /\ FacesFit => PrintT("CASE " \o ToJson(h \o Closing))
=============================================================================
