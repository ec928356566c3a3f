------------------------------ MODULE NormalsApi ------------------------------
(* Edges, normals and vertex normals of a mesh that changes, with their         *)
(* derivatives by the vertices.                                                 *)
EXTENDS Obs, Trig
\* v: vertices; f: faces, triples of vertex numbers from 0; unit: vertex normals are
\* normalized; from, to: the corners, from 0, an edge goes between; a, b: factors of
\* cross products, row by row, tied: the same object; x: vectors to normalize
InitState == [v |-> <<>>, f |-> <<>>, unit |-> TRUE, to |-> 1, from |-> 0, a |-> <<>>, b |-> <<>>, tied |-> FALSE, x |-> <<>>]
Step(st, ev) ==
  CASE ev.op = "mesh" -> [st EXCEPT !.v = ev.v, !.f = ev.f, !.unit = ev.unit, !.to = 1, !.from = 0]
    [] ev.op = "set_v" -> [st EXCEPT !.v = ev.v]
    [] ev.op = "set_f" -> [st EXCEPT !.f = ev.f]
    [] ev.op = "set_unit" -> [st EXCEPT !.unit = ev.unit]
    [] ev.op = "set_corners" -> [st EXCEPT !.to = ev.to, !.from = ev.from]
    [] ev.op = "factors" -> [st EXCEPT !.a = ev.a, !.b = ev.b, !.tied = ev.tied]
    [] ev.op = "set_a" -> [st EXCEPT !.a = ev.a, !.b = IF st.tied THEN ev.a ELSE @]
    [] ev.op = "set_b" -> [st EXCEPT !.b = ev.b]
    [] ev.op = "vectors" -> [st EXCEPT !.x = ev.x]
    [] OTHER -> st

\* ---- the maps -----------------------------------------------------------------
\* corner k (from 0) of face i
At(f, i, k) == f[i][k + 1] + 1
Edge(st, i, to, from) == VSub(st.v[At(st.f, i, to)], st.v[At(st.f, i, from)])
ScaledAt(st, i) == Cross(Edge(st, i, 1, 0), Edge(st, i, 2, 0))
ScaledAll(st) == TLCEval([i \in 1..Len(st.f) |-> ScaledAt(st, i)])
\* how often vertex j is a corner of face i
Times(f, i, j) == Cardinality({k \in 1..3 : f[i][k] + 1 = j})
Around(st, j) == TLCEval([i \in 1..Len(st.f) |-> Times(st.f, i, j)])
Valence(st, j) == LET s == Around(st, j) IN QSum([i \in 1..Len(s) |-> QI(s[i])])
WeightedSum(w, X, n) == TLCEval([l \in 1..n |-> QSum([i \in 1..Len(w) |-> QMul(QI(w[i]), X[i][l])])])
SumAt(st, T, j) == WeightedSum(Around(st, j), T, 3)

\* ---- their derivatives: 3 rows each, a column per coordinate --------------------
Col3(n) == 3 * n
\* of a corner's position
DCorner(n, j, s) == TLCEval([r \in 1..3 |-> [c \in 1..Col3(n) |-> IF c = 3 * (j - 1) + r THEN s ELSE Q0]])
DEdge(st, i, to, from) == MAdd(DCorner(Len(st.v), At(st.f, i, to), Q1), DCorner(Len(st.v), At(st.f, i, from), QNeg(Q1)))
\* d(a x b) = da x b + a x db
DCross(a, b, da, db) == LET x == TLCEval(da) y == TLCEval(db) IN MSub(MatMul(Skew(a), y), MatMul(Skew(b), x))
DScaled(st, i) == DCross(Edge(st, i, 1, 0), Edge(st, i, 2, 0), DEdge(st, i, 1, 0), DEdge(st, i, 2, 0))
\* of x / |x|, of x / sqrt |x|; L = |x|
Outer(x, y) == [r \in 1..Len(x) |-> [c \in 1..Len(y) |-> QMul(x[r], y[c])]]
DUnit(x, L) == MScale(QDiv(Q1, L), MSub(Ident(3), MScale(QDiv(Q1, Sq(L)), Outer(x, x))))
DRooted(x, L) == MScale(QDiv(Q1, Root(L)), MSub(Ident(3), MScale(QDiv(Half, Sq(L)), Outer(x, x))))

\* ---- verdicts -------------------------------------------------------------------
RECURSIVE Stack(_)
Stack(X) == IF X = <<>> THEN <<>> ELSE Head(X) \o Stack(Tail(X))
Extent(st) == MaxAbsM(st.v)
Size2(st) == LET e == QMaxAbs([i \in 1..Len(st.f) |-> QMax(MaxAbsV(Edge(st, i, 1, 0)), QMax(MaxAbsV(Edge(st, i, 2, 0)), MaxAbsV(Edge(st, i, 2, 1))))]) IN Sq(e)
\* well clear of zero compared with the squares of edges
Clear(x, s2) == QLt(QMul(QMul(E3, s2), QMul(E3, s2)), VSq(x))
BlockOf(M, i) == [r \in 1..3 |-> M[3 * (i - 1) + r]]
FlatIs(o, X, t) == VecNear(o, Stack(X), t)
\* a derivative in blocks of three rows: only those in S are judged
BlocksNear(o, rows, n, E, S, t) == o.k = "arr" /\ o.shape = <<3 * rows, Col3(n)>> /\
  \A i \in S : NearM(BlockOf(o.v, i), TLCEval(E[i]), t)
ReadFails(st, ev) ==
  LET N == Len(st.v) M == Len(st.f) o == ev.obs
      t1 == QMul(E12, Extent(st))
      s2 == TLCEval(Size2(st))
      t2 == QMul(E11, QMul(Extent(st), Root(s2)))
      tn == IF QSgn(s2) = 0 THEN Q0 ELSE QMul(E10, Max1(QDiv(Extent(st), Root(s2))))
      T == ScaledAll(st)
      good == {i \in 1..M : Clear(T[i], s2)}
      name == "C25." \o ev.what
  IN  IF o.k # "both" THEN {name}
      ELSE IF ev.what = "edges"
      THEN Chk(FlatIs(o.r, [i \in 1..M |-> Edge(st, i, st.to, st.from)], t1), "C25.edges")
           \cup Chk(~ev.deriv \/ BlocksNear(o.d, M, N, [i \in 1..M |-> DEdge(st, i, st.to, st.from)], 1..M, Q0), "C25.edges_derivative")
      ELSE IF ev.what = "scaled"
      THEN Chk(FlatIs(o.r, T, t2), "C25.scaled")
           \cup Chk(~ev.deriv \/ BlocksNear(o.d, M, N, [i \in 1..M |-> DScaled(st, i)], 1..M, QMul(E11, Extent(st))), "C25.scaled_derivative")
      ELSE IF ev.what = "normals"
      THEN LET L == TLCEval([i \in 1..M |-> Root(VSq(T[i]))]) IN
           Chk(IsVec(o.r, 3 * M) /\ \A i \in good : NearV([k \in 1..3 |-> o.r.v[3 * (i - 1) + k]], VScale(QDiv(Q1, L[i]), T[i]), tn), "C25.normals")
           \cup Chk(~ev.deriv \/ BlocksNear(o.d, M, N, [i \in 1..M |-> IF i \in good THEN MatMul(DUnit(T[i], L[i]), DScaled(st, i)) ELSE <<>>], good,
                                             QMul(E6, QMul(Root(s2), QDiv(Q1, s2)))), "C25.normals_derivative")
      ELSE LET X == TLCEval([j \in 1..N |-> IF st.unit THEN SumAt(st, T, j) ELSE VScale(QDiv(Q1, QMax(Q1, Valence(st, j))), SumAt(st, T, j))])
               ok == {j \in 1..N : Clear(X[j], s2)}
               L == TLCEval([j \in 1..N |-> IF j \in ok THEN Root(VSq(X[j])) ELSE Q1])
               want(j) == VScale(QDiv(Q1, IF st.unit THEN L[j] ELSE Root(L[j])), X[j])
               D == TLCEval([i \in 1..M |-> DScaled(st, i)])
               dsum(j) == LET w == Around(st, j) IN
                 TLCEval([r \in 1..3 |-> [c \in 1..Col3(N) |-> QSum([i \in 1..M |-> IF w[i] = 0 THEN Q0 ELSE QMul(QI(w[i]), D[i][r][c])])]])
               dwant(j) == IF st.unit THEN MatMul(DUnit(X[j], L[j]), dsum(j))
                           ELSE MatMul(DRooted(X[j], L[j]), MScale(QDiv(Q1, Valence(st, j)), dsum(j)))
           IN  Chk(IsMat(o.r, N, 3) /\ \A j \in ok : NearV(o.r.v[j], want(j), QMul(tn, MaxAbsV(want(j)))), "C25.vertex_normals")
               \cup Chk(~ev.deriv \/ BlocksNear(o.d, N, N, [j \in 1..N |-> IF j \in ok THEN dwant(j) ELSE <<>>], ok,
                                                QMul(E6, QMul(QMul(Root(s2), QDiv(Q1, s2)), IF st.unit THEN Q1 ELSE Root(Root(s2))))), "C25.vertex_normals_derivative")
\* of row i of a cross product by row i of a factor; zero by other rows
Diagonal(X, n) == [i \in 1..n |-> [r \in 1..3 |-> [c \in 1..Col3(n) |-> IF (c - 1) \div 3 = i - 1 THEN X[i][r][((c - 1) % 3) + 1] ELSE Q0]]]
CrossFails(st, ev) ==
  LET n == Len(st.a) o == ev.obs
      t == QMul(E12, QMul(MaxAbsM(st.a), MaxAbsM(st.b)))
      byA == [i \in 1..n |-> MScale(QNeg(Q1), Skew(st.b[i]))]
      byB == [i \in 1..n |-> Skew(st.a[i])]
      both == [i \in 1..n |-> MAdd(byA[i], byB[i])]
  IN  IF o.k # "cross" THEN {"C25.cross"}
      ELSE Chk(FlatIs(o.r, [i \in 1..n |-> Cross(st.a[i], st.b[i])], t), "C25.cross")
           \cup (IF st.tied THEN Chk(BlocksNear(o.da, n, n, Diagonal(both, n), 1..n, t), "C25.cross_derivative")
                 ELSE Chk(BlocksNear(o.da, n, n, Diagonal(byA, n), 1..n, Q0) /\ BlocksNear(o.db, n, n, Diagonal(byB, n), 1..n, Q0), "C25.cross_derivative"))
UnitFails(st, ev) ==
  LET n == Len(st.x) o == ev.obs
      L == TLCEval([i \in 1..n |-> Root(VSq(st.x[i]))])
      ok == {i \in 1..n : QSgn(L[i]) > 0}
      got(i) == IF ev.flat THEN [k \in 1..3 |-> o.r.v[3 * (i - 1) + k]] ELSE o.r.v[i]
  IN  IF o.k # "both" THEN {"C25.unit"}
      ELSE Chk((IF ev.flat THEN IsVec(o.r, 3 * n) ELSE IsMat(o.r, n, 3)) /\ \A i \in 1..n :
                 IF i \in ok THEN NearV(got(i), VScale(QDiv(Q1, L[i]), st.x[i]), E10) ELSE VIsZero(st.x[i]) => VIsZero(got(i)), "C25.unit")
           \cup Chk(BlocksNear(o.d, n, n, Diagonal([i \in 1..n |-> IF i \in ok THEN DUnit(st.x[i], L[i]) ELSE Ident(3)], n), ok,
                               QMul(E9, QMaxAbs([i \in 1..n |-> IF i \in ok THEN QDiv(Q1, L[i]) ELSE Q0]))), "C25.unit_derivative")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "read" -> ReadFails(st, ev)
          [] ev.op = "read_cross" -> CrossFails(st, ev)
          [] ev.op = "read_unit" -> UnitFails(st, ev)
          [] OTHER -> {})
       \cup Chk(~ev.mut, "C25.argument_changed")
=============================================================================
