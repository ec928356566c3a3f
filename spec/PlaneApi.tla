------------------------------ MODULE PlaneApi ------------------------------
(* The Plane class: what each way of making a plane gives, and what the     *)
(* plane answers.  The state is the plane last made, with the unit normal   *)
(* it shows.                                                                *)
EXTENDS Planes

\* ---- making -------------------------------------------------------------------
NormalOf(ev) ==
  CASE ev.kind = "pn" -> ev.n
    [] ev.kind = "points" -> Cross(VSub(ev.p2, ev.p1), VSub(ev.p3, ev.p1))
    [] ev.kind = "vector" -> Cross(VSub(ev.p2, ev.p1), ev.n)
PointOf(ev) == IF ev.kind = "pn" THEN ev.pt ELSE ev.p1
NoPlane == [ok |-> FALSE]
IsUnit(u) == Near(VSq(u), Q1, E12)
\* u has the direction of n
SameDirection(u, n) == LET c == Cross(u, n) IN QLe(VSq(c), QMul(QMk(1, "1000000000000000000"), VSq(n))) /\ QSgn(VDot(u, n)) > 0

\* covariance of points, without the constant factor
Cov(pts) == LET m == VMean(pts)
                d == [i \in 1..Len(pts) |-> VSub(pts[i], m)]
            IN  [r \in 1..3 |-> [c \in 1..3 |-> QSum([i \in 1..Len(pts) |-> QMul(d[i][r], d[i][c])])]]
Trace3(A) == QAdd(A[1][1], QAdd(A[2][2], A[3][3]))
\* sum of the principal 2x2 minors
Second(A) == QSum(<<Det(<<<<A[1][1], A[1][2]>>, <<A[2][1], A[2][2]>>>>),
                    Det(<<<<A[1][1], A[1][3]>>, <<A[3][1], A[3][3]>>>>),
                    Det(<<<<A[2][2], A[2][3]>>, <<A[3][2], A[3][3]>>>>)>>)
\* u is an eigenvector of the symmetric A with its smallest eigenvalue
SmallestAxis(A, u) ==
  LET t == Trace3(A)
      k == VDot(u, MatVec(A, u))
      ab == QSub(Second(A), QMul(k, QSub(t, k)))        \* product of the others
      sum == QSub(t, k)
  IN  /\ NearV(MatVec(A, u), VScale(k, u), QMul(E7, t))
      /\ QLe(QMul(QI(2), k), QAdd(sum, QMul(E7, t)))
      /\ QLe(QNeg(QMul(E7, Sq(t))), QAdd(QSub(ab, QMul(k, sum)), Sq(k)))

InitState == NoPlane
ObsUnit(o) == IsVec(o, 3) /\ o.fin /\ IsUnit(o.v)
Step(st, ev) ==
  IF ev.op # "make" THEN st
  ELSE IF ev.obs.k # "plane" \/ ~ObsUnit(ev.obs.normal) THEN NoPlane
  ELSE [ok |-> TRUE, u |-> ev.obs.normal.v,
        n |-> IF ev.kind = "fit" THEN ev.obs.normal.v ELSE NormalOf(ev),
        pt |-> IF ev.kind = "fit" THEN VMean(ev.pts) ELSE PointOf(ev)]

\* ---- verdicts -------------------------------------------------------------------
ShowFails(o, pl, pid) ==   \* o: what a plane shows; pl: [pt, n, u]
  LET s == MaxAbsV(pl.pt) IN
  Chk(VecNear(o.canonical, Canonical(pl), Rel(s)), "C07.canonical_point")
  \cup Chk(IsVec(o.equation, 4) /\ NearV(SubSeq(o.equation.v, 1, 3), pl.u, E12)
           /\ Near(o.equation.v[4], QNeg(VDot(pl.u, pl.pt)), Rel(s)), "C07.equation")
  \cup Chk(IsVec(o.reference, 3) /\ Near(VDot(pl.u, VSub(o.reference.v, pl.pt)), Q0, Rel(s)), "C07.reference_point")
MakeFails(ev) ==
  LET o == ev.obs IN
  IF ev.kind = "fit"
  THEN LET m == VMean(ev.pts) s == MaxAbsM(ev.pts) IN
       IF o.k # "plane" \/ ~IsVec(o.normal, 3) THEN {"C07.fit"}
       ELSE Chk(IsUnit(o.normal.v) /\ SmallestAxis(Cov(ev.pts), o.normal.v), "C07.fit")
            \cup Chk(VecNear(o.reference, m, Rel(s)), "C07.fit_centroid")
            \cup ShowFails(o, [pt |-> m, n |-> o.normal.v, u |-> o.normal.v], "C07")
  ELSE LET n == NormalOf(ev) IN
       IF VIsZero(n) THEN Chk(Raised(o, {"ValueError"}), "C07.zero_normal_refused")
       ELSE IF o.k # "plane" \/ ~IsVec(o.normal, 3) THEN {"C07.made"}
       ELSE Chk(IsUnit(o.normal.v) /\ SameDirection(o.normal.v, n), "C07.normal")
            \cup Chk(ev.kind \in {"pn", "vector"} => VecNear(o.reference, PointOf(ev), Q0), "C07.reference_point")
            \cup ShowFails(o, [pt |-> PointOf(ev), n |-> n, u |-> o.normal.v], "C07")

PtSpan(st, pts) == QMax(MaxAbsV(st.pt), MaxAbsM(pts))
AllDecided(st, pts) == \A i \in 1..Len(pts) : Decided(st, pts[i], PtSpan(st, pts))
Dist(st, x) == VDot(st.u, VSub(x, st.pt))
InFront(st, pts, inv) == Ascending({i \in 1..Len(pts) : IF inv THEN Side(st, pts[i]) <= 0 ELSE Side(st, pts[i]) >= 0})

QueryFails(st, ev) ==
  LET pts == ev.pts
      s == PtSpan(st, pts)
      n == Len(pts)
      ds == [i \in 1..n |-> Dist(st, pts[i])]
      vec(o) == IF ev.single THEN o.k = "num" ELSE IsShape(o, <<n>>)
      at(o, i) == IF ev.single THEN o.v ELSE o.v[i]
      dec(i) == Decided(st, pts[i], s)
      front(o, idx) == LET w == InFront(st, pts, ev.inv) IN
         IF idx THEN IntVec(o, [i \in 1..Len(w) |-> w[i] - 1])
         ELSE IsShape(o, <<Len(w), 3>>) /\ \A i \in 1..Len(w) : VEq(o.v[i], pts[w[i]])
  IN  Chk(vec(ev.obs.sd) /\ \A i \in 1..n : Near(at(ev.obs.sd, i), ds[i], Rel(s)), "C07.signed_distance")
      \cup Chk(vec(ev.obs.sd) /\ \A i \in 1..n : ExactSide(st, pts[i]) => QEq(at(ev.obs.sd, i), ds[i]), "C07.signed_distance")
      \cup Chk(vec(ev.obs.dist) /\ \A i \in 1..n : Near(at(ev.obs.dist, i), QAbs(ds[i]), Rel(s)), "C07.distance")
      \cup Chk(vec(ev.obs.sign) /\ \A i \in 1..n : dec(i) => QEq(at(ev.obs.sign, i), QI(Side(st, pts[i]))), "C07.sign")
      \cup (IF ev.single \/ ~AllDecided(st, pts) THEN {}
            ELSE Chk(front(ev.obs.front, FALSE), "C07.points_in_front")
                 \cup Chk(front(ev.obs.indices, TRUE), "C07.points_in_front_indices"))
ProjectFails(st, ev) ==
  LET s == PtSpan(st, <<ev.x>>) IN Chk(VecNear(ev.obs, Project(st, ev.x), Rel(s)), "C07.project_point")
FlippedFails(st, ev) ==
  IF ev.obs.k # "plane" \/ ~ObsUnit(ev.obs.normal) THEN {"C07.flipped"}
  ELSE Chk(NearV(ev.obs.normal.v, VNeg(st.u), E12), "C07.flipped")
       \cup ShowFails(ev.obs, [pt |-> st.pt, n |-> VNeg(st.n), u |-> VNeg(st.u)], "C07")

RowOK(kind, o, exact, s) == kind = "point" => VecNear(o, exact, Rel(QMax(s, MaxAbsV(exact))))
LineFails(st, ev) ==
  LET c == LineCase(st, ev.ray)
      s == SegSpan(st, ev.x, ev.ray)
  IN  (IF c = "none" THEN Chk(IsNone(ev.obs), "C08.parallel_line")
       ELSE IF c = "point" THEN Chk(RowOK(c, ev.obs, LinePoint(st, ev.x, ev.ray), s), "C08.line_point") ELSE {})
      \cup Chk(~ev.mut, "C08.argument_changed")
SegmentFails(st, ev) ==
  LET c == SegCase(st, ev.a, ev.b)
      s == SegSpan(st, ev.a, ev.b)
  IN  (IF c = "none" THEN Chk(IsNone(ev.obs), "C08.segment_missed")
       ELSE IF c = "point" THEN Chk(VecNear(ev.obs, CrossPoint(st, ev.a, ev.b), CrossTol(st, ev.a, ev.b, s)), "C08.segment_point") ELSE {})
      \cup Chk(~ev.mut, "C08.argument_changed")
IsNaNRow(r) == \A j \in 1..3 : IsNaN(r[j])
BatchFails(st, ev) ==
  LET n == Len(ev.a)
      case(i) == IF ev.kind = "line" THEN LineCase(st, ev.b[i]) ELSE SegCase(st, ev.a[i], ev.b[i])
      exact(i) == IF ev.kind = "line" THEN LinePoint(st, ev.a[i], ev.b[i]) ELSE CrossPoint(st, ev.a[i], ev.b[i])
      span(i) == SegSpan(st, ev.a[i], ev.b[i])
      tol(i) == IF ev.kind = "line" THEN Rel(QMax(span(i), MaxAbsV(exact(i)))) ELSE CrossTol(st, ev.a[i], ev.b[i], span(i))
  IN  (IF ~IsShape(ev.pts, <<n, 3>>) \/ ~IsShape(ev.valid, <<n>>) \/ ev.valid.dt # "b" THEN {"C08.batch_shape"}
       ELSE UNION {CASE case(i) = "none" -> Chk(ev.valid.v[i] = QI(0), "C08.batch_validity")
                                            \cup Chk(IsNaNRow(ev.pts.v[i]), "C08.batch_nan_row")
                     [] case(i) = "point" -> Chk(ev.valid.v[i] = QI(1), "C08.batch_validity")
                                            \cup Chk(NearV(ev.pts.v[i], exact(i), tol(i)), "C08.batch_point")
                     [] OTHER -> {} : i \in 1..n})
      \cup Chk(~ev.mut, "C08.argument_changed")

\* neither the arguments nor the plane are changed by a question
Kept(ev) == Chk(~ev.mut, "C07.argument_changed")
Fails(st, ev) ==
  CASE ev.op = "crash" -> {"ANY.crash"}
    [] ev.op = "make" -> MakeFails(ev) \cup Kept(ev)
    [] ~st.ok -> {}
    [] ev.op = "query" -> QueryFails(st, ev) \cup Kept(ev)
    [] ev.op = "project" -> ProjectFails(st, ev) \cup Kept(ev)
    [] ev.op = "flipped" -> FlippedFails(st, ev)
    [] ev.op = "line" -> LineFails(st, ev)
    [] ev.op = "segment" -> SegmentFails(st, ev)
    [] ev.op = "batch" -> BatchFails(st, ev)
=============================================================================
