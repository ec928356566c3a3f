-------------------------------- MODULE HullApi --------------------------------
(* The convex hull of a planar curve, in place or flattened onto its plane.   *)
EXTENDS Obs, Trig
InitState == <<>>
Step(st, ev) == st

\* twice the signed area of a triangle, seen against n
Turn(a, b, c, n) == VDot(Cross(VSub(b, a), VSub(c, a)), n)
\* The vertices P[idx[1]], P[idx[2]], ... go round everything, counterclockwise seen against n
\* (to within t): each curve vertex is to the left of each edge.
Rounds(P, idx, n, t) ==
  LET m == Len(idx) IN
  /\ m >= 3
  /\ \A i, j \in 1..m : i < j => idx[i] # idx[j]
  /\ \A i \in 1..m : LET a == P[idx[i]] b == P[idx[(i % m) + 1]]
                     IN  \A k \in 1..Len(P) : QLe(QNeg(t), Turn(a, b, P[k], n))
IsHull(P, idx, n, t) == Rounds(P, idx, n, t) \/ Rounds(P, idx, VNeg(n), t)
\* the hull itself, when no three vertices are in line: each edge leads on to the next
InLine(P) == \E i, j, k \in 1..Len(P) : i < j /\ j < k /\ VIsZero(Cross(VSub(P[j], P[i]), VSub(P[k], P[i])))
NextOf(P, i, n) == CHOOSE j \in (1..Len(P)) \ {i} : \A k \in 1..Len(P) : QSgn(Turn(P[i], P[j], P[k], n)) >= 0
RECURSIVE Walk(_, _, _)
Walk(P, s, n) == LET j == NextOf(P, s[Len(s)], n) IN IF j = s[1] THEN s ELSE Walk(P, Append(s, j), n)
\* start at the extreme vertex along some direction
First(P, d) == CHOOSE i \in 1..Len(P) : \A k \in 1..Len(P) :
                 LET x == QSub(VDot(P[i], d[1]), VDot(P[k], d[1])) IN
                 QSgn(x) > 0 \/ (QSgn(x) = 0 /\ QLe(VDot(P[k], d[2]), VDot(P[i], d[2])))
Hull(P, n, d) == Walk(P, <<First(P, d)>>, n)

\* ---- the plane of a curve ------------------------------------------------------
Crosses(P) == TLCEval([i \in 1..Len(P) |-> [j \in 1..Len(P) |-> Cross(VSub(P[i], P[1]), VSub(P[j], P[1]))]])
Broadest(P) == LET C == Crosses(P)
                   S == TLCEval([i \in 1..Len(P) |-> [j \in 1..Len(P) |-> VSq(C[i][j])]])
                   top == TLCEval(QMaxAbs([i \in 1..Len(P) |-> QMaxAbs(S[i])]))
                   ij == CHOOSE ij \in (1..Len(P)) \X (1..Len(P)) : QEq(S[ij[1]][ij[2]], top)
               IN  C[ij[1]][ij[2]]
Extent(P) == QMaxAbs([i \in 1..Len(P) |-> MaxAbsV(VSub(P[i], P[1]))])
PlanarTo(P, n, t) == \A i \in 1..Len(P) : QLe(Sq(VDot(n, VSub(P[i], P[1]))), QMul(QMul(t, t), QMul(VSq(n), Sq(Extent(P)))))
OnPlane(P, n) == LET c == VMean(P) IN
  TLCEval([i \in 1..Len(P) |-> VSub(P[i], VScale(QDiv(VDot(VSub(P[i], c), n), VSq(n)), n))])

\* ---- verdicts --------------------------------------------------------------------
HullFails(ev) ==
  LET P == ev.v o == ev.obs N == Len(P) IN
  IF N <= 1
  THEN Chk(o.k = "hull" /\ o.closed = ev.closed /\ IF N = 0 THEN o.v.k = "arr" /\ o.v.shape[1] = 0 ELSE MatNear(o.v, P, Q0), "C20.point")
  ELSE IF N = 2 THEN {}
  ELSE
  LET nn == TLCEval(IF ev.given THEN ev.normal ELSE Broadest(P))
      x == TLCEval(Extent(P))
      wide == TLCEval(Broadest(OnPlane(P, nn)))
      apart == \A i, j \in 1..N : i < j => QLt(QMul(E6, Sq(x)), VSq(VSub(P[i], P[j])))
      planar == PlanarTo(P, nn, E10)
      upright == QLt(QMul(QMk(999, 1000), VSq(nn)), Sq(nn[2]))
      Z == TLCEval(IF ev.flatten THEN OnPlane(P, nn) ELSE P)
      t == TLCEval(IF ~ev.flatten THEN Q0 ELSE QMul(IF upright THEN QMk(1, 20000) ELSE E8, MaxAbsM(P)))
      room == QMul(E8, QMul(Sq(x), Root(VSq(nn))))
      m == Len(o.v.v)
      IN
  IF VIsZero(nn) \/ ~apart \/ QLt(VSq(wide), QMul(QMk(1, 10000), Sq(Sq(x)))) \/ (~ev.flatten /\ ~planar) THEN {}
  ELSE IF o.k # "hull" THEN {"C20.hull"}
  ELSE IF o.v.k # "arr" \/ Len(o.v.shape) # 2 \/ o.v.shape[2] # 3 THEN {"C20.hull"}
  ELSE
  LET at(r) == {i \in 1..N : NearV(o.v.v[r], Z[i], t)}
      named == ev.want
      wellnamed == /\ o.indices.k = "arr" /\ o.indices.dt = "i" /\ o.indices.shape = <<m>>
                   /\ \A r \in 1..m : \E i \in 1..N : QEq(o.indices.v[r], QI(i - 1))
      idx == TLCEval([r \in 1..m |-> IF named THEN CHOOSE i \in 1..N : QEq(o.indices.v[r], QI(i - 1))
                                     ELSE CHOOSE i \in at(r) : TRUE])
      found == \A r \in 1..m : at(r) # {}
  IN  Chk(o.closed = ev.closed, "C20.openness")
      \cup (IF named /\ ~wellnamed THEN {"C20.indices"}
            ELSE IF ~found THEN {IF ev.flatten THEN "C20.flattened" ELSE "C20.vertices"}
            ELSE Chk(~named \/ \A r \in 1..m : idx[r] \in at(r), "C20.indices")
                 \cup Chk(IsHull(Z, idx, nn, room), "C20.hull"))
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "hull" -> HullFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C20.argument_changed")
=============================================================================
