------------------------------- MODULE LinesApi -------------------------------
(* Where two lines meet, in the plane and in space, and the barycentric       *)
(* coordinates of the projection of a point onto the plane of a triangle.     *)
EXTENDS Obs
InitState == <<>>
Step(st, ev) == st

\* ---- the plane -------------------------------------------------------------
Cross2(a, b) == QSub(QMul(a[1], b[2]), QMul(a[2], b[1]))
Parallel2(l) == QSgn(Cross2(VSub(l.q0, l.p0), VSub(l.q1, l.p1))) = 0
Meet2(l) == LET d == TLCEval(VSub(l.q0, l.p0))
                f == TLCEval(VSub(l.q1, l.p1))
            IN  VAdd(l.p0, VScale(QDiv(Cross2(VSub(l.p1, l.p0), f), Cross2(d, f)), d))
IsLine(p, q) == ~VEq(p, q)
On2(x, p, q) == QSgn(Cross2(VSub(x, p), VSub(q, p))) = 0

\* ---- space -------------------------------------------------------------------
E(l) == VSub(l.q0, l.p0)
G(l) == VSub(l.q1, l.p1)
Parallel3(l) == VIsZero(Cross(E(l), G(l)))
Coplanar(l) == QSgn(VDot(VSub(l.p1, l.p0), Cross(E(l), G(l)))) = 0
Meet3(l) == LET f == TLCEval(G(l))
                k == TLCEval(Cross(f, E(l)))
                h == TLCEval(Cross(f, VSub(l.p1, l.p0)))
            IN  VAdd(l.p0, VScale(QDiv(VDot(h, k), VSq(k)), E(l)))
On3(x, p, q) == VIsZero(Cross(VSub(x, p), VSub(q, p)))
Near3(x, p, q, t) == QLe(VSq(Cross(VSub(x, p), VSub(q, p))), QMul(Sq(t), VSq(VSub(q, p))))
\* the given points of one line that are given points of the other
SharedP(l) == {x \in {"p0", "q0"} : \E y \in {"p1", "q1"} : VEq(l[x], l[y])}

\* ---- barycentric coordinates -----------------------------------------------
Bary(p, q, u, v) == LET n == TLCEval(Cross(u, v))
                        s == TLCEval(VSq(n))
                        w == TLCEval(VSub(p, q))
                        b2 == TLCEval(QDiv(VDot(Cross(u, w), n), s))
                        b1 == TLCEval(QDiv(VDot(Cross(w, v), n), s))
                    IN  <<QSub(Q1, QAdd(b1, b2)), b1, b2>>
Foot(p, q, u, v) == LET n == TLCEval(Cross(u, v))
                    IN  VSub(p, VScale(QDiv(VDot(VSub(p, q), n), VSq(n)), n))
At(b, q, u, v) == VAdd(q, VAdd(VScale(b[2], u), VScale(b[3], v)))

\* ---- verdicts ------------------------------------------------------------------
Size(vs) == QMaxAbs([i \in 1..Len(vs) |-> MaxAbsV(vs[i])])
\* parallel: the directions differ by less than the coordinates' rounding can tell
Side(d, f, c) == QLe(QAbs(c), QMul(QMk(1, "100000000000000000000000000000"), QMul(VSq(d), VSq(f))))
Wide == QMk(1, 1000000)                      \* sines above 1/1000
Line2Fails(ev) ==
  LET l == ev.l o == ev.obs
      c == Cross2(E(l), G(l)) IN
  IF ~IsLine(l.p0, l.q0) \/ ~IsLine(l.p1, l.q1) THEN {}
  ELSE IF Side(E(l), G(l), Sq(c)) THEN Chk(IsVec(o, 2) /\ IsNaN(o.v[1]) /\ IsNaN(o.v[2]), "C18.parallel_in_the_plane")
  ELSE IF QLt(Sq(c), QMul(Wide, QMul(VSq(E(l)), VSq(G(l))))) THEN {}
  ELSE LET x == Meet2(l)
       IN  Chk(VecNear(o, x, QMul(E8, Size(<<x, l.p0, l.q0, l.p1, l.q1>>))), "C18.meet_in_the_plane")
Line3Fails(ev) ==
  LET l == ev.l o == ev.obs
      c == TLCEval(Cross(E(l), G(l)))
      g == VSub(l.p1, l.p0)
      sz == Size(<<l.p0, l.q0, l.p1, l.q1>>) IN
  IF ~IsLine(l.p0, l.q0) \/ ~IsLine(l.p1, l.q1) THEN {}
  ELSE IF Side(E(l), G(l), VSq(c))
  THEN IF SharedP(l) = {} THEN Chk(IsNone(o), "C18.parallel_in_space")
       ELSE Chk(\E x \in SharedP(l) : VecNear(o, l[x], QMul(E12, sz)), "C18.shared_point")
  ELSE IF QLt(VSq(c), QMul(Wide, QMul(VSq(E(l)), VSq(G(l))))) THEN {}
  \* in a common plane, up to the rounding of the points themselves
  ELSE IF QLt(QMul(QMul(Sq(E12), Sq(sz)), VSq(c)), Sq(VDot(g, c))) THEN {}
  ELSE LET x == Meet3(l)
           t == QMul(E8, Size(<<x, <<sz>> >>))
       IN  Chk(VecNear(o, x, t) /\ Near3(o.v, l.p0, l.q0, t) /\ Near3(o.v, l.p1, l.q1, t), "C18.meet_in_space")
BaryFails(ev) ==
  LET o == ev.obs
      n == Len(ev.p)
      shape == IF ev.single THEN IsVec(o, 3) \/ IsMat(o, 1, 3) ELSE IsMat(o, n, 3)
      row(i) == IF IsVec(o, 3) THEN o.v ELSE o.v[i]
      fine(i) == QLe(QMul(Wide, QMul(VSq(ev.u[i]), VSq(ev.v[i]))), VSq(Cross(ev.u[i], ev.v[i])))
                 /\ QSgn(VSq(Cross(ev.u[i], ev.v[i]))) > 0
      ok(i) == LET b == row(i)
                   e == TLCEval(Bary(ev.p[i], ev.q[i], ev.u[i], ev.v[i]))
                   t == QMul(E8, Max1(MaxAbsV(e)))
               IN  /\ NearV(b, e, t)
                   /\ Near(QSum(b), Q1, t)
                   /\ NearV(At(b, ev.q[i], ev.u[i], ev.v[i]), Foot(ev.p[i], ev.q[i], ev.u[i], ev.v[i]),
                            QMul(t, Size(<<ev.p[i], ev.q[i], ev.u[i], ev.v[i]>>)))
  IN  IF \A i \in 1..n : ~fine(i) THEN {}
      ELSE IF ~shape THEN {"C18.barycentric_shape"}
      ELSE Chk(\A i \in 1..n : fine(i) => ok(i), "C18.barycentric")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "line2" -> Line2Fails(ev)
          [] ev.op = "line3" -> Line3Fails(ev)
          [] ev.op = "bary" -> BaryFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C18.argument_changed")
=============================================================================
