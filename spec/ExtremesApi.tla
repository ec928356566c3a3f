----------------------------- MODULE ExtremesApi -----------------------------
(* Extremal queries over points, inflection points of a curve, and boxes.     *)
EXTENDS Obs
InitState == <<>>
Step(st, ev) == st

\* ---- extremes ----------------------------------------------------------------
MaxQ(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : QLe(s[j], s[i])) /\ (\A j \in 1..(i - 1) : QLt(s[j], s[i]))
Heights(P, a) == TLCEval([i \in 1..Len(P) |-> VDot(P[i], a)])
ApexIndex(P, a) == MaxQ(Heights(P, a))
SqDists(p, P) == TLCEval([i \in 1..Len(P) |-> VSq(VSub(P[i], p))])
FarIndex(p, P) == MaxQ(SqDists(p, P))

\* ---- inflection ----------------------------------------------------------------
\* finite differences: central inside, one-sided at the ends
Grad(s) == LET n == Len(s) IN
  TLCEval([i \in 1..n |-> IF i = 1 THEN QSub(s[2], s[1])
                          ELSE IF i = n THEN QSub(s[n], s[n - 1])
                          ELSE QMul(Half, QSub(s[i + 1], s[i - 1]))])
Over(s, d) == TLCEval([i \in 1..Len(s) |-> QDiv(s[i], d[i])])
Second(h, x) == LET d == Grad(x) IN Over(Grad(Over(Grad(h), d)), d)
Inflects(h, x) == LET s == Second(h, x) IN {i \in 1..(Len(h) - 1) : QSgn(QMul(s[i], s[i + 1])) <= 0}

\* ---- boxes -----------------------------------------------------------------------
BoxOf(o, s) ==
  LET hi == VAdd(o, s)
      mid == VAdd(o, VScale(Half, s)) IN
  [ min_x |-> o[1], min_y |-> o[2], min_z |-> o[3],
    max_x |-> hi[1], max_y |-> hi[2], max_z |-> hi[3],
    mid_x |-> mid[1], mid_y |-> mid[2], mid_z |-> mid[3],
    width |-> s[1], height |-> s[2], depth |-> s[3],
    volume |-> QMul(s[1], QMul(s[2], s[3])),
    surface_area |-> QMul(QI(2), QAdd(QMul(s[1], s[2]), QAdd(QMul(s[2], s[3]), QMul(s[1], s[3])))) ]
RangesOf(o, s) == [i \in 1..3 |-> <<o[i], QAdd(o[i], s[i])>>]
CentreOf(o, s) == VAdd(o, VScale(Half, s))
FloorOf(o, s) == <<CentreOf(o, s)[1], o[2], CentreOf(o, s)[3]>>

\* ---- verdicts --------------------------------------------------------------------
\* numbers with which the library's sums and products are exact
Plain(x) == QLe(QAbs(x), QI(4096)) /\ LET k == QMul(QI(64), x) IN QEq(QFloor(k), k)
PlainV(v) == \A i \in 1..Len(v) : Plain(v[i])
PlainM(P) == \A i \in 1..Len(P) : PlainV(P[i])
IsRow(o, P, i) == IsVec(o, Len(P[i])) /\ VEq(o.v, P[i])
TopFails(o, P, s, exact, scale, at(_), name) ==
  IF exact THEN Chk(IsRow(o, P, MaxQ(s)) /\ at(MaxQ(s)), name)
  ELSE Chk(\E i \in 1..Len(P) : IsRow(o, P, i) /\ at(i) /\ \A j \in 1..Len(P) : QLe(QSub(s[j], s[i]), QMul(E12, scale)), name)
ApexFails(ev) ==
  LET s == Heights(ev.v, ev.axis)
      any(i) == TRUE
  IN  TopFails(ev.obs, ev.v, s, PlainM(ev.v) /\ PlainV(ev.axis), QMul(MaxAbsM(ev.v), MaxAbsV(ev.axis)), any, "C19.apex")
FarFails(ev) ==
  LET s == SqDists(ev.p, ev.v)
      m == QMax(MaxAbsM(ev.v), MaxAbsV(ev.p))
      at(i) == IsIntVal(ev.obs.index, i - 1)
  IN  IF ev.obs.k # "far" THEN {"C19.farthest"}
      ELSE TopFails(ev.obs.point, ev.v, s, PlainM(ev.v) /\ PlainV(ev.p), Sq(m), at, "C19.farthest")
\* powers of two, by which division is exact
Two(d) == \E k \in -4..6 : QEq(QAbs(d), IF k < 0 THEN QMk(1, 2 ^ (-k)) ELSE QI(2 ^ k))
RECURSIVE Explains(_, _, _, _, _)
\* the rows o from the k-th on are the rows of P at must and some of may, from the i-th on
Explains(o, k, P, i, f) ==
  IF i > Len(P) THEN k > Len(o)
  ELSE IF f[i] # "no" /\ k <= Len(o) /\ VEq(o[k], P[i]) THEN Explains(o, k + 1, P, i + 1, f)
  ELSE IF f[i] = "must" THEN FALSE
  ELSE Explains(o, k, P, i + 1, f)
InflectionFails(ev) ==
  LET P == ev.v
      n == Len(P)
      o == ev.obs
      h == Heights(P, ev.axis)
      x == Heights(P, ev.span)
      d == Grad(x)
      exact == PlainM(P) /\ PlainV(ev.axis) /\ PlainV(ev.span) /\ \A i \in 1..n : Two(d[i])
      steep == QMaxAbs(Over([i \in 1..n |-> Q1], d))     \* the largest 1/dx
      s == Second(h, x)
      t == QMul(QMul(E12, QMul(MaxAbsM(P), MaxAbsV(ev.axis))), Sq(steep))
      big(i) == QLt(t, QAbs(s[i]))
      f == TLCEval([i \in 1..n |->
             IF i = n THEN "no"
             ELSE IF exact \/ (big(i) /\ big(i + 1))
             THEN IF QSgn(QMul(s[i], s[i + 1])) <= 0 THEN "must" ELSE "no"
             ELSE "may"])
  IN  IF \E i \in 1..n : QLe(QAbs(d[i]), QMul(E6, MaxAbsV(x))) THEN {}
      ELSE IF (\E i \in 1..n : f[i] = "may") /\ (\E i, j \in 1..n : i < j /\ VEq(P[i], P[j])) THEN {}
      ELSE Chk(IF o.k = "list" THEN o.v = <<>> /\ \A i \in 1..n : f[i] # "must"
               ELSE o.k = "arr" /\ Len(o.shape) = 2 /\ (o.shape[1] = 0 \/ o.shape[2] = Len(P[1])) /\ Explains(o.v, 1, P, 1, f),
               "C19.inflection_points")
BoxFails(ev) ==
  LET o == ev.origin s == ev.size B == BoxOf(o, s)
      bad == \E i \in 1..3 : QSgn(s[i]) < 0
      m == QMax(MaxAbsV(o), MaxAbsV(s))
      t == QMul(E12, m)
      f(x) == ev.obs.f[x]
      lin == DOMAIN B \ {"volume", "surface_area"}
  IN  IF bad THEN Chk(Raised(ev.obs, {"ValueError"}), "C19.negative_refused")
      ELSE IF ev.obs.k # "box" THEN {"C19.box"}
      ELSE Chk(\A x \in lin : NumNear(f(x), B[x], t), "C19.box")
           \cup Chk(NumNear(f("volume"), B["volume"], QMul(E12, B["volume"])), "C19.volume")
           \cup Chk(NumNear(f("surface_area"), B["surface_area"], QMul(E12, B["surface_area"])), "C19.surface_area")
           \cup Chk(MatNear(f("ranges"), RangesOf(o, s), t), "C19.ranges")
           \cup Chk(VecNear(f("center_point"), CentreOf(o, s), t) /\ VecNear(f("floor_point"), FloorOf(o, s), t), "C19.points")
           \cup Chk(VecNear(f("origin"), o, Q0) /\ VecNear(f("shape"), s, Q0), "C19.given")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "apex" -> ApexFails(ev)
          [] ev.op = "far" -> FarFails(ev)
          [] ev.op = "inflection" -> InflectionFails(ev)
          [] ev.op = "box" -> BoxFails(ev)
          [] ev.op = "box_bad" -> Chk(IsExc(ev.obs), "C19.malformed_refused")
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C19.argument_changed")
=============================================================================
