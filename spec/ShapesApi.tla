------------------------------- MODULE ShapesApi -------------------------------
(* Closed triangle meshes: prisms, the horizontal plane; normals of triangles. *)
EXTENDS Obs, Trig
InitState == <<>>
Step(st, ev) == st

\* ---- surfaces ------------------------------------------------------------------
\* A face is a triple of vertex numbers from 0; its directed edges
Edges(f) == {<<f[1], f[2]>>, <<f[2], f[3]>>, <<f[3], f[1]>>}
WellFormed(f, n) == \A k \in 1..3 : f[k] \in 0..(n - 1)
\* each edge belongs to exactly two faces, which run along it in opposite directions
Closed(Fs) ==
  LET all == UNION {Edges(Fs[i]) : i \in 1..Len(Fs)} IN
  /\ \A i \in 1..Len(Fs) : Cardinality({Fs[i][1], Fs[i][2], Fs[i][3]}) = 3
  /\ Cardinality(all) = 3 * Len(Fs)
  /\ \A e \in all : <<e[2], e[1]>> \in all
Corner(V, f, k) == V[f[k] + 1]
\* the volume enclosed, counted negative when the surface is inside out
Volume(V, Fs) == LET o == V[1] IN
  QDiv(QSum([i \in 1..Len(Fs) |-> VDot(Cross(VSub(Corner(V, Fs[i], 1), o), VSub(Corner(V, Fs[i], 2), o)), VSub(Corner(V, Fs[i], 3), o))]), QI(6))
\* no vertex is outside (for s = -1, inside) of a face by more than t
Bulges(V, Fs, s, t) == \A i \in 1..Len(Fs) :
  LET a == Corner(V, Fs[i], 1)
      n == Cross(VSub(Corner(V, Fs[i], 2), a), VSub(Corner(V, Fs[i], 3), a))
  IN  \A k \in 1..Len(V) : QLe(QMul(QI(s), VDot(n, VSub(V[k], a))), t)
Spread(V) == QMaxAbs([i \in 1..Len(V) |-> MaxAbsV(VSub(V[i], V[1]))])
\* the same points, in any order
Covers(V, W, t) == \A i \in 1..Len(W) : \E j \in 1..Len(V) : NearV(V[j], W[i], t)
Same(V, W, t) == Len(V) = Len(W) /\ Covers(V, W, t) /\ Covers(W, V, t)

\* ---- what is asked for ----------------------------------------------------------
Box(o, s) == [i \in 1..8 |-> LET b == i - 1 IN
  VAdd(o, <<IF b % 2 = 1 THEN s[1] ELSE Q0, IF (b \div 2) % 2 = 1 THEN s[2] ELSE Q0, IF b \div 4 = 1 THEN s[3] ELSE Q0>>)]
TriNormal(p) == Cross(VSub(p[2], p[1]), VSub(p[3], p[1]))
Displaced(p, h) == LET n == TriNormal(p) IN VScale(QNeg(QDiv(h, Root(VSq(n)))), n)
Prism(p, h) == LET d == TLCEval(Displaced(p, h)) IN p \o [i \in 1..3 |-> VAdd(p[i], d)]
PlaneCorners == <<VInt(<<1, 0, 0>>), VInt(<<-1, 0, 0>>), VInt(<<0, 0, 1>>), VInt(<<0, 0, -1>>)>>

\* ---- verdicts --------------------------------------------------------------------
IsMesh(o) == o.k = "mesh" /\ o.v.k = "arr" /\ Len(o.v.shape) = 2 /\ o.v.shape[2] = 3
             /\ o.f.k = "arr" /\ o.f.dt = "i" /\ Len(o.f.shape) = 2 /\ o.f.shape[2] = 3
\* the faces named by integers that fit
FacesOf(o) == TLCEval([i \in 1..Len(o.f.v) |-> [k \in 1..3 |-> QInt(o.f.v[i][k])]])
Small(o) == \A i \in 1..Len(o.f.v) : \A k \in 1..3 : QLe(Q0, o.f.v[i][k]) /\ QLt(o.f.v[i][k], QI(o.v.shape[1]))
FlatOk(o, Fs) == IsShape(o.flat, <<Len(Fs), 3, 3>>) /\
  \A i \in 1..Len(Fs) : \A k \in 1..3 : VEq(o.flat.v[i][k], Corner(o.v.v, Fs[i], k))
\* corners W; signed volume; vol # 0 when the solid is not flat; x bounds the coordinates
SolidFails(o, W, vol, x) ==
  IF ~IsMesh(o) THEN {"C22.solid"} ELSE IF ~Small(o) THEN {"C22.faces"}
  ELSE LET Fs == FacesOf(o)
           V == o.v.v
           t == QMul(E11, x)
           b == TLCEval(Spread(W))
           t3 == QMul(QMul(QI(60), t), Sq(b))
       IN  Chk(Same(V, W, t), "C22.corners")
           \cup Chk(Closed(Fs), "C22.closed")
           \cup Chk(Near(Volume(V, Fs), vol, t3), "C22.volume")
           \cup Chk(Len(V) # Len(W) \/ QLe(QAbs(vol), t3) \/ Bulges(V, Fs, QSgn(vol), t3), "C22.faces")
           \cup Chk(FlatOk(o, Fs), "C22.flattened")
PrismFails(ev) ==
  LET p == ev.p n == TLCEval(TriNormal(p))
      b == QMaxAbs([i \in 1..3 |-> MaxAbsV(VSub(p[i], p[1]))])
      x == QAdd(MaxAbsM(p), QAbs(ev.height))
  IN  IF QLe(VSq(n), QMul(E6, Sq(Sq(b)))) \/ QLe(b, QMul(E3, x)) \/ QLe(QAbs(ev.height), QMul(E3, x)) THEN {}
      \* too small for a plane: the library takes normals under 1e-8 for zero
      ELSE IF QLe(MaxAbsV(n), QMul(QI(2), E8)) /\ Raised(ev.obs, {"ValueError"}) THEN {}
      ELSE SolidFails(ev.obs, TLCEval(Prism(p, ev.height)), QMul(QMul(Half, Root(VSq(n))), ev.height), QMul(QI(1000), x))
NormalFails(ev) ==
  LET P == ev.p o == ev.obs N == Len(P)
      n == TLCEval([i \in 1..N |-> TriNormal(P[i])])
      edge(i) == QMax(MaxAbsV(VSub(P[i][2], P[i][1])), MaxAbsV(VSub(P[i][3], P[i][1])))
      shape == IF ev.single THEN <<3>> ELSE <<N, 3>>
      at(i) == IF ev.single THEN o.v ELSE o.v[i]
      x(i) == MaxAbsM(P[i])
      clear(i) == QLt(QMul(E6, QMul(QMul(x(i), edge(i)), QMul(x(i), edge(i)))), VSq(n[i]))
  IN  IF ~IsShape(o, shape) THEN {"C22.normal"}
      ELSE IF ~ev.unit
      THEN Chk(\A i \in 1..N : NearV(at(i), n[i], QMul(E12, QMul(x(i), edge(i)))), "C22.normal")
      ELSE Chk(\A i \in 1..N : clear(i) =>
                 /\ Near(VSq(at(i)), Q1, E10)
                 /\ QSgn(VDot(at(i), n[i])) > 0
                 /\ QLe(VSq(Cross(at(i), n[i])), QMul(QMul(E9, E9), VSq(n[i]))), "C22.normal")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "box" -> SolidFails(ev.obs, Box(ev.origin, ev.size), QMul(ev.size[1], QMul(ev.size[2], ev.size[3])),
                                         QMax(MaxAbsV(ev.origin), MaxAbsV(ev.size)))
          [] ev.op = "prism" -> PrismFails(ev)
          [] ev.op = "plane" ->
               LET o == ev.obs IN
               IF ~IsMesh(o) THEN {"C22.plane"} ELSE IF ~Small(o) THEN {"C22.plane"}
               ELSE LET Fs == FacesOf(o) IN
                    Chk(/\ Same(o.v.v, PlaneCorners, Q0)
                        /\ \A i \in 1..Len(Fs) : QSgn(TriNormal([k \in 1..3 |-> Corner(o.v.v, Fs[i], k)])[2]) > 0
                        /\ QEq(QSum([i \in 1..Len(Fs) |-> TriNormal([k \in 1..3 |-> Corner(o.v.v, Fs[i], k)])[2]]), QI(4)), "C22.plane")
                    \cup Chk(FlatOk(o, Fs), "C22.flattened")
          [] ev.op = "normal" -> NormalFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C22.argument_changed")
=============================================================================
