------------------------------ MODULE MeshSlice ------------------------------
(* Cross sections of triangle meshes.  A mesh is [v, f]: vertices, and      *)
(* faces as triples of 0-based vertex indices.  The cross section is a      *)
(* graph: its nodes are the mesh edges that cross the plane, its links the  *)
(* faces that cross it, each joining two nodes.                             *)
EXTENDS Planes, Trig, FiniteSets, SequencesExt

Key(a, b) == IF a < b THEN <<a, b>> ELSE <<b, a>>
FaceEdges(f) == {Key(f[1], f[2]), Key(f[2], f[3]), Key(f[3], f[1])}

\* sides: the side of every vertex, 1-based
Sides(m, pl) == [i \in 1..Len(m.v) |-> Side(pl, m.v[i])]
FaceCrosses(f, sd) == \E i, j \in 1..3 : sd[f[i] + 1] # sd[f[j] + 1]
EdgeCrosses(e, sd) == sd[e[1] + 1] # sd[e[2] + 1]
CrossFaces(m, sd) == {k \in 1..Len(m.f) : FaceCrosses(m.f[k], sd)}
Ends(m, sd, k) == {e \in FaceEdges(m.f[k]) : EdgeCrosses(e, sd)}      \* of a link: two nodes
Nodes(m, sd) == UNION {Ends(m, sd, k) : k \in CrossFaces(m, sd)}

\* connected components of nodes; ends[k] for every link k
RECURSIVE Grow(_, _)
Grow(S, ends) == LET T == S \cup UNION {ends[k] : k \in {k \in DOMAIN ends : ends[k] \cap S # {}}}
                 IN  IF T = S THEN S ELSE Grow(T, ends)
RECURSIVE Comps(_, _)
Comps(N, ends) == IF N = {} THEN {}
                  ELSE LET C == Grow({CHOOSE x \in N : TRUE}, ends) IN {C} \cup Comps(N \ C, ends)
Links(C, ends) == {k \in DOMAIN ends : ends[k] \subseteq C}
IsLoop(C, ends) == Cardinality(Links(C, ends)) = Cardinality(C)

\* ---- the domain --------------------------------------------------------------
MSpan(m, pl) == QMax(MaxAbsV(pl.pt), MaxAbsM(m.v))
General(m, pl) == LET s == MSpan(m, pl) IN \A i \in 1..Len(m.v) : Clear(pl, m.v[i], s)
Manifold(m) ==
  /\ \A k \in 1..Len(m.f) : Cardinality(FaceEdges(m.f[k])) = 3
  /\ Cardinality({FaceEdges(m.f[k]) : k \in 1..Len(m.f)}) = Len(m.f)
  /\ \A e \in UNION {FaceEdges(m.f[k]) : k \in 1..Len(m.f)} :
       Cardinality({k \in 1..Len(m.f) : e \in FaceEdges(m.f[k])}) <= 2

\* ---- judging a returned list of polylines --------------------------------------
CrossPts(m, pl, N) == [e \in N |-> CrossPoint(pl, m.v[e[1] + 1], m.v[e[2] + 1])]
Apart(pts, t) == \A a, b \in DOMAIN pts : a # b => ~NearV(pts[a], pts[b], QMul(QI(10), t))
\* the node a returned vertex lies on: the set of nodes it is near
At(x, pts, t) == {e \in DOMAIN pts : NearV(x, pts[e], t)}
IsPoly(o) == o.v.k = "arr" /\ Len(o.v.shape) = 2 /\ o.v.shape[2] = 3 /\ o.v.fin /\ o.closed.k = "bool"
\* the nodes of a returned polyline, or <<>> if some vertex is on none
NodesOf(o, pts, t) == LET s == [i \in 1..Len(o.v.v) |-> At(o.v.v[i], pts, t)]
                      IN  IF \A i \in 1..Len(s) : Cardinality(s[i]) = 1
                          THEN [i \in 1..Len(s) |-> CHOOSE e \in s[i] : TRUE] ELSE <<>>
\* the links walked, as a sequence of sets of candidate faces
Walk(es, closed, ends) ==
  LET n == Len(es)
      k == IF closed THEN n ELSE n - 1
  IN  [i \in 1..k |-> {f \in DOMAIN ends : ends[f] = {es[i], es[(i % n) + 1]} /\ es[i] # es[(i % n) + 1]}]
\* one polyline is one whole component, each of its faces used once
WholeComponent(es, closed, CS, ends) ==
  /\ es # <<>>
  /\ Cardinality(Range(es)) = Len(es)
  /\ Range(es) \in CS
  /\ LET w == Walk(es, closed, ends) IN
     /\ \A i \in 1..Len(w) : w[i] # {}
     /\ UNION Range(w) = Links(Range(es), ends)
     /\ Len(w) = Cardinality(Links(Range(es), ends))
  /\ closed = IsLoop(Range(es), ends)

\* mean distance of a component to the nearest of the given points
NearestSq(x, nb) == LET d == [i \in 1..Len(nb) |-> VSq(VSub(x, nb[i]))]
                    IN  CHOOSE q \in Range(d) : \A r \in Range(d) : QLe(q, r)
RECURSIVE SetSum(_, _)
SetSum(S, f) == IF S = {} THEN Q0 ELSE LET x == CHOOSE x \in S : TRUE IN QAdd(f[x], SetSum(S \ {x}, f))
MeanDist(C, pts, nb) == QDiv(SetSum(C, [e \in C |-> Root(NearestSq(pts[e], nb))]), QI(Cardinality(C)))

\* a mesh may keep its vertices at given places of a longer list
IndexOf(m, k) == IF "at" \in DOMAIN m THEN m.at[k + 1] ELSE k

FacesFails(ev, sd) ==
  LET w == Ascending(CrossFaces(ev.mesh, sd))
  IN  Chk(IF w = <<>> THEN ev.obs.faces.k = "arr" /\ ev.obs.faces.shape[1] = 0
          ELSE IsShape(ev.obs.faces, <<Len(w), 3>>)
               /\ \A i \in 1..Len(w) : \A j \in 1..3 : QEq(ev.obs.faces.v[i][j], QI(IndexOf(ev.mesh, ev.mesh.f[w[i]][j]))), "C09.intersecting_faces")

SingleOK(o, comps) ==
  LET w == LET RECURSIVE J(_)
               J(i) == IF i > Len(comps) THEN <<>> ELSE comps[i].v.v \o J(i + 1)
           IN  J(1)
  IN  IF w = <<>> THEN IsIntVal(o.len, 0)
      ELSE IsShape(o.v, <<Len(w), 3>>) /\ MEq(o.v.v, w) /\ IsBool(o.closed, TRUE)

\* ---- seams: crossings of different edges at the same point --------------------
\* A mesh may keep the same point under several indices.  Each node then is
\* known by its point only, and a component by the sequence of its points, in
\* either direction, a loop from any of them.
SeamApart(pts, t) == \A a, b \in DOMAIN pts : a # b => VEq(pts[a], pts[b]) \/ ~NearV(pts[a], pts[b], QMul(QI(10), t))
Rep(pts, e) == CHOOSE d \in DOMAIN pts : VEq(pts[d], pts[e])
RECURSIVE Along(_, _, _)
\* the nodes of a component in order, from the first of path on
Along(path, C, ends) ==
  LET here == path[Len(path)]
      next == {e \in C \ Range(path) : \E k \in DOMAIN ends : ends[k] = {here, e}}
  IN  IF next = {} THEN path ELSE Along(Append(path, CHOOSE e \in next : TRUE), C, ends)
Order(C, ends) ==
  LET tips == {e \in C : Cardinality({k \in DOMAIN ends : e \in ends[k]}) = 1}
  IN  Along(<<CHOOSE e \in C : tips = {} \/ e \in tips>>, C, ends)
Turned(s, k) == [i \in 1..Len(s) |-> s[((i + k - 1) % Len(s)) + 1]]
SameLoop(a, b) == Len(a) = Len(b) /\ \E k \in 0..Len(a) - 1 : a = Turned(b, k) \/ Reverse(a) = Turned(b, k)
SameChain(a, b) == a = b \/ Reverse(a) = b
\* is a polyline through these points the component w, a loop or not?  An open
\* component whose ends are at the same point may come back closed.
IsComp(p, closed, w, loop) ==
  IF loop THEN closed /\ SameLoop(p, w)
  ELSE \/ ~closed /\ SameChain(p, w)
       \/ closed /\ w[1] = w[Len(w)] /\ SameLoop(p, Tail(w))
SeamFails(ev, CS, ends, pts, t) ==
  LET os == ev.obs.comps
      reps == {Rep(pts, e) : e \in DOMAIN pts}
      rp == [e \in reps |-> pts[e]]
      es == [i \in 1..Len(os) |-> NodesOf(os[i], rp, t)]
      cs == SetToSeq(CS)
      w == [i \in 1..Len(cs) |-> LET o == Order(cs[i], ends) IN [j \in 1..Len(o) |-> Rep(pts, o[j])]]
      loop == [i \in 1..Len(cs) |-> IsLoop(cs[i], ends)]
      is(i, j) == es[i] # <<>> /\ IsComp(es[i], os[i].closed.v, w[j], loop[j])
      twins(j) == {k \in 1..Len(cs) : (loop[k] = loop[j]) /\ (IF loop[j] THEN SameLoop(w[k], w[j]) ELSE SameChain(w[k], w[j]))}
      split(j) == ~loop[j] /\ w[j][1] = w[j][Len(w[j])]
  IN  Chk(\A i \in 1..Len(os) : es[i] # <<>>, "C09.vertices_on_edges_and_plane")
      \cup (IF ev.hood = <<>> \/ Cardinality(CS) <= 1
            THEN Chk(Len(os) = Len(cs), "C09.one_per_component")
                 \cup Chk(\A i \in 1..Len(os) : \E j \in 1..Len(cs) : is(i, j), "C09.component")
                 \cup Chk(\A j \in 1..Len(cs) : \/ \E k \in 1..Len(cs) : split(k)
                                               \/ Cardinality({i \in 1..Len(os) : is(i, j)}) = Cardinality(twins(j)), "C09.every_crossing_once")
            ELSE IF Len(os) # 1 \/ ~\E j \in 1..Len(cs) : is(1, j) THEN {"C09.neighborhood_component"}
            ELSE IF \E j \in 1..Len(cs) : split(j) THEN {}
            ELSE Chk(\E j \in 1..Len(cs) : is(1, j) /\ LET d == MeanDist(cs[j], pts, ev.hood)
                     IN  \A C \in CS : QLe(d, QAdd(MeanDist(C, pts, ev.hood), t)), "C09.neighborhood_nearest"))

SliceFails(ev) ==
  LET m == ev.mesh pl == ev.plane
      sd == Sides(m, pl)
      L == CrossFaces(m, sd)
      ends == [k \in L |-> Ends(m, sd, k)]
      N == UNION {ends[k] : k \in L}
      CS == Comps(N, ends)
      pts == CrossPts(m, pl, N)
      span == MSpan(m, pl)
      t == QMaxAbs(<<Rel(span)>> \o [i \in 1..Cardinality(N) |-> LET e == SetToSeq(N)[i] IN CrossTol(pl, m.v[e[1] + 1], m.v[e[2] + 1], span)])
      os == ev.obs.comps
      good == \A i \in 1..Len(os) : IsPoly(os[i])
      es == [i \in 1..Len(os) |-> NodesOf(os[i], pts, t)]
      whole(i) == WholeComponent(es[i], os[i].closed.v, CS, ends)
  IN  IF ~SeamApart(pts, t) THEN {}
      ELSE IF ev.obs.exc.k # "none" THEN {"C09.raised"}
      ELSE IF ~good THEN {"C09.polylines"}
      ELSE IF ~Apart(pts, t)
      THEN FacesFails(ev, sd) \cup SeamFails(ev, CS, ends, pts, t)
           \cup Chk(~ev.mut, "C09.argument_changed") \cup Chk(SingleOK(ev.obs.single, os), "C09.single")
      ELSE FacesFails(ev, sd)
        \cup Chk(~ev.mut, "C09.argument_changed")
        \cup (IF ev.hood = <<>> \/ Cardinality(CS) <= 1
              THEN Chk(Len(os) = Cardinality(CS), "C09.one_per_component")
                   \cup Chk(\A i \in 1..Len(os) : IsIntVal(os[i].len, os[i].v.shape[1]), "C09.polylines")
                   \cup Chk(\A i \in 1..Len(os) : es[i] # <<>>, "C09.vertices_on_edges_and_plane")
                   \cup Chk(\A i \in 1..Len(os) : whole(i), "C09.component")
                   \cup Chk({Range(es[i]) : i \in 1..Len(os)} = CS, "C09.every_crossing_once")
              ELSE IF Len(os) # 1 \/ ~whole(1) THEN {"C09.neighborhood_component"}
              ELSE Chk(LET d == MeanDist(Range(es[1]), pts, ev.hood)
                       IN  \A C \in CS : QLe(d, QAdd(MeanDist(C, pts, ev.hood), t)), "C09.neighborhood_nearest"))
        \cup Chk(SingleOK(ev.obs.single, os), "C09.single")

InitState == 0
Step(st, ev) == st
Fails(st, ev) ==
  CASE ev.op = "crash" -> {"ANY.crash"}
    [] ev.op = "slice" -> IF ~General(ev.mesh, ev.plane) \/ ~Manifold(ev.mesh) THEN {} ELSE SliceFails(ev)
=============================================================================
