------------------------------ MODULE Polyline ------------------------------
(* Polylines: a heap of polylines [v, closed], the calls that change them,  *)
(* what each must show, and the operations that make new curves from old.   *)
(* A polyline without vertices given has nil = TRUE (and v = <<>>).         *)
EXTENDS Planes

PL(v, closed) == [nil |-> FALSE, v |-> v, closed |-> closed]
NilPL(closed) == [nil |-> TRUE, v |-> <<>>, closed |-> closed]

\* ---- derived geometry -------------------------------------------------------
NEdges(p) == LET n == Len(p.v) IN IF n = 0 THEN 0 ELSE IF p.closed THEN n ELSE n - 1
\* edge i (1-based) as a pair of 1-based vertex indices
Edge(p, i) == <<i, IF i = Len(p.v) THEN 1 ELSE i + 1>>
Edges(p) == [i \in 1..NEdges(p) |-> Edge(p, i)]
Seg(p, i) == <<p.v[i], p.v[Edge(p, i)[2]]>>
SegVec(p, i) == VSub(Seg(p, i)[2], Seg(p, i)[1])
SqLen(p, i) == VSq(SegVec(p, i))
Span(p) == MaxAbsM(p.v)

\* ---- operations -------------------------------------------------------------
Flip(p) == [p EXCEPT !.v = [i \in 1..Len(p.v) |-> p.v[Len(p.v) + 1 - i]]]
\* 0-based index k comes first; k may be 0 .. n-1
Rotate(s, k) == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
Reindex(p, k) == PL(Rotate(p.v, k), TRUE)
\* the smallest number of equal pieces of a segment of squared length q that
\* are no longer than m
RECURSIVE Pieces(_, _, _)
Pieces(q, m, k) == IF QLe(q, Sq(QMul(QI(k), m))) THEN k ELSE Pieces(q, m, k + 1)
PieceCount(p, i, m) == Pieces(SqLen(p, i), m, 1)
Split(a, b, k) == [j \in 1..k |-> Lerp(a, b, QMk(j - 1, k))]      \* a included, b not
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
SumTo(ks, i) == LET RECURSIVE S(_)
                    S(j) == IF j = 0 THEN 0 ELSE ks[j] + S(j - 1)
                IN  S(i)
\* ks[i] pieces for edge i
SubdivideV(p, ks) == Concat([i \in 1..NEdges(p) |-> Split(Seg(p, i)[1], Seg(p, i)[2], ks[i])])
                     \o (IF p.closed THEN <<>> ELSE <<p.v[Len(p.v)]>>)
Subdivide(p, ks) == [p EXCEPT !.v = SubdivideV(p, ks)]
PieceCounts(p, m) == [i \in 1..NEdges(p) |-> PieceCount(p, i, m)]
\* 0-based positions of the original vertices
OrigIndices(p, ks) == [i \in 1..Len(p.v) |-> SumTo(ks, i - 1)]

AllNice(p, m) == Nice(m) /\ \A i \in 1..Len(p.v) : \A j \in 1..3 : Nice(p.v[i][j])
\* k pieces are as few as possible; within rounding where that cannot be exact
Loose12 == QAdd(Q1, E12)
CountOK(q, m, k, exact) ==
  LET up == IF exact THEN Q1 ELSE Loose12
      dn == IF exact THEN Q1 ELSE QSub(Q1, E12)
      over(j) == Sq(QMul(QI(j), m))
  IN  k >= 1 /\ QLe(q, QMul(up, over(k))) /\ (k = 1 \/ QLt(QMul(dn, over(k - 1)), q))

\* ---- cutting by planes ---------------------------------------------------------
PlSpan(p, pl) == QMax(Span(p), MaxAbsV(pl.pt))
General(p, pl) == \A i \in 1..Len(p.v) : Clear(pl, p.v[i], PlSpan(p, pl))
Crosses(p, pl, i) == Side(pl, Seg(p, i)[1]) * Side(pl, Seg(p, i)[2]) = -1
Crossings(p, pl) == Ascending({i \in 1..NEdges(p) : Crosses(p, pl, i)})
CrossAt(p, pl, i) == CrossPoint(pl, Seg(p, i)[1], Seg(p, i)[2])

Expected(p) == IF p.closed THEN 2 ELSE 1
\* the front part, when there is one
Cut(p, pl) ==
  LET cs == Crossings(p, pl)
      n == Len(p.v)
  IN  IF ~p.closed
      THEN LET i == cs[1] x == CrossAt(p, pl, i)
           IN  PL(IF Side(pl, p.v[1]) > 0 THEN SubSeq(p.v, 1, i) \o <<x>>
                  ELSE <<x>> \o SubSeq(p.v, i + 1, n), FALSE)
      ELSE LET \* the crossing that enters the front, and the one that leaves it
               enter == IF Side(pl, p.v[cs[1]]) < 0 THEN cs[1] ELSE cs[2]
               leave == IF enter = cs[1] THEN cs[2] ELSE cs[1]
               count == (leave - enter + n) % n
           IN  PL(<<CrossAt(p, pl, enter)>>
                  \o [j \in 1..count |-> p.v[((enter + j - 1) % n) + 1]]
                  \o <<CrossAt(p, pl, leave)>>, FALSE)

\* where vertices may lie on the plane: an edge that is not strictly on one side
\* of the plane meets it
Meets(p, pl, i) == Side(pl, Seg(p, i)[1]) + Side(pl, Seg(p, i)[2]) \notin {-2, 2}
Meeting(p, pl) == Ascending({i \in 1..NEdges(p) : Meets(p, pl, i)})
EdgeInPlane(p, pl, i) == Side(pl, Seg(p, i)[1]) = 0 /\ Side(pl, Seg(p, i)[2]) = 0
ExactSides(p, pl) == \A i \in 1..Len(p.v) : ExactSide(pl, p.v[i])
AllFront(p, pl) == \A i \in 1..Len(p.v) : Side(pl, p.v[i]) >= 0
\* cut or refused, when all sides are decided
Cuttable(p, pl) == /\ p.v # <<>> /\ Len(Meeting(p, pl)) = Expected(p) /\ ~(p.closed /\ AllFront(p, pl))
                   /\ \A i \in 1..NEdges(p) : ~EdgeInPlane(p, pl, i)
\* the part in front of or on the plane: if no edge changes sides, the vertices there
PartOf(p, pl) == IF Crossings(p, pl) # <<>> THEN Cut(p, pl)
                 ELSE PL(LET s == Ascending({i \in 1..Len(p.v) : Side(pl, p.v[i]) >= 0}) IN [j \in 1..Len(s) |-> p.v[s[j]]], FALSE)
\* a point repeated in a row is the same point of the curve
RECURSIVE Unrepeated(_)
Unrepeated(v) == IF Len(v) < 2 THEN v
                 ELSE IF VEq(v[1], v[2]) THEN Unrepeated(Tail(v)) ELSE <<v[1]>> \o Unrepeated(Tail(v))

\* ---- segment partitioning -----------------------------------------------------
SegPoints(a, b, k, endpoint) ==
  [j \in 1..k |-> Lerp(a, b, QMk(j - 1, IF endpoint THEN k - 1 ELSE k))]
SegInner(a, b, k) == [j \in 1..(k - 1) |-> Lerp(a, b, QMk(j, k))]
FillAll(v, k) == Concat([i \in 1..(Len(v) - 1) |-> Split(v[i], v[i + 1], k)]) \o <<v[Len(v)]>>

\* ---- state ----------------------------------------------------------------------
InitState == [x \in {} |-> 0]
Put(st, id, p) == (id :> p) @@ st
Knows(st, id) == id \in DOMAIN st
ObsV(o) == IF o.k = "arr" /\ Len(o.shape) = 2 /\ o.shape[2] = 3 THEN o.v ELSE <<>>
\* a vertex array seen on the real polyline
WellV(o) == o.k = "arr" /\ Len(o.shape) = 2 /\ o.shape[2] = 3 /\ o.fin

Step(st, ev) ==
  CASE ev.op = "new" -> Put(st, ev.id, [nil |-> ev.nil, v |-> ev.v, closed |-> ev.closed])
    [] ev.op = "set_v" -> Put(st, ev.id, [st[ev.id] EXCEPT !.v = ev.v, !.nil = ev.nil])
    [] ev.op = "set_closed" -> Put(st, ev.id, [st[ev.id] EXCEPT !.closed = ev.closed])
    [] ev.op = "poke" -> Put(st, ev.id, [st[ev.id] EXCEPT !.v[ev.i + 1] = ev.x])
    [] ev.op = "flip" -> Put(st, ev.id, Flip(st[ev.id]))
    [] ev.op = "copy" -> Put(st, ev.to, st[ev.id])
    [] ev.op = "reindexed" -> IF ev.to = 0 \/ ~st[ev.id].closed THEN st ELSE Put(st, ev.to, Reindex(st[ev.id], ev.i))
    [] ev.op = "partition" -> IF WellV(ev.after) THEN Put(st, ev.id, [st[ev.id] EXCEPT !.v = ev.after.v]) ELSE st
    [] OTHER -> st

\* ---- verdicts ---------------------------------------------------------------------
EdgesOK(o, p) ==
  LET n == NEdges(p)
  IN  IF p.nil THEN IsNone(o) \/ IsShape(o, <<0, 2>>)
      ELSE IsShape(o, <<n, 2>>) /\ o.dt = "i"
           /\ \A i \in 1..n : QEq(o.v[i][1], QI(Edge(p, i)[1] - 1)) /\ QEq(o.v[i][2], QI(Edge(p, i)[2] - 1))
VertsOK(o, p) == IF p.nil THEN IsNone(o)
                 ELSE IsShape(o, <<Len(p.v), 3>>) /\ o.dt = "f" /\ MEq(o.v, p.v)
LengthsOK(o, p) == IsShape(o, <<NEdges(p)>>)
                   /\ \A i \in 1..NEdges(p) : NearRoot(o.v[i], SqLen(p, i), E9)
ReprOf(p) == IF Len(p.v) = 0 THEN "<Polyline with no verts>"
             ELSE "<" \o (IF p.closed THEN "closed" ELSE "open") \o " Polyline with " \o ToString(Len(p.v)) \o " verts>"
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
\* the unit of the last decimal kept
Unit(d) == IF d < 0 THEN QI(Pow10(0 - d)) ELSE QMk(1, Pow10(d))
ProbeFails(p, o) ==
  LET n == NEdges(p) IN
  Chk(VertsOK(o.v, p), "C04.vertices")
  \cup Chk(IsBool(o.closed, p.closed), "C04.closed")
  \cup Chk(EdgesOK(o.e, p), "C04.edges")
  \cup Chk(IsIntVal(o.len, Len(p.v)), "C04.len")
  \cup Chk(IsStr(o.repr, ReprOf(p)), "C04.repr")
  \cup Chk(LengthsOK(o.lengths, p), "C04.segment_lengths")
  \cup Chk(LengthsOK(o.lengths, p) => NumNear(o.total, QSum(IF n = 0 THEN <<>> ELSE o.lengths.v), Rel(QMul(QI(n + 1), Span(p)))),
           "C04.total_length")
  \cup Chk(n > 0 => Raised(o.write, {"ValueError"}), "C04.edges_read_only")
  \cup Chk(Raised(o.assign, {"AttributeError"}), "C04.edges_read_only")
  \cup (IF p.nil THEN {} ELSE
        Chk(IsShape(o.segments, <<n, 2, 3>>) /\ \A i \in 1..n : MEq(o.segments.v[i], Seg(p, i)), "C04.segments")
        \cup Chk(IsShape(o.vectors, <<n, 3>>) /\ \A i \in 1..n : NearV(o.vectors.v[i], SegVec(p, i), Rel(Span(p))),
                 "C04.segment_vectors")
        \cup Chk(/\ EdgesOK(o.dict.edges, p)
                 /\ o.dict.keys = <<"edges", "vertices">>
                 /\ IsShape(o.dict.vertices, <<Len(p.v), 3>>) \/ Len(p.v) = 0
                 /\ \A i \in 1..Len(p.v) : \A j \in 1..3 :
                      LET x == o.dict.vertices.v[i][j] IN
                      \* at most half a unit of the last decimal away, and a
                      \* multiple of that unit
                      /\ Near(x, p.v[i][j], QAdd(QMul(Half, Unit(o.dict.decimals)), Rel(Span(p))))
                      /\ LET m == QDiv(x, Unit(o.dict.decimals))
                         IN  Near(QFloor(QAdd(m, Half)), m, QMul(E6, Max1(QMul(E3, QAbs(m))))), "C04.to_dict"))

\* counts of pieces seen: positions of the originals from the indices when they
\* were returned, else found by length
PartitionFails(p, ev) ==
  LET n == NEdges(p)
      exact == AllNice(p, ev.max)
      s == Span(p)
      \* the minimal counts; where rounding may decide, either neighbour
      base == PieceCounts(p, ev.max)
      ks == IF ~exact /\ ev.counts # <<>> /\ Len(ev.counts) = n
               /\ \A i \in 1..n : CountOK(SqLen(p, i), ev.max, ev.counts[i], exact)
            THEN ev.counts ELSE base
      want == SubdivideV(p, ks)
      orig == OrigIndices(p, ks)
  IN  IF ~WellV(ev.after) THEN {"C05.partition"}
      ELSE Chk(Len(ev.after.v) = Len(want) /\ NearM(ev.after.v, want, Rel(s))
               /\ \A i \in 1..Len(p.v) : VEq(ev.after.v[orig[i] + 1], p.v[i]), "C05.partition")
           \cup Chk(IsBool(ev.closed, p.closed), "C05.openness_kept")
           \cup Chk(IF ev.ret THEN IntVec(ev.obs, orig) ELSE ev.obs.k = "self", "C05.partition_result")
           \cup Chk(ev.before_total.k = "num" /\ NumNear(ev.after_total, ev.before_total.v, Rel(QMul(QI(Len(want)), s))), "C05.total_length_kept")

ReindexFails(p, ev) ==
  IF ~p.closed THEN Chk(Raised(ev.obs.poly, {"ValueError"}), "C05.reindex_open_refused")
  ELSE Chk(VertsOK(ev.obs.poly, Reindex(p, ev.i)) /\ IsBool(ev.obs.closed, TRUE), "C05.reindexed")
       \cup Chk(ev.map => IntVec(ev.obs.mapping, Rotate([i \in 1..Len(p.v) |-> i - 1], ev.i)), "C05.edge_mapping")

IntersectFails(p, ev) ==
  LET pl == ev.plane
      gen == General(p, pl)
      exact == ~gen /\ ExactSides(p, pl) /\ \A i \in 1..NEdges(p) : ~EdgeInPlane(p, pl, i)
  IN IF ~gen /\ ~exact THEN {}
     ELSE LET cs == IF gen THEN Crossings(p, pl) ELSE Meeting(p, pl)
              s == PlSpan(p, pl)
          IN  Chk(IsShape(ev.obs, <<Len(cs), 3>>)
                  /\ \A j \in 1..Len(cs) : NearV(ev.obs.v[j], CrossAt(p, pl, cs[j]), CrossTol(pl, Seg(p, cs[j])[1], Seg(p, cs[j])[2], s)),
                  "C06.intersections")
              \cup Chk(ev.ret => IntVec(ev.indices, [j \in 1..Len(cs) |-> cs[j] - 1]), "C06.edge_indices")
              \cup Chk(~ev.mut, "C06.argument_changed")

CutFails(p, ev) ==
  IF ~General(p, ev.plane)
  THEN IF ~ExactSides(p, ev.plane) THEN {}
       ELSE Chk(~ev.mut, "C06.argument_changed") \cup
            (IF ~Cuttable(p, ev.plane) THEN Chk(Raised(ev.obs.v, {"ValueError"}), "C06.touching_refused")
             ELSE LET w == Unrepeated(PartOf(p, ev.plane).v)
                      o == IF WellV(ev.obs.v) THEN Unrepeated(ev.obs.v.v) ELSE <<>>
                  IN  Chk(Len(o) = Len(w) /\ NearM(o, w, Rel(PlSpan(p, ev.plane))), "C06.touching_part")
                      \cup Chk(IsBool(ev.obs.closed, FALSE), "C06.open_result"))
  ELSE IF Len(Crossings(p, ev.plane)) # Expected(p)
       THEN Chk(Raised(ev.obs.v, {"ValueError"}), "C06.refused") \cup Chk(~ev.mut, "C06.argument_changed")
  ELSE LET w == Cut(p, ev.plane)
           s == PlSpan(p, ev.plane)
           cs == Crossings(p, ev.plane)
           t == QMaxAbs([j \in 1..Len(cs) |-> CrossTol(ev.plane, Seg(p, cs[j])[1], Seg(p, cs[j])[2], s)])
           own(i) == \E k \in 1..Len(p.v) : VEq(w.v[i], p.v[k])
       IN  Chk(IsShape(ev.obs.v, <<Len(w.v), 3>>)
               /\ \A i \in 1..Len(w.v) : NearV(ev.obs.v.v[i], w.v[i], IF own(i) THEN Q0 ELSE t), "C06.front_part")
           \cup Chk(IsBool(ev.obs.closed, FALSE), "C06.open_result")
           \cup Chk(~ev.mut, "C06.argument_changed")

Fails(st, ev) ==
  CASE ev.op = "crash" -> {"ANY.crash"}
    [] ev.op \in {"new", "set_v", "set_closed", "copy"} -> Chk(~IsExc(ev.obs), "C04.accepted")
    [] ev.op \in {"new_bad", "set_bad"} -> Chk(Raised(ev.obs, {"ValueError", "TypeError"}), "C04.refused")
    [] ev.op = "poke" -> {}
    [] ev.op = "probe" -> ProbeFails(st[ev.id], ev.obs)
    [] ev.op = "flip" -> Chk(VertsOK(ev.after, Flip(st[ev.id])), "C05.flipped") \cup Chk(IsBool(ev.closed, st[ev.id].closed), "C05.openness_kept")
    [] ev.op = "partition" -> PartitionFails(st[ev.id], ev)
    [] ev.op = "reindexed" -> ReindexFails(st[ev.id], ev)
    [] ev.op = "intersect" -> IntersectFails(st[ev.id], ev)
    [] ev.op = "cut" -> CutFails(st[ev.id], ev)
    [] ev.op = "segment" ->
         LET m == IF ev.fn = "old" THEN SegInner(ev.a, ev.b, ev.n) ELSE SegPoints(ev.a, ev.b, ev.n, ev.endpoint)
             s == QMax(MaxAbsV(ev.a), MaxAbsV(ev.b))
         IN  Chk(MatNear(ev.obs, m, Rel(s)), "C05.segment_points") \cup Chk(~ev.mut, "C05.argument_changed")
    [] ev.op = "segment_refused" -> Chk(Raised(ev.obs, {"TypeError", "ValueError"}), "C05.segment_count_refused")
    [] ev.op = "fill" -> Chk(MatNear(ev.obs, FillAll(ev.v, ev.n), Rel(MaxAbsM(ev.v))), "C05.segment_points")
                         \cup Chk(~ev.mut, "C05.argument_changed")
=============================================================================
