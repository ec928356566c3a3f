---------------------------- MODULE MC_Polyline ----------------------------
(* The design of polylines, explored exhaustively: every history of calls   *)
(* on two polylines within the bounds, and the laws the calls obey.         *)
EXTENDS Polyline, Json
CONSTANTS MaxCalls, Emit
VARIABLES heap, n, hist
vars == <<heap, n, hist>>

P1 == VInt(<<0, 0, 0>>)
P2 == VInt(<<3, 4, 0>>)
P3 == VInt(<<3, 4, 12>>)
P4 == VInt(<<-1, 1, 0>>)
VS == << <<P1, P2, P3>>, <<P2, P2, P1, P4>>, <<P4>>, <<P1, P3>> >>
Max == QMk(5, 2)
Ids == {1, 2}

Init == heap = InitState /\ n = 0 /\ hist = <<>>
Do(ev) == /\ n < MaxCalls
          /\ n' = n + 1
          /\ heap' = Step(heap, ev)
          /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
Live == DOMAIN heap
New == \E k \in 1..Len(VS), c \in BOOLEAN :
         1 \notin Live /\ Do([op |-> "new", id |-> 1, nil |-> FALSE, v |-> VS[k], closed |-> c])
NewNil == \E c \in BOOLEAN : 1 \notin Live /\ Do([op |-> "new", id |-> 1, nil |-> TRUE, v |-> <<>>, closed |-> c])
SetV == \E i \in Live, k \in {2, 4} : Do([op |-> "set_v", id |-> i, nil |-> FALSE, v |-> VS[k]])
SetNil == \E i \in Live : Do([op |-> "set_v", id |-> i, nil |-> TRUE, v |-> <<>>])
SetBad == \E i \in Live : Do([op |-> "set_bad", id |-> i, what |-> "flat"])
SetClosed == \E i \in Live, c \in BOOLEAN : Do([op |-> "set_closed", id |-> i, closed |-> c])
FlipCall == \E i \in Live : ~heap[i].nil /\ Do([op |-> "flip", id |-> i])
CopyCall == 1 \in Live /\ Do([op |-> "copy", id |-> 1, to |-> 2])
ReindexCall == \E k \in {0, 1} : 1 \in Live /\ heap[1].closed /\ Len(heap[1].v) > 1
               /\ Do([op |-> "reindexed", id |-> 1, to |-> 2, i |-> k, map |-> FALSE])
Poke == \E i \in Live : Len(heap[i].v) > 0 /\ Do([op |-> "poke", id |-> i, i |-> 0, x |-> VInt(<<9, 9, 9>>)])
PartitionCall == \E i \in Live : Len(heap[i].v) > 0 /\ Len(heap[i].v) < 12 /\
  LET p == heap[i] v == SubdivideV(p, PieceCounts(p, Max))
  IN  Do([op |-> "partition", id |-> i, max |-> Max, ret |-> FALSE,
          after |-> [k |-> "arr", shape |-> <<Len(v), 3>>, fin |-> TRUE, v |-> v]])
Next == New \/ NewNil \/ SetV \/ SetNil \/ SetBad \/ SetClosed \/ FlipCall \/ CopyCall
        \/ ReindexCall \/ Poke \/ PartitionCall

\* ---- properties of the design -------------------------------------------------
Sorted(s) == SortSeq(s, QLt)
SqLens(p) == [i \in 1..NEdges(p) |-> SqLen(p, i)]
EdgeLaws == \A i \in Live : LET p == heap[i] IN
  /\ Len(Edges(p)) = (IF p.v = <<>> THEN 0 ELSE IF p.closed THEN Len(p.v) ELSE Len(p.v) - 1)
  /\ \A k \in 1..NEdges(p) : Edge(p, k)[1] \in 1..Len(p.v) /\ Edge(p, k)[2] \in 1..Len(p.v)
  /\ \A k \in 1..(NEdges(p) - 1) : Edge(p, k)[2] = Edge(p, k + 1)[1]           \* a chain
  /\ p.closed /\ NEdges(p) > 0 => Edge(p, NEdges(p))[2] = 1
FlipLaws == \A i \in Live : LET p == heap[i] IN
  Flip(Flip(p)) = p /\ Sorted(SqLens(Flip(p))) = Sorted(SqLens(p))
RotateLaws == \A i \in Live : LET p == heap[i] IN p.closed /\ p.v # <<>> =>
  \A k \in 0..(Len(p.v) - 1) :
    /\ Reindex(p, k).v[1] = p.v[k + 1]
    /\ Sorted(SqLens(Reindex(p, k))) = Sorted(SqLens(p))
    /\ \A e \in 1..Len(p.v) : SqLen(Reindex(p, k), e) = SqLen(p, Rotate([j \in 1..Len(p.v) |-> j], k)[e])
PartitionLaws == \A i \in Live : LET p == heap[i] IN p.v # <<>> =>
  LET ks == PieceCounts(p, Max)
      r == Subdivide(p, ks)
      o == OrigIndices(p, ks)
  IN  /\ \A j \in 1..Len(p.v) : r.v[o[j] + 1] = p.v[j]
      /\ \A e \in 1..NEdges(r) : QLe(SqLen(r, e), Sq(Max))
      /\ NEdges(r) = SumTo(ks, NEdges(p))
      \* pieces of one edge are equal and add up to it
      /\ \A e \in 1..NEdges(p) : \A j \in 1..ks[e] :
           QEq(QMul(QI(ks[e] * ks[e]), SqLen(r, SumTo(ks, e - 1) + j)), SqLen(p, e))
      /\ \A e \in 1..NEdges(p) : QLe(SqLen(p, e), Sq(Max)) => ks[e] = 1
\* a call changes at most the polyline it names
Independent == [][\A i \in Ids : i \in DOMAIN heap =>
                   (heap'[i] = heap[i] \/ \A j \in Ids \ {i} : j \in DOMAIN heap => heap'[j] = heap[j])]_vars

Full == n = MaxCalls
EmitCase == Emit /\ Full => PrintT("CASE " \o ToJson(hist))
=============================================================================
