------------------------------- MODULE MC_Cut -------------------------------
(* Cutting polylines, explored exhaustively: every chain of vertices in     *)
(* front of, on or behind a plane, open or closed.                          *)
EXTENDS Polyline, FiniteSets, Json
CONSTANTS MaxLen, Emit
VARIABLES p
Pl == [pt |-> VInt(<<0, 0, 1>>), n |-> VInt(<<0, 0, 2>>)]
\* vertex k of a chain, at height h above the plane
At(k, h) == VInt(<<k, k * k, 1 + h>>)
CONSTANT Levels      \* heights, counted from 10
Heights == {l - 10 : l \in Levels}
Init == \E c \in BOOLEAN : p = PL(<<>>, c)
Next == Len(p.v) < MaxLen /\ \E h \in Heights : p' = [p EXCEPT !.v = Append(@, At(Len(p.v) + 1, h))]

Cs == Crossings(p, Pl)
Off0 == \A i \in 1..Len(p.v) : Side(Pl, p.v[i]) # 0      \* no vertex on the plane
Crossed == p.v # <<>> /\ Len(Cs) = Expected(p)
Fronts == {i \in 1..Len(p.v) : Side(Pl, p.v[i]) > 0}
\* the crossings are on the plane and on their edges, and even in number when closed
CrossLaws == Off0 /\ p.v # <<>> =>
  /\ \A j \in 1..Len(Cs) : LET x == CrossAt(p, Pl, Cs[j]) s == Seg(p, Cs[j])
                               t == QDiv(Off(Pl, s[1]), QSub(Off(Pl, s[1]), Off(Pl, s[2])))
                           IN  Side(Pl, x) = 0 /\ QLt(Q0, t) /\ QLt(t, Q1)
  /\ p.closed => Len(Cs) % 2 = 0
  /\ Cs = <<>> => Fronts = {} \/ Fronts = 1..Len(p.v)
\* the result is exactly the part in front
CutLaws == Off0 /\ Crossed =>
  LET r == Cut(p, Pl).v
      k == Len(r)
      ends == IF p.closed THEN {1, k} ELSE {j \in {1, k} : Side(Pl, r[j]) = 0}
  IN  /\ Cardinality(ends) = Expected(p)
      /\ \A j \in ends : Side(Pl, r[j]) = 0
      /\ \A j \in (1..k) \ ends : Side(Pl, r[j]) > 0
      /\ k = Cardinality(Fronts) + Expected(p)
      /\ \A i \in Fronts : \E j \in (1..k) \ ends : r[j] = p.v[i]
      \* chain order: consecutive kept vertices are consecutive in the original
      /\ \A j \in 1..(k - 1) : \E e \in 1..NEdges(p) :
           LET s == Seg(p, e) IN
           /\ (r[j] = s[1] \/ (j \in ends /\ e \in Range(Cs) /\ r[j] = CrossAt(p, Pl, e)))
           /\ (r[j + 1] = s[2] \/ (j + 1 \in ends /\ e \in Range(Cs) /\ r[j + 1] = CrossAt(p, Pl, e)))
\* with vertices on the plane: the same, and still nothing from behind
TouchLaws ==
  /\ Off0 => (Cuttable(p, Pl) <=> Crossed)
  /\ Cuttable(p, Pl) =>
       LET r == PartOf(p, Pl).v
           on == {i \in 1..Len(p.v) : Side(Pl, p.v[i]) >= 0}
       IN  /\ r # <<>> /\ \A j \in 1..Len(r) : Side(Pl, r[j]) >= 0
           /\ \E j \in {1, Len(r)} : Side(Pl, r[j]) = 0
           /\ \A i \in on : \E j \in 1..Len(r) : r[j] = p.v[i]
           /\ Cs # <<>> => Off0
           /\ ~Off0 => Cardinality({i \in 1..Len(p.v) : Side(Pl, p.v[i]) = 0}) = 1
EmitCase == Emit /\ p.v # <<>> => PrintT("CASE " \o ToJson(<<
  [op |-> "new", id |-> 1, nil |-> FALSE, v |-> p.v, closed |-> p.closed],
  [op |-> "intersect", id |-> 1, plane |-> Pl, ret |-> TRUE],
  [op |-> "cut", id |-> 1, plane |-> Pl],
  [op |-> "cut", id |-> 1, plane |-> [pt |-> Pl.pt, n |-> VInt(<<0, 0, -3>>)]]>>))
=============================================================================
