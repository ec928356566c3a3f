------------------------------- MODULE MC_Mesh -------------------------------
(* Every way a plane can separate the vertices of some small meshes.        *)
EXTENDS MeshSlice, Json
CONSTANT Emit
VARIABLES k, up
F(s) == s
Tetra == << <<0, 1, 2>>, <<0, 3, 1>>, <<1, 3, 2>>, <<2, 3, 0>> >>
Octa == << <<0, 2, 4>>, <<2, 1, 4>>, <<1, 3, 4>>, <<3, 0, 4>>, <<2, 0, 5>>, <<1, 2, 5>>, <<3, 1, 5>>, <<0, 3, 5>> >>
Strip == << <<0, 1, 2>>, <<1, 3, 2>>, <<2, 3, 4>>, <<3, 5, 4>> >>
Ring == << <<0, 1, 3>>, <<1, 4, 3>>, <<1, 2, 4>>, <<2, 5, 4>>, <<2, 0, 5>>, <<0, 3, 5>> >>   \* open prism: two holes
Two == << <<4, 5, 6>>, <<0, 1, 2>>, <<4, 7, 5>>, <<0, 3, 1>>, <<1, 3, 2>>, <<5, 7, 6>>, <<6, 7, 4>>, <<2, 3, 0>> >>
Fan == << <<0, 1, 2>>, <<3, 2, 0>>, <<0, 4, 3>>, <<5, 6, 0>> >>
Meshes == <<Tetra, Octa, Strip, Ring, Two, Fan>>
Size == <<4, 6, 6, 6, 8, 7>>
ClosedMesh == {1, 2, 5}
\* generic positions; the height is 1 or more on the given side
XY == << <<0, 1>>, <<7, 2>>, <<3, 11>>, <<-5, 4>>, <<13, -6>>, <<-17, 9>>, <<21, 16>>, <<-2, -23>> >>
H == <<2, 5, 3, 7, 11, 4, 9, 13>>
Mesh == [v |-> [i \in 1..Size[k] |-> VInt(<<XY[i][1], XY[i][2], IF up[i] THEN H[i] ELSE -H[i]>>)], f |-> Meshes[k]]
Pl == [pt |-> VInt(<<1, 2, 0>>), n |-> VInt(<<0, 0, 3>>)]
Init == k \in 1..Len(Meshes) /\ up \in [1..Size[k] -> BOOLEAN]
Next == UNCHANGED <<k, up>>

Sd == Sides(Mesh, Pl)
L == CrossFaces(Mesh, Sd)
Ed == [x \in L |-> Ends(Mesh, Sd, x)]
Nd == Nodes(Mesh, Sd)
Domain == Manifold(Mesh) /\ General(Mesh, Pl)
\* every crossing face is a link between two nodes, and a node has at most two
GraphLaws == /\ \A x \in L : Cardinality(Ed[x]) = 2
             /\ \A e \in Nd : Cardinality({x \in L : e \in Ed[x]}) \in {1, 2}
             /\ k \in ClosedMesh => \A e \in Nd : Cardinality({x \in L : e \in Ed[x]}) = 2
CompLaws == LET CS == Comps(Nd, Ed) IN
             /\ UNION CS = Nd /\ \A A, B \in CS : A = B \/ A \cap B = {}
             /\ \A C \in CS : Cardinality(Links(C, Ed)) \in {Cardinality(C), Cardinality(C) - 1}
             /\ k \in ClosedMesh => \A C \in CS : IsLoop(C, Ed)
             /\ (Nd = {}) = (\A i, j \in 1..Size[k] : (\E x \in 1..Len(Mesh.f) : {i - 1, j - 1} \subseteq Range(Mesh.f[x])) => up[i] = up[j])
EmitCase == Emit => PrintT("CASE " \o ToJson(<<
  [op |-> "slice", mesh |-> Mesh, plane |-> Pl, hood |-> <<>>],
  [op |-> "slice", mesh |-> Mesh, plane |-> [pt |-> Pl.pt, n |-> VInt(<<0, 0, -1>>)], hood |-> <<VInt(<<2, -20, 1>>), VInt(<<5, 5, 0>>)>>]>>))
=============================================================================
