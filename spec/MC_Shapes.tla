------------------------------- MODULE MC_Shapes -------------------------------
(* A box and a prism whose measures change one at a time.                     *)
EXTENDS ShapesApi, Json
CONSTANTS K, Emit
VARIABLES m      \* origin, size, then the three base points' coordinates in a plane, and the height
Len0 == 7
Init == m = [i \in 1..Len0 |-> 1]
Next == \E i \in 1..Len0, x \in -K..K : m' = [m EXCEPT ![i] = x]
Origin == VInt(<<m[1], 2, -m[1]>>)
Size == VInt(<<m[2], m[3], m[4]>>)
V == TLCEval(Box(Origin, Size))
\* the corners of each side, counterclockwise seen from outside; corner i of the box is bits of i
Quads == <<<<0, 1, 5, 4>>, <<6, 7, 3, 2>>, <<0, 4, 6, 2>>, <<3, 7, 5, 1>>, <<2, 3, 1, 0>>, <<4, 5, 7, 6>>>>
Halves(q) == <<<<q[1], q[2], q[3]>>, <<q[1], q[3], q[4]>>>>
RECURSIVE AllHalves(_)
AllHalves(qs) == IF qs = <<>> THEN <<>> ELSE Halves(Head(qs)) \o AllHalves(Tail(qs))
BoxFaces == AllHalves(Quads)
\* a base with an integral unit normal times 1, 3 or 9
P == TLCEval(<<VInt(<<m[1], 0, 1>>), VAdd(VInt(<<m[1], 0, 1>>), VScale(QI(m[5]), VInt(<<2, 1, 2>>))),
       VAdd(VInt(<<m[1], 0, 1>>), VAdd(VScale(QI(m[6]), VInt(<<1, 2, -2>>)), VScale(QI(m[2]), VInt(<<2, 1, 2>>))))>>)
PrismFaces == <<<<0, 1, 2>>, <<5, 4, 3>>>> \o AllHalves(<<<<0, 3, 4, 1>>, <<1, 4, 5, 2>>, <<2, 5, 3, 0>>>>)
Height == QI(m[7])
W == TLCEval(Prism(P, Height))
Flipped(Fs, i) == [Fs EXCEPT ![i] = <<Fs[i][1], Fs[i][3], Fs[i][2]>>]
Gone(Fs) == Tail(Fs)
BoxVol == QMul(Size[1], QMul(Size[2], Size[3]))
Solid == QSgn(BoxVol) # 0
BoxLaws ==
  /\ Closed(BoxFaces) /\ Cardinality(UNION {Edges(BoxFaces[i]) : i \in 1..12}) = 36     \* 8 - 18 + 12 = 2
  /\ QEq(Volume(V, BoxFaces), BoxVol)
  /\ Bulges(V, BoxFaces, IF QSgn(BoxVol) < 0 THEN -1 ELSE 1, Q0)
  /\ \A i \in 1..12 : ~Closed(Flipped(BoxFaces, i))
  /\ ~Closed(Gone(BoxFaces))
  /\ Solid => ~Bulges(V, BoxFaces, -QSgn(BoxVol), Q0)
PrismLaws == m[5] # 0 /\ m[6] # 0 =>
  /\ Closed(PrismFaces)
  /\ QEq(VSq(Displaced(P, Height)), Sq(Height))
  /\ QEq(VDot(Displaced(P, Height), TriNormal(P)), QNeg(QMul(Height, Root(VSq(TriNormal(P))))))
  /\ QEq(Volume(W, PrismFaces), QMul(Half, QMul(Root(VSq(TriNormal(P))), Height)))
Arr(s, v) == [k |-> "arr", shape |-> s, dt |-> "f", fin |-> TRUE, v |-> v]
Mesh(X, Fs) == [k |-> "mesh", v |-> Arr(<<Len(X), 3>>, X), f |-> [Arr(<<Len(Fs), 3>>, [i \in 1..Len(Fs) |-> VInt(Fs[i])]) EXCEPT !.dt = "i"],
                flat |-> Arr(<<Len(Fs), 3, 3>>, [i \in 1..Len(Fs) |-> [k \in 1..3 |-> Corner(X, Fs[i], k)]])]
Saw(X, Fs) == [op |-> "box", origin |-> Origin, size |-> Size, mut |-> FALSE, obs |-> Mesh(X, Fs)]
SawPrism(X, Fs) == [op |-> "prism", p |-> P, height |-> Height, mut |-> FALSE, obs |-> Mesh(X, Fs)]
Accepts ==
  /\ Fails(<<>>, Saw(V, BoxFaces)) = {}
  /\ Fails(<<>>, Saw(V, Flipped(BoxFaces, 1))) # {}
  /\ (Solid => Fails(<<>>, Saw([V EXCEPT ![3] = VAdd(@, VUnit(3, 1))], BoxFaces)) # {})
  /\ (Solid => Fails(<<>>, Saw(V, [i \in 1..12 |-> Flipped(BoxFaces, i)[i]])) # {})
  /\ (m[5] # 0 /\ m[6] # 0 /\ m[7] # 0 =>
        /\ Fails(<<>>, SawPrism(W, PrismFaces)) = {}
        /\ Fails(<<>>, SawPrism(Prism(P, QNeg(Height)), PrismFaces)) # {})
EmitCase == Emit /\ (m[1] + m[2] + m[3] + m[4] + m[5] + m[6] + m[7]) % 7 = 0 => PrintT("CASE " \o ToJson(
  <<[op |-> "box", origin |-> Origin, size |-> Size, form |-> "i", sform |-> "i", cube |-> FALSE],
    [op |-> "prism", p |-> P, height |-> Height, form |-> "i"],
    [op |-> "normal", p |-> <<P>>, single |-> TRUE, unit |-> FALSE, told |-> TRUE, form |-> "i"]>>))
=============================================================================
