-------------------------------- MODULE MC_Hull --------------------------------
(* A curve whose vertices move over a grid, one at a time; the grid laid on a *)
(* plane in space.                                                            *)
EXTENDS HullApi, Json
CONSTANTS K, N, Emit
VARIABLES c
Init == c = [i \in 1..K |-> <<0, 0>>]
Next == \E i \in 1..K, x, y \in 0..N : c' = [c EXCEPT ![i] = <<x, y>>]
Distinct == \A i, j \in 1..K : i < j => c[i] # c[j]
U3 == VInt(<<2, 1, 0>>)
W3 == VInt(<<-1, 1, 3>>)
Lay(p) == VAdd(VInt(<<4, -1, 2>>), VAdd(VScale(QI(p[1]), U3), VScale(QI(p[2]), W3)))
P == TLCEval([i \in 1..K |-> Lay(c[i])])
NN == Cross(U3, W3)                                    \* 3, -6, 3
General == Distinct /\ ~InLine(P)
H == TLCEval(Hull(P, NN, <<U3, W3>>))
Cyclic(s, t) == Len(s) = Len(t) /\ \E k \in 1..Len(t) : \A i \in 1..Len(s) : s[i] = t[((i + k - 2) % Len(t)) + 1]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
\* dropping one dimension: the curve seen along an axis
Seen(d) == [i \in 1..K |-> [P[i] EXCEPT ![d] = Q0]]
Laws == General =>
  /\ Rounds(P, H, NN, Q0)
  \* a hull vertex is one that no triangle of the others holds
  /\ \A i \in 1..K : (\E r \in 1..Len(H) : H[r] = i) <=>
        ~\E a, b, d \in (1..K) \ {i} : QSgn(Turn(P[a], P[b], P[d], NN)) > 0 /\
            \A e \in {<<a, b>>, <<b, d>>, <<d, a>>} : QSgn(Turn(P[e[1]], P[e[2]], P[i], NN)) >= 0
  \* whatever dimension the normal does not vanish in may be dropped
  /\ \A d \in 1..3 : LET S == Seen(d)
                         n == VScale(NN[d], VUnit(3, d)) IN
                     Cyclic(Hull(S, n, <<U3, W3>>), H)
  \* no other cyclic order goes round
  /\ ~Rounds(P, Rev(H), NN, Q0) /\ Rounds(P, Rev(H), VNeg(NN), Q0)
  \* flattening onto its own plane changes nothing
  /\ MEq(OnPlane(P, NN), P)
  /\ VIsZero(Cross(Broadest(P), NN))
Arr(m) == [k |-> "arr", shape |-> <<Len(m), 3>>, dt |-> "f", fin |-> TRUE, v |-> m]
Ind(s) == [k |-> "arr", shape |-> <<Len(s)>>, dt |-> "i", fin |-> TRUE, v |-> [i \in 1..Len(s) |-> QI(s[i] - 1)]]
Saw(s, flat, want) == [op |-> "hull", v |-> P, closed |-> TRUE, given |-> want, normal |-> NN, flatten |-> flat, want |-> want, mut |-> FALSE,
                 obs |-> [k |-> "hull", closed |-> TRUE, v |-> Arr([r \in 1..Len(s) |-> P[s[r]]]), indices |-> Ind(s)]]
Id == [i \in 1..K |-> i]
Accepts == General /\ K > 3 =>
  /\ Fails(<<>>, Saw(H, FALSE, TRUE)) = {}
  /\ Fails(<<>>, Saw(Rev(H), TRUE, FALSE)) = {}
  /\ (Len(H) > 3 => Fails(<<>>, Saw(Tail(H), FALSE, TRUE)) # {})
  /\ (Len(H) < K => Fails(<<>>, Saw(Id, FALSE, FALSE)) # {})
\* one in three, spread over the grid
EmitCase == Emit /\ (c[1][1] + c[2][2] + c[3][1]) % 3 = 0 /\ General => PrintT("CASE " \o ToJson(
  <<[op |-> "hull", v |-> P, closed |-> TRUE, given |-> FALSE, normal |-> NN, flatten |-> FALSE, want |-> TRUE, form |-> "f"],
    [op |-> "hull", v |-> P, closed |-> FALSE, given |-> FALSE, normal |-> NN, flatten |-> TRUE, want |-> FALSE, form |-> "i"]>>))
=============================================================================
