------------------------------- MODULE MC_Sparse -------------------------------
(* A symmetric matrix whose entries change one pair at a time.               *)
EXTENDS SparseApi, Json
CONSTANTS N, H, Emit
VARIABLES a
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i <= j}
Init == a = [p \in Pairs |-> 0]
Next == \E p \in Pairs, x \in -H..H : a' = [a EXCEPT ![p] = x]
A == TLCEval([i \in 1..N |-> [j \in 1..N |-> QI(a[IF i <= j THEN <<i, j>> ELSE <<j, i>>])]])
Lead(k) == [i \in 1..k |-> [j \in 1..k |-> A[i][j]]]
Vectors == {v \in [1..N -> -2..2] : \E i \in 1..N : v[i] # 0}
Form(v) == LET x == VInt(v) IN VDot(x, MatVec(A, x))
Swapped == [i \in 1..N |-> [j \in 1..N |-> A[N + 1 - i][N + 1 - j]]]
Flip == [i \in 1..N |-> VUnit(N, N + 1 - i)]
PDLaws ==
  /\ PD(A) <=> \A k \in 1..N : QSgn(Det(Lead(k))) > 0           \* Sylvester
  /\ PD(A) => \A v \in Vectors : QSgn(Form(v)) > 0
  /\ PD(A) <=> PD(Swapped)
  /\ MEq(Conj(A, Flip), MatMul(Transp(Flip), MatMul(A, Flip)))
  /\ ClearlyPD(A) => PD(A)
  /\ ClearlyNot(A) => ~PD(A)
Masks == [1..N -> BOOLEAN]
M == [i \in 1..N |-> IF i = N THEN [j \in 1..N |-> QI(i + j)] ELSE A[i]]   \* not symmetric
BlockLaws ==
  LET v == VInt([i \in 1..N |-> 2 * i - 3]) IN
  /\ \A rs, cs \in Masks : VEq(ByBlocks(M, rs, cs, v), MatVec(M, v))
  /\ \A rs \in Masks : MEq(MMTByBlocks(M, rs), MatMul(M, Transp(M)))
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<[op |-> "chol", a |-> A, fmt |-> "csc"], [op |-> "chol", a |-> A, fmt |-> "int"],
    [op |-> "blocks", m |-> M, rtold |-> "mask", ctold |-> "mask", thr |-> Half,
     rs |-> [i \in 1..N |-> IF a[<<1, i>>] > 0 THEN 1 ELSE 0], cs |-> [i \in 1..N |-> IF a[<<i, N>>] > 0 THEN 1 ELSE 0],
     v |-> VInt([i \in 1..N |-> i]), w |-> A, fmt |-> "csr"]>>))
=============================================================================
