------------------------------- MODULE RigidApi -------------------------------
(* Rigid alignment.  A point set is a sequence of points.  The best rotation  *)
(* of a onto b is recognised without computing it: R is best among all proper *)
(* rotations exactly when S = R C, with C the sum of a b^T, is symmetric and  *)
(* tr(S) I - S is positive semidefinite (MC_Rigid compares this with all the  *)
(* rotations of a grid).                                                      *)
EXTENDS Obs, Trig
InitState == <<>>
Step(st, ev) == st

Corr(a, b) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> QSum([k \in 1..Len(a) |-> QMul(a[k][i], b[k][j])])]])
Centre(p) == LET m == TLCEval(VMean(p)) IN TLCEval([k \in 1..Len(p) |-> VSub(p[k], m)])
Tr(S) == QAdd(QAdd(S[1][1], S[2][2]), S[3][3])
Symmetric(S, t) == \A i, j \in 1..3 : Near(S[i][j], S[j][i], t)
\* positive definite, by leading minors
PosDef(A) == /\ QLt(Q0, A[1][1])
             /\ QLt(Q0, Det([i \in 1..2 |-> [j \in 1..2 |-> A[i][j]]]))
             /\ QLt(Q0, Det(A))
SymPart(S) == TLCEval([i \in 1..3 |-> [j \in 1..3 |-> QMul(Half, QAdd(S[i][j], S[j][i]))]])
Best(R, C, t) ==
  LET S == TLCEval(MatMul(R, C))
  IN  Symmetric(S, t) /\ PosDef(TLCEval(MAdd(MScale(QAdd(Tr(S), t), Ident(3)), MScale(QI(-1), SymPart(S)))))

\* ---- how far points spread ---------------------------------------------------
Size(p) == QMaxAbs([k \in 1..Len(p) |-> MaxAbsV(p[k])])
Reach(a, b) == QMax(Size(a), Size(b))

\* ---- the witness for exact data: b = s R a + t --------------------------------
Image(R, s, t, p) == VAdd(VScale(s, MatVec(R, p)), t)
WitnessOK(ev) ==
  /\ IsRotNear(ev.rot, E12)
  /\ \A k \in 1..Len(ev.a) : NearV(ev.b[k], Image(ev.rot, ev.s, ev.t, ev.a[k]), QMul(E12, QAdd(QMul(ev.s, Size(ev.a)), MaxAbsV(ev.t))))

\* R is s times a proper rotation
ScaledProper(R, t) ==
  LET n == VSq(R[1]) IN
  /\ QLt(Q0, n)
  /\ NearM(MatMul(R, Transp(R)), MScale(n, Ident(3)), QMul(t, n))
  /\ QLt(Q0, Det(R))
Decisive(C, t) == QLt(QMul(E6, QMul(t, QMul(t, t))), Det(C))
Spread(p) == QSum([k \in 1..Len(p) |-> VSq(p[k])])

TransformFails(ev) ==
  LET a == ev.a b == ev.b o == ev.obs
      big == Reach(a, b)
      C == Corr(Centre(a), Centre(b))
      w == QMax(Spread(Centre(a)), Spread(Centre(b)))
  IN  IF IsExc(o)
      \* only when every proper rotation is worse than a reflection
      THEN Chk(~ev.exact /\ ~Decisive(C, w), "C16.found")
      ELSE IF o.k # "rt" \/ ~IsMat(o.r, 3, 3) \/ ~IsMat(o.t, 3, 1) THEN {"C16.found"}
      ELSE LET R == o.r.v
               T == [i \in 1..3 |-> o.t.v[i][1]]
           IN  Chk(IsRotNear(R, E9), "C16.proper")
               \cup Chk(ev.exact => \A k \in 1..Len(a) : NearV(b[k], VAdd(MatVec(R, a[k]), T), QMul(E7, big)), "C16.maps")
               \cup Chk(NearV(T, VSub(VMean(b), MatVec(R, VMean(a))), QMul(E9, big)), "C16.translation")
               \cup Chk(Best(R, C, QMul(E8, w)), "C16.best")
RotationFails(ev) ==
  LET a == ev.a b == ev.b o == ev.obs
      big == Reach(a, b)
      C == Corr(a, b)
      w == QMax(Spread(a), Spread(b))
  IN  IF ~IsMat(o, 3, 3) THEN {"C16.found"}
      ELSE LET R == o.v IN
           Chk(IF ev.scaling THEN ScaledProper(R, E9) ELSE IsRotNear(R, E9), "C16.proper")
           \cup Chk(ev.exact => \A k \in 1..Len(a) : NearV(b[k], MatVec(R, a[k]), QMul(E7, big)), "C16.maps")
           \cup Chk(ev.exact /\ ev.scaling => Near(VSq(R[1]), Sq(ev.s), QMul(E9, Sq(ev.s))), "C16.scale")
           \cup (IF Len(a) = 1 THEN {}
                 ELSE LET n == IF ev.scaling THEN Root(VSq(R[1])) ELSE Q1
                      IN Chk(Best(R, C, QMul(QMul(E8, n), w)), "C16.best"))
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE IF ev.op \notin {"transform", "rotation"} THEN {"HARNESS.op"}
  ELSE IF ev.exact /\ ~WitnessOK(ev) THEN {"HARNESS.witness"}
  ELSE (IF ev.op = "transform" THEN TransformFails(ev) ELSE RotationFails(ev))
       \cup Chk(~ev.mut, "C16.argument_changed")
=============================================================================
