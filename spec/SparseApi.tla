------------------------------- MODULE SparseApi -------------------------------
(* Sparse Cholesky factorization, block-sparse products, conjugate gradients. *)
EXTENDS Obs
InitState == <<>>
Step(st, ev) == st

\* ---- positive definiteness, by elimination -------------------------------------
Schur(A) == LET n == Len(A) IN
  TLCEval([i \in 1..(n - 1) |-> [j \in 1..(n - 1) |->
    QSub(A[i + 1][j + 1], QDiv(QMul(A[i + 1][1], A[1][j + 1]), A[1][1]))]])
RECURSIVE PD(_)
PD(A) == Len(A) = 0 \/ (QSgn(A[1][1]) > 0 /\ PD(Schur(A)))
Shift(A, c) == TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A) |-> IF i = j THEN QAdd(A[i][i], c) ELSE A[i][j]]])
Symm(A) == MEq(A, Transp(A))
\* clear of rounding either way
ClearlyPD(A) == PD(Shift(A, QNeg(QMul(E8, MaxAbsM(A)))))
ClearlyNot(A) == \/ \E i \in 1..Len(A) : QSgn(A[i][i]) <= 0
                 \/ ~PD(Shift(A, QMul(E8, MaxAbsM(A))))
IsPerm(S) == LET n == Len(S) IN
  /\ \A i, j \in 1..n : QEq(S[i][j], Q0) \/ QEq(S[i][j], Q1)
  /\ \A i \in 1..n : QEq(QSum(S[i]), Q1)
  /\ \A j \in 1..n : QEq(QSum(MCol(S, j)), Q1)
Conj(A, S) == LET n == Len(A)
                  p == TLCEval([j \in 1..n |-> CHOOSE i \in 1..n : QEq(S[i][j], Q1)])
              IN  [i \in 1..n |-> [j \in 1..n |-> A[p[i]][p[j]]]]

\* ---- sparse and dense rows and columns -----------------------------------------
Count(r) == Cardinality({j \in 1..Len(r) : QSgn(r[j]) # 0})
Longest(M) == QI(IF Len(M) > Len(M[1]) THEN Len(M) ELSE Len(M[1]))
BySize(M, rows, thr) == [i \in 1..Len(rows) |-> QLt(QI(Count(rows[i])), QMul(thr, Longest(M)))]
NoTie(M, rows, thr) == \A i \in 1..Len(rows) :
  LET d == QAbs(QSub(QI(Count(rows[i])), QMul(thr, Longest(M)))) IN QSgn(d) = 0 \/ QLt(E9, d)
Where(mask, x) == Ascending({i \in 1..Len(mask) : mask[i] = x})
\* M with the entries outside the chosen rows and columns cleared
Kept(M, rs, cs) == [i \in 1..Len(M) |-> [j \in 1..Len(M[1]) |-> IF rs[i] /\ cs[j] THEN M[i][j] ELSE Q0]]
Not(s) == [i \in 1..Len(s) |-> ~s[i]]
ByBlocks(M, rs, cs, v) ==
  LET p(a, b) == MatVec(Kept(M, a, b), v)
  IN  VAdd(VAdd(p(rs, cs), p(rs, Not(cs))), VAdd(p(Not(rs), cs), p(Not(rs), Not(cs))))
\* the product with the transpose, from sparse and dense rows
MMTByBlocks(M, rs) ==
  LET all == [j \in 1..Len(M[1]) |-> TRUE]
      s == Kept(M, rs, all) d == Kept(M, Not(rs), all)
      sd == MatMul(s, Transp(d))
  IN  MAdd(MAdd(MatMul(s, Transp(s)), MatMul(d, Transp(d))), MAdd(sd, Transp(sd)))

\* ---- verdicts --------------------------------------------------------------------
\* where it stopped: one more than the rows and columns it could factor, and
\* these are factored
PartialFactor(o, n) ==
  /\ o.l.k = "arr" /\ Len(o.l.shape) = 2 /\ o.l.shape[1] = n /\ o.l.shape[2] < n
  /\ IsMat(o.s, n, n) /\ IsPerm(o.s.v)
PartialFails(A, o) ==
  LET p == o.l.shape[2]
      L == TLCEval([i \in 1..p |-> [j \in 1..p |-> o.l.v[i][j]]])
      B == Conj(A, o.s.v)
      lead == TLCEval([i \in 1..p |-> [j \in 1..p |-> B[i][j]]])
      next == TLCEval([i \in 1..(p + 1) |-> [j \in 1..(p + 1) |-> B[i][j]]])
  IN  Chk(IsIntVal(o.code, p + 1) /\ ~ClearlyPD(next), "C21.partial_code")
      \cup (IF p = 0 THEN {}
            ELSE Chk((\A i, j \in 1..p : i < j => QEq(L[i][j], Q0))
                     /\ NearM(MatMul(L, Transp(L)), lead, QMul(E10, MaxAbsM(A))), "C21.partial"))
CholFails(ev) ==
  LET A == ev.a n == Len(A) o == ev.obs IN
  IF ~Symm(A) THEN {"HARNESS.symmetric"}
  ELSE IF ClearlyNot(A)
  THEN Chk(o.k = "chol" /\ o.code.k = "num" /\ QSgn(o.code.v) # 0, "C21.not_positive_definite")
       \cup (IF o.k = "chol" /\ PartialFactor(o, n) THEN PartialFails(A, o) ELSE {"C21.partial"})
  ELSE IF ~ClearlyPD(A) THEN {}
  ELSE IF o.k # "chol" THEN {"C21.factor"}
  ELSE IF ~IsMat(o.l, n, n) \/ ~IsMat(o.s, n, n) THEN {"C21.factor"}
  ELSE Chk(IsIntVal(o.code, 0), "C21.code")
       \cup Chk(\A i, j \in 1..n : i < j => QEq(o.l.v[i][j], Q0), "C21.triangular")
       \cup Chk(\A i \in 1..n : QLt(Q0, o.l.v[i][i]), "C21.diagonal")
       \cup (IF ~IsPerm(o.s.v) THEN {"C21.permutation"}
             ELSE Chk(NearM(MatMul(o.l.v, Transp(o.l.v)), Conj(A, o.s.v), QMul(E10, MaxAbsM(A))), "C21.factor"))
MaskIs(o, m) == o.k = "arr" /\ o.shape = <<Len(m)>> /\ \A i \in 1..Len(m) : QEq(o.v[i], IF m[i] THEN Q1 ELSE Q0)
IndexIs(o, m, x) == LET w == Where(m, x) IN
  o.k = "arr" /\ o.shape = <<Len(w)>> /\ \A i \in 1..Len(w) : QEq(o.v[i], QI(w[i] - 1))
BlocksFails(ev) ==
  LET M == ev.m o == ev.obs
      T == Transp(M)
      rs == TLCEval(IF ev.rtold = "mask" THEN [i \in 1..Len(M) |-> ev.rs[i] = 1]
                    ELSE IF ev.rtold = "empty" THEN [i \in 1..Len(M) |-> TRUE] ELSE BySize(M, M, ev.thr))
      cs == TLCEval(IF ev.ctold = "mask" THEN [i \in 1..Len(T) |-> ev.cs[i] = 1]
                    ELSE IF ev.ctold = "empty" THEN [i \in 1..Len(T) |-> TRUE] ELSE BySize(M, T, ev.thr))
      x == MaxAbsM(M)
      tv == QMul(E11, QMul(x, MaxAbsV(ev.v)))
      tw == QMul(E11, QMul(x, MaxAbsM(ev.w)))
      t == QMul(E11, Sq(x))
      side(m, ind, y, num) == IndexIs(ind, m, y) /\ IsIntVal(num, Len(Where(m, y)))
  IN  IF (ev.rtold = "count" /\ ~NoTie(M, M, ev.thr)) \/ (ev.ctold = "count" /\ ~NoTie(M, T, ev.thr)) THEN {}
      ELSE IF o.k # "blocks" THEN {"C21.blocks"}
      ELSE Chk(/\ MaskIs(o.f.row_sparsity, rs) /\ MaskIs(o.f.row_density, Not(rs))
               /\ MaskIs(o.f.column_sparsity, cs) /\ MaskIs(o.f.column_density, Not(cs))
               /\ side(rs, o.f.sparse_row_indices, TRUE, o.f.num_sparse_rows)
               /\ side(rs, o.f.dense_row_indices, FALSE, o.f.num_dense_rows)
               /\ side(cs, o.f.sparse_column_indices, TRUE, o.f.num_sparse_columns)
               /\ side(cs, o.f.dense_column_indices, FALSE, o.f.num_dense_columns), "C21.split")
           \cup Chk(o.f.shape.k = "list" /\ Len(o.f.shape.v) = 2 /\ IsIntVal(o.f.shape.v[1], Len(M)) /\ IsIntVal(o.f.shape.v[2], Len(T)), "C21.shape")
           \cup Chk(VecNear(o.f.matvec, MatVec(M, ev.v), tv) /\ VecNear(o.f.lin_matvec, MatVec(M, ev.v), tv), "C21.matvec")
           \cup Chk(MatNear(o.f.matmat, MatMul(M, ev.w), tw) /\ MatNear(o.f.lin_matmat, MatMul(M, ev.w), tw), "C21.matmat")
           \cup Chk(MatNear(o.f.MMT, MatMul(M, T), t), "C21.MMT")
           \cup Chk(MatNear(o.f.MTM, MatMul(T, M), t), "C21.MTM")
CgFails(ev) ==
  LET A == ev.a o == ev.obs IN
  IF ~Symm(A) THEN {"HARNESS.symmetric"}
  ELSE IF ~PD(Shift(A, QNeg(QMul(QMk(1, 50), MaxAbsM(A))))) THEN {}
  ELSE IF o.k # "solved" THEN {"C21.cg"}
  ELSE Chk(IsVec(o.x, Len(A)) /\ NearV(MatVec(A, o.x.v), ev.b, QMul(E7, Max1(QAdd(MaxAbsV(ev.b), IF ev.given THEN MaxAbsV(MatVec(A, ev.x0)) ELSE Q0)))), "C21.cg")
\* rows: for each row its entries <<column, value>>
RECURSIVE RowDot(_, _, _, _)
RowDot(r, x, k, acc) == IF k > Len(r) THEN acc ELSE RowDot(r, x, k + 1, QAdd(acc, QMul(r[k][2], x[r[k][1]])))
Dominant(r, i) == QSgn(RowDot([k \in 1..Len(r) |-> <<1, IF r[k][1] = i THEN r[k][2] ELSE QNeg(QAbs(r[k][2]))>>], <<Q1>>, 1, Q0)) > 0
BcgFails(ev) ==
  LET R == ev.rows n == Len(R) o == ev.obs IN
  IF \E i \in 1..n : ~(Dominant(R[i], i) \/ (R[i] = <<>> /\ QSgn(ev.b[i]) = 0)) THEN {"HARNESS.dominant"}
  ELSE IF ~IsVec(o, n) THEN {"C21.block_cg"}
  ELSE LET r == TLCEval([i \in 1..n |-> QSub(RowDot(R[i], o.v, 1, Q0), ev.b[i])])
       IN  Chk(QLe(VSq(r), QMul(E8, VSq(ev.b))), "C21.block_cg")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "chol" -> CholFails(ev)
          [] ev.op = "blocks" -> BlocksFails(ev)
          [] ev.op = "cg" -> CgFails(ev)
          [] ev.op = "bcg" -> BcgFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C21.argument_changed")
=============================================================================
