------------------------------- MODULE LinAlgApi -------------------------------
(* Gram-Schmidt on the rows of a matrix, and change of basis.                 *)
EXTENDS Obs
InitState == <<>>
Step(st, ev) == st

\* ---- Gram-Schmidt, exactly -----------------------------------------------------
Along(v, o) == VScale(QDiv(VDot(v, o), VSq(o)), o)
RECURSIVE SubAll(_, _, _)
SubAll(w, v, os) == IF os = <<>> THEN w ELSE SubAll(VSub(w, Along(v, Head(os))), v, Tail(os))
RECURSIVE GSFrom(_, _)
GSFrom(os, vs) == IF vs = <<>> THEN os
                  ELSE GSFrom(Append(os, TLCEval(SubAll(Head(vs), Head(vs), os))), Tail(vs))
GramSchmidt(vs) == GSFrom(<<>>, vs)
\* rows all stand well off the span of those before them
Apart(vs, os) == \A i \in 1..Len(vs) : QLt(QMul(QMk(1, 1000), VSq(vs[i])), VSq(os[i]))
Independent(vs) == \A i \in 1..Len(vs) : QSgn(VSq(GramSchmidt(vs)[i])) > 0

\* ---- change of basis ---------------------------------------------------------
Cols(F) == Transp(F)
Change(F, G) == MatMul(Inv(Cols(F)), Cols(G))
\* determinant relative to the lengths of the vectors, squared
RECURSIVE ProdSq(_)
ProdSq(F) == IF F = <<>> THEN Q1 ELSE QMul(VSq(Head(F)), ProdSq(Tail(F)))
Dependent(F) == QSgn(Det(F)) = 0
ClearlyIndependent(F) == QLt(QMul(E8, ProdSq(F)), Sq(Det(F)))

\* ---- verdicts ------------------------------------------------------------------
OrthoFails(ev) ==
  LET vs == ev.v
      os == GramSchmidt(vs)
      o == ev.obs
      n == Len(vs)
      w == Len(vs[1])
      tol(i) == QMul(E8, MaxAbsV(vs[i]))
      unit(i) == ev.normal /\ (ev.all \/ \E k \in 1..Len(ev.indices) : ev.indices[k] = i - 1)
      row(i) == IF unit(i)
                THEN \* parallel to os[i], the same way, of unit length
                     /\ Near(VSq(o.v[i]), Q1, E10)
                     /\ QLt(Q0, VDot(o.v[i], os[i]))
                     /\ Near(Sq(VDot(o.v[i], os[i])), VSq(os[i]), QMul(E8, VSq(os[i])))
                ELSE NearV(o.v[i], os[i], tol(i))
  IN  IF ~Apart(vs, os) THEN {}
      ELSE IF ~IsMat(o, n, w) THEN {"C17.shape"}
      ELSE Chk(\A i \in 1..n : row(i), IF ev.normal THEN "C17.orthonormal" ELSE "C17.gram_schmidt")
           \cup Chk(\A i, j \in 1..n : i < j => QLe(Sq(VDot(o.v[i], o.v[j])), QMul(E12, QMul(VSq(o.v[i]), VSq(o.v[j])))), "C17.orthogonal")
Refusals == {"ValueError", "DimensionalityError", "LinearDependenceError", "LinAlgError"}
Square(F) == \A i \in 1..Len(F) : Len(F[i]) = Len(F)
IsoFails(ev) ==
  LET F == ev.f G == ev.g o == ev.obs IN
  IF Len(F) # Len(G) \/ Len(F[1]) # Len(G[1]) THEN Chk(Raised(o, Refusals), "C17.size_refused")
  ELSE IF ~Square(F) THEN {}
  ELSE IF Dependent(F) \/ Dependent(G) THEN Chk(Raised(o, Refusals), "C17.dependent_refused")
  ELSE IF ~ClearlyIndependent(F) \/ ~ClearlyIndependent(G) THEN {}
  ELSE LET X == Change(F, G)
       IN  Chk(MatNear(o, X, QMul(E8, MaxAbsM(X))), "C17.change_of_basis")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "ortho" -> OrthoFails(ev)
          [] ev.op = "iso" -> IsoFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C17.argument_changed")
=============================================================================
