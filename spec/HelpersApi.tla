------------------------------ MODULE HelpersApi ------------------------------
(* Rounding, scaling, guarded division, reshaping without copying, matrix      *)
(* shortcuts and translation.                                                  *)
EXTENDS RoundTo
InitState == <<>>
Step(st, ev) == st

\* ---- rounding --------------------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN Q1 ELSE IF k > 0 THEN QMul(QI(2), Pow2(k - 1)) ELSE QMul(Half, Pow2(k + 1))
RECURSIVE Magnitude(_, _)                  \* the largest power of two that is at most a > 0; start at p
Magnitude(a, p) == IF QLt(a, p) THEN Magnitude(a, QMul(Half, p)) ELSE IF QLe(QMul(QI(2), p), a) THEN Magnitude(a, QMul(QI(2), p)) ELSE p
HalfUlp(a) == IF QSgn(a) = 0 THEN Q0 ELSE QMul(Magnitude(QAbs(a), Q1), Pow2(-53))
Eps == Pow2(-50)
\* o is the floating-point number closest to the whole multiple of inc nearest to it
ClosestMultiple(o, inc) == Near(o, QMul(QRound(QDiv(o, inc)), inc), HalfUlp(o))
\* a floating-point increment stands for 1/k when its reciprocal rounds to the whole number k
IsUnitFraction(inc) == LET r == QDiv(Q1, inc) k == QRound(r) IN QLe(Q1, k) /\ Near(r, k, QMul(k, Pow2(-54)))
UnitFraction(inc) == QDiv(Q1, QRound(QDiv(Q1, inc)))
MultipleOf(o, inc) == IF IsUnitFraction(inc) THEN ClosestMultiple(o, UnitFraction(inc))
                      ELSE Near(o, QMul(QRound(QDiv(o, inc)), inc), QMul(Eps, QAbs(o)))
\* the multiple is not distinguishable from its neighbours far out
FarOut(v, inc) == QLt(QMul(Pow2(48), inc), QAbs(v))
RoundFails(ev) == IF FarOut(ev.v, ev.inc) THEN {} ELSE
  Chk(ev.obs.k = "num" /\ RoundedTo(ev.obs.v, ev.v, ev.inc) /\ MultipleOf(ev.obs.v, ev.inc), "C23.round_to")
ItemOk(o, it, p) == IF it.none THEN IsNone(o)
  ELSE o.k = "num" /\ (FarOut(it.v, Pow10(-p)) \/ (RoundedTo(o.v, it.v, Pow10(-p)) /\ ClosestMultiple(o.v, Pow10(-p))))
ListFails(ev) == LET o == ev.obs IN
  Chk(o.k = "list" /\ Len(o.v) = Len(ev.items) /\ \A i \in 1..Len(ev.items) : ItemOk(o.v[i], ev.items[i], ev.prec), "C23.rounded_list")

\* ---- scaling and dividing ----------------------------------------------------------
RECURSIVE MinOf(_)
MinOf(s) == IF Len(s) = 1 THEN s[1] ELSE QMin(s[1], MinOf(Tail(s)))
RECURSIVE MaxOf(_)
MaxOf(s) == IF Len(s) = 1 THEN s[1] ELSE QMax(s[1], MaxOf(Tail(s)))
RECURSIVE Join(_)
Join(A) == IF A = <<>> THEN <<>> ELSE Head(A) \o Join(Tail(A))
Scaled(A, lo, hi) == LET f == Join(A) a == MinOf(f) b == MaxOf(f) IN
  TLCEval([i \in 1..Len(A) |-> [j \in 1..Len(A[1]) |-> QAdd(lo, QDiv(QMul(QSub(A[i][j], a), QSub(hi, lo)), QSub(b, a)))]])
ScaleFails(ev) == LET f == Join(ev.a) IN
  IF QEq(MinOf(f), MaxOf(f)) THEN {}
  ELSE Chk(MatNear(ev.obs, Scaled(ev.a, ev.lo, ev.hi), QMul(ev.eps, QMax(QAbs(ev.lo), QAbs(ev.hi)))), "C23.scale")
\* b is spread over the rows and columns of a
Spread(b, n, m) == TLCEval([i \in 1..n |-> [j \in 1..m |-> b[IF Len(b) = 1 THEN 1 ELSE i][IF Len(b[1]) = 1 THEN 1 ELSE j]]])
Biggest == Pow2(1023)
RatioOk(o, a, b, dflt) ==
  IF ~QFin(a) /\ ~QFin(b) THEN QEq(o, dflt)                       \* nan, or inf / inf
  ELSE IF ~QFin(a) THEN QEq(o, dflt)
  ELSE IF IsNaN(b) THEN QEq(o, dflt)
  ELSE IF ~QFin(b) THEN QEq(o, Q0)                                \* finite / inf
  ELSE IF QSgn(b) = 0 THEN QEq(o, dflt)
  ELSE LET r == QDiv(a, b) IN
       IF QLe(QMul(QI(2), Biggest), QAbs(r)) THEN QEq(o, dflt)
       ELSE IF QLe(Biggest, QAbs(r)) THEN TRUE
       ELSE Near(o, r, QMul(Eps, QAbs(r))) \/ (QLt(QAbs(r), Pow2(-1000)) /\ QLt(QAbs(o), Pow2(-999)))
DivideFails(ev) ==
  LET n == Len(ev.a) m == Len(ev.a[1]) b == Spread(ev.b, n, m) o == ev.obs IN
  Chk(IsMat(o, n, m) /\ \A i \in 1..n : \A j \in 1..m : RatioOk(o.v[i][j], ev.a[i][j], b[i][j], ev.dflt), "C23.divide")

\* ---- views ------------------------------------------------------------------------
\* A view of a buffer: element idx of an array with these strides is at off + sum of idx * stride
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* the subscripts of the k-th element, k from 0, in C order
RECURSIVE Subs(_, _)
Subs(s, k) == IF s = <<>> THEN <<>> ELSE LET p == Prod(Tail(s)) IN <<k \div p>> \o Subs(Tail(s), k % p)
RECURSIVE IDot(_, _)
IDot(s, t) == IF s = <<>> THEN 0 ELSE Head(s) * Head(t) + IDot(Tail(s), Tail(t))
Places(shape, strides) == TLCEval([k \in 1..Prod(shape) |-> IDot(Subs(shape, k - 1), strides)])
\* new strides, if any, are where each dimension's first step leads
StepTo(shape, d, at) == IF shape[d] = 1 THEN 0 ELSE at[Prod([i \in 1..(Len(shape) - d) |-> shape[d + i]]) + 1]
CanView(shape, strides, new) ==
  LET at == Places(shape, strides)
      t == TLCEval([d \in 1..Len(new) |-> StepTo(new, d, at)])
  IN  Places(new, t) = at
\* as numpy decides it: dimensions longer than one may be split, and joined when the outer
\* stride is the inner stride times the inner length
RECURSIVE Merged(_, _)
Merged(shape, strides) ==
  IF Len(shape) <= 1 THEN <<shape, strides>>
  ELSE IF Head(shape) = 1 THEN Merged(Tail(shape), Tail(strides))
  ELSE LET r == Merged(Tail(shape), Tail(strides)) IN
       IF Prod(r[1]) = 1 THEN <<<<shape[1]>>, <<strides[1]>>>>
       ELSE IF strides[1] = r[1][1] * r[2][1]
       THEN <<<<shape[1] * r[1][1]>> \o Tail(r[1]), r[2]>>
       ELSE <<<<shape[1]>> \o r[1], <<strides[1]>> \o r[2]>>
\* the products of leading lengths
Cuts(shape) == {Prod([i \in 1..k |-> shape[i]]) : k \in 0..Len(shape)}
CanSplit(shape, strides, new) == Cuts(Merged(shape, strides)[1]) \subseteq Cuts(new)
Missing(new) == {d \in 1..Len(new) : new[d] = -1}
Known(new) == Prod([d \in 1..Len(new) |-> IF new[d] = -1 THEN 1 ELSE new[d]])
Fits(n, new) == IF Missing(new) = {} THEN Known(new) = n
                ELSE Cardinality(Missing(new)) = 1 /\ Known(new) > 0 /\ n % Known(new) = 0
Filled(n, new) == [d \in 1..Len(new) |-> IF new[d] = -1 THEN n \div Known(new) ELSE new[d]]
\* the buffer holds 0, 1, 2, ...; the element at each place is its number
ReshapeFails(ev) ==
  LET n == Prod(ev.shape) o == ev.obs IN
  IF ~Fits(n, ev.new) THEN Chk(IsExc(o), "C23.reshape_refuses") \cup Chk(~ev.warned, "C23.reshape_warns")
  ELSE LET new == TLCEval(Filled(n, ev.new))
           can == CanView(ev.shape, ev.strides, new)
           want == [k \in 1..n |-> ev.off + Places(ev.shape, ev.strides)[k]]
           same == o.k = "shaped" /\ o.shape = new /\ IntVec(o.flat, want)
       IN  IF can THEN Chk(same /\ o.shares, "C23.reshape_view") \cup Chk(~ev.warned, "C23.reshape_warns")
           ELSE IF ev.justwarn THEN Chk(same, "C23.reshape_copy") \cup Chk(ev.warned, "C23.reshape_warns")
           ELSE Chk(IsExc(o), "C23.reshape_refuses")

\* ---- matrix shortcuts ----------------------------------------------------------------
Apply(f, a, b) == IF f = "add" THEN QAdd(a, b) ELSE IF f = "sub" THEN QSub(a, b) ELSE IF f = "mul" THEN QMul(a, b) ELSE QMax(a, b)
Fitting(x, y) == x = y \/ x = 1 \/ y = 1
Wider(x, y) == IF x > y THEN x ELSE y
BsxFails(ev) ==
  LET a == ev.a b == ev.b o == ev.obs
      n == Wider(Len(a), Len(b)) m == Wider(Len(a[1]), Len(b[1]))
      plain == Len(a) = Len(b) \/ Len(a[1]) = Len(b[1])
      lines == (Len(a) = 1 \/ Len(a[1]) = 1) /\ (Len(b) = 1 \/ Len(b[1]) = 1)
  IN  IF ~(Fitting(Len(a), Len(b)) /\ Fitting(Len(a[1]), Len(b[1]))) THEN Chk(IsExc(o), "C23.bsxfun")
      ELSE IF IsExc(o) THEN Chk(~plain /\ ~lines, "C23.bsxfun")
      ELSE LET A == Spread(a, n, m) B == Spread(b, n, m) IN
           Chk(MatNear(o, [i \in 1..n |-> [j \in 1..m |-> Apply(ev.f, A[i][j], B[i][j])]], IF ev.f = "mul" THEN QMul(E12, QMul(MaxAbsM(a), MaxAbsM(b))) ELSE QMul(E12, QMax(MaxAbsM(a), MaxAbsM(b)))), "C23.bsxfun")
Entry(ev, i, j) == QSum([k \in 1..Len(ev.data) |-> IF ev.i[k] = i - 1 /\ ev.j[k] = j - 1 THEN ev.data[k] ELSE Q0])
SparseFails(ev) ==
  LET n == IF ev.sized THEN ev.m ELSE MaxS(Range(ev.i)) + 1
      m == IF ev.sized THEN ev.n ELSE MaxS(Range(ev.j)) + 1
  IN  IF ev.sized /\ ((\E k \in 1..Len(ev.i) : ev.i[k] >= n) \/ (\E k \in 1..Len(ev.j) : ev.j[k] >= m)) THEN Chk(IsExc(ev.obs), "C23.sparse")
      ELSE Chk(ev.obs.k = "sparse" /\ MatNear(ev.obs.v, [i \in 1..n |-> [j \in 1..m |-> Entry(ev, i, j)]], QMul(E12, MaxAbsV(ev.data))), "C23.sparse")
TranslateFails(ev) ==
  LET P == ev.p o == ev.obs
      f == TLCEval(IF ev.given THEN ev.factor ELSE VNeg(VMean(P)))
      t == QMul(E12, QMax(MaxAbsM(P), MaxAbsV(f)))
  IN  IF o.k # "moved" THEN {"C23.translate"}
      ELSE Chk(VecNear(o.factor, f, IF ev.given THEN Q0 ELSE t), "C23.translate_factor")
           \cup Chk(MatNear(o.image, [i \in 1..Len(P) |-> VAdd(P[i], f)], t), "C23.translate")

Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "round" -> RoundFails(ev)
          [] ev.op = "rlist" -> ListFails(ev)
          [] ev.op = "scale" -> ScaleFails(ev)
          [] ev.op = "divide" -> DivideFails(ev)
          [] ev.op = "reshape" -> ReshapeFails(ev)
          [] ev.op = "readonly" ->
               Chk(ev.obs.k = "list" /\ \A i \in 1..Len(ev.items) :
                     IF ev.items[i] = "other" THEN ev.obs.v[i].v = "kept" ELSE ev.obs.v[i].v = "readonly", "C23.readonly")
          [] ev.op = "row" -> Chk(MatNear(ev.obs, <<Join(ev.a)>>, Q0), "C23.row")
          [] ev.op = "col" -> Chk(MatNear(ev.obs, [k \in 1..Len(Join(ev.a)) |-> <<Join(ev.a)[k]>>], Q0), "C23.col")
          [] ev.op = "bsx" -> BsxFails(ev)
          [] ev.op = "sparse" -> SparseFails(ev)
          [] ev.op = "translate" -> TranslateFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C23.argument_changed")
=============================================================================
