----------------------------- MODULE Transforms -----------------------------
(* Composite transforms and coordinate frames.                              *)
(*                                                                          *)
(* A composite is the sequence of its appended elements [f, r]: the 4x4     *)
(* forward and reverse matrices.  A coordinate manager is a composite with  *)
(* tags (name -> length of the stack when the name was last given) and a    *)
(* slot holding the points last set and the tag they were set under.        *)
EXTENDS Units, Obs

\* ---- elements -------------------------------------------------------------
To44(m) == [i \in 1..4 |-> [j \in 1..4 |-> IF i < 4 /\ j < 4 THEN m[i][j]
                                            ELSE IF i = j THEN Q1 ELSE Q0]]
Trans44(v) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN Q1
                                  ELSE IF j = 4 /\ i < 4 THEN v[i] ELSE Q0]]
Scale44(k) == To44(MScale(k, Ident(3)))
\* t: how closely the library realises f.  A rotation given as a matrix goes
\* through its rotation vector, which near a half turn keeps half the digits.
Elem(f, r) == [f |-> f, r |-> r, t |-> E9]
Loose(e) == [e EXCEPT !.t = E6]

\* what the appending call described by ev adds
ElemOf(ev) ==
  CASE ev.kind = "translate" -> Elem(Trans44(ev.v), Trans44(VNeg(ev.v)))
    [] ev.kind = "scale"     -> Elem(Scale44(ev.x), Scale44(QDiv(Q1, ev.x)))
    [] ev.kind = "units"     -> LET k == UFactor(ev.from, ev.to)
                                IN  Elem(Scale44(k), Scale44(QDiv(Q1, k)))
    [] ev.kind = "append4"   -> Elem(ev.f, IF Has(ev, "r") THEN ev.r ELSE Inv(ev.f))
    [] ev.kind = "append3"   -> Elem(To44(ev.f), IF Has(ev, "r") THEN To44(ev.r) ELSE Inv(To44(ev.f)))
    [] ev.kind = "reorient"  -> Elem(To44(ev.w), To44(Transp(ev.w)))
    [] ev.kind = "rotate"    -> LET R == IF Has(ev, "w") THEN ev.w ELSE RotOf(ev.v)
                                    e == Elem(To44(R), To44(Transp(R)))
                                IN  IF Has(ev, "w") THEN Loose(e) ELSE e

\* a call the library must refuse: [ok, t] with t the classes it may raise
Refusal(ev) ==
  CASE ev.kind = "scale" /\ QSgn(ev.x) <= 0 -> {"ValueError"}
    [] ev.kind = "units" /\ (ev.from \notin UnitNames \/ ev.to \notin UnitNames) -> {"KeyError", "ValueError"}
    [] ev.kind = "units" /\ (~Compatible(ev.from, ev.to) \/ ClassOf(ev.from) # "length") -> {"ValueError"}
    [] ev.kind = "append3" /\ ~(Len(ev.f) = 3 /\ Len(ev.f[1]) = 3) -> {"ValueError"}
    \* without an inverse of its own, and with none to be found
    [] ev.kind \in {"append3", "append4"} /\ ~Has(ev, "r") /\ \E i \in 1..Len(ev.f) : \A j \in 1..Len(ev.f) : QSgn(ev.f[i][j]) = 0
         -> {"ValueError", "LinAlgError"}
    [] OTHER -> {}

\* the witness of a reorient call is the rotation that its arguments define
WitnessOK(ev) ==
  CASE ev.kind = "reorient" ->
         LET y == MatVec(ev.w, ev.up)
             z == MatVec(ev.w, ev.look)
         IN  IsRot(ev.w) /\ QSgn(y[1]) = 0 /\ QSgn(y[3]) = 0 /\ QSgn(y[2]) > 0
             /\ QSgn(z[1]) = 0 /\ QSgn(z[3]) > 0
    [] ev.kind = "rotate" /\ Has(ev, "w") -> IsRot(ev.w)
    [] OTHER -> TRUE

\* ---- composition ----------------------------------------------------------
\* elements start .. stop-1 (0-based, as in the API), clipped to the stack
Slice(stack, lo, hi) == LET h == IF hi > Len(stack) THEN Len(stack) ELSE hi
                        IN  SubSeq(stack, lo + 1, h)
RECURSIVE FwdProd(_)     \* the first element is applied first
FwdProd(s) == IF s = <<>> THEN Ident(4)
              ELSE MatMul(s[Len(s)].f, FwdProd(SubSeq(s, 1, Len(s) - 1)))
RECURSIVE RevProd(_)
RevProd(s) == IF s = <<>> THEN Ident(4)
              ELSE MatMul(s[1].r, RevProd(Tail(s)))
MatrixFor(s, rev) == IF rev THEN RevProd(s) ELSE FwdProd(s)
AbsStack(s) == [i \in 1..Len(s) |-> Elem(MAbs(s[i].f), MAbs(s[i].r))]
\* bounds the rounding errors of the floating point evaluation
Bound(s, rev) == Max1(MaxAbsM(MatrixFor(AbsStack(s), rev)))
RECURSIVE Tol(_)
Tol(s) == IF s = <<>> THEN E9 ELSE QMax(s[Len(s)].t, Tol(SubSeq(s, 1, Len(s) - 1)))
Homog(p) == Append(p, Q1)
Apply(M, pts) == [i \in 1..Len(pts) |-> SubSeq(MatVec(M, Homog(pts[i])), 1, 3)]
ApplyBound(s, rev, pts) == QMul(QI(4), QMul(Bound(s, rev), Max1(MaxAbsM(pts))))

\* Sharper, for matrices that leave the last coordinate alone: the linear part
\* and the translation are each held to what they themselves are made of, so
\* that a tiny translation next to a large rotation does not go unnoticed.
IsAffine(m) == m[4] = <<Q0, Q0, Q0, Q1>>
AllAffine(s) == \A i \in 1..Len(s) : IsAffine(s[i].f) /\ IsAffine(s[i].r)
Lin(m) == TLCEval([i \in 1..3 |-> SubSeq(m[i], 1, 3)])
Col4(m) == TLCEval([i \in 1..3 |-> m[i][4]])
\* an inverse that was worked out carries the errors of its working
WithCol(m, v) == TLCEval([i \in 1..4 |-> [j \in 1..4 |-> IF j = 4 /\ i < 4 THEN QMax(m[i][4], v[i]) ELSE m[i][j]]])
WideStack(s) == TLCEval([i \in 1..Len(s) |->
                   LET f == TLCEval(MAbs(s[i].f)) r == TLCEval(MAbs(s[i].r))
                   IN  Elem(f, WithCol(r, MatVec(Lin(r), Col4(f))))])
PartBounds(s, rev) ==
  LET m == MatrixFor(WideStack(s), rev)
      lin == MaxAbsM(Lin(m))
  IN  [lin |-> lin, tr |-> QMax(QMul(E6, lin), MaxAbsM(<<Col4(m)>>))]
MatrixOK(o, s, rev) ==
  LET m == MatrixFor(s, rev)
  IN  /\ MatNear(o, m, QMul(Tol(s), Bound(s, rev)))
      /\ AllAffine(s) =>
           LET b == PartBounds(s, rev)
           IN  /\ NearM(Lin(o.v), Lin(m), QMul(Tol(s), b.lin))
               /\ NearV(Col4(o.v), Col4(m), QMul(Tol(s), b.tr))

\* ---- tags and the slot ----------------------------------------------------
NoTags == [x \in {} |-> 0]
Tagged(tags, n, i) == (n :> i) @@ tags
Known(tags, n) == n \in DOMAIN tags
NoSlot == [set |-> FALSE]
\* the elements between two tagged states and the direction to take them in
Between(stack, tags, a, b) ==
  LET i == tags[a] j == tags[b]
  IN  IF i <= j THEN [s |-> Slice(stack, i, j), rev |-> FALSE]
                ELSE [s |-> Slice(stack, j, i), rev |-> TRUE]
Frame(stack, tags, a, b) == LET x == Between(stack, tags, a, b) IN MatrixFor(x.s, x.rev)

InitState == [comp |-> <<>>, cstack |-> <<>>, tags |-> NoTags, slot |-> NoSlot]

Step(st, ev) ==
  CASE ev.op = "reset" -> InitState
    [] ev.op = "append" /\ Refusal(ev) # {} -> st
    [] ev.op = "append" /\ ev.on = "comp" -> [st EXCEPT !.comp = Append(@, ElemOf(ev))]
    [] ev.op = "append" /\ ev.on = "cm" -> [st EXCEPT !.cstack = Append(@, ElemOf(ev))]
    [] ev.op = "tag" -> [st EXCEPT !.tags = Tagged(@, ev.name, Len(st.cstack))]
    [] ev.op = "set" /\ Known(st.tags, ev.name) ->
         [st EXCEPT !.slot = [set |-> TRUE, name |-> ev.name, what |-> ev.what, pts |-> ev.pts]]
    [] OTHER -> st

\* ---- verdicts ---------------------------------------------------------------
ApplyOK(o, s, rev, pts) ==
  LET p == Apply(MatrixFor(s, rev), pts)
  IN  /\ MatNear(o, p, QMul(Tol(s), ApplyBound(s, rev, pts)))
      /\ AllAffine(s) =>
           LET b == PartBounds(s, rev)
           IN  NearM(o.v, p, QMul(QMul(QI(4), Tol(s)), QAdd(QMul(b.lin, MaxAbsM(pts)), b.tr)))
PointsOK(o, s, rev, pts) ==
  IF Len(pts) = 0 THEN IsShape(o, <<0, 3>>) ELSE ApplyOK(o, s, rev, pts)

\* moving what (points or an object with points) from tag a to tag b
MoveFails(st, o, ev, what, pts, a, b, pid) ==
  IF what = "none" THEN Chk(o.k = "mesh" /\ o.same /\ IsNone(o.v), pid \o ".no_points")
  ELSE IF ~Known(st.tags, a) \/ ~Known(st.tags, b) THEN Chk(Raised(o, {"KeyError"}), pid \o ".unknown_tag")
  ELSE LET x == Between(st.cstack, st.tags, a, b)
       IN IF what = "arr"
          THEN Chk(o.k = "pts" /\ PointsOK(o.v, x.s, x.rev, pts), pid \o ".frame")
          ELSE IF o.k # "mesh" THEN {pid \o ".mesh_result"}
          ELSE Chk(PointsOK(o.v, x.s, x.rev, pts), pid \o ".frame")
               \cup Chk(~o.same /\ o.kept /\ o.copied, pid \o ".mesh_result")
               \cup Chk(o.orig, pid \o ".original_changed")

Fails(st, ev) ==
  CASE ev.op = "reset" -> {}
    [] ev.op = "append" ->
         LET no == Refusal(ev)
             pid == IF ev.on = "cm" THEN "C03" ELSE "C01"
         IN  IF ~WitnessOK(ev) THEN {"HARNESS.witness"}
             ELSE Chk(~ev.mut, pid \o ".argument_changed")
                  \cup (IF no # {} THEN Chk(Raised(ev.obs, no), pid \o ".refused")
                        ELSE IF ev.on = "cm" \/ ev.kind = "units" THEN Chk(~IsExc(ev.obs), pid \o ".accepted")
                        ELSE Chk(IsIntVal(ev.obs, Len(st.comp)), "C01.index_returned"))
    [] ev.op = "call" ->
         LET s == IF Has(ev, "range") THEN Slice(st.comp, ev.range[1], ev.range[2]) ELSE st.comp
         IN  Chk(PointsOK(ev.obs, s, ev.rev, ev.pts), IF ev.rev THEN "C02.reverse_points" ELSE "C01.forward_points")
             \cup Chk(~ev.mut, "C01.argument_changed")
    [] ev.op = "matrix" ->
         LET s == IF Has(ev, "range") THEN Slice(st.comp, ev.range[1], ev.range[2]) ELSE st.comp
         IN  Chk(MatrixOK(ev.obs, s, ev.rev),
                 IF ev.rev THEN "C02.reverse_matrix" ELSE "C01.forward_matrix")
    [] ev.op = "round_trip" ->   \* forward then reverse over the same range
         LET s == Slice(st.comp, ev.range[1], ev.range[2])
         IN  Chk(MatNear(ev.obs, ev.pts, QMul(Tol(s), QMul(ApplyBound(s, FALSE, ev.pts), Bound(s, TRUE)))),
                 "C02.round_trip")
    [] ev.op = "tag" -> Chk(~IsExc(ev.obs), "C03.tag")
    [] ev.op = "set" ->
         IF Known(st.tags, ev.name) THEN Chk(~IsExc(ev.obs), "C03.set")
         ELSE Chk(Raised(ev.obs, {"AttributeError"}), "C03.set_unknown_tag")
    [] ev.op = "get" ->
         IF ~st.slot.set THEN Chk(Raised(ev.obs, {"ValueError"}), "C03.read_before_set")
         ELSE MoveFails(st, ev.obs, ev, st.slot.what, st.slot.pts, st.slot.name, ev.name, "C03")
    [] ev.op = "move" -> MoveFails(st, ev.obs, ev, ev.what, ev.pts, ev.from, ev.to, "C03")
                         \cup Chk(~ev.mut, "C03.argument_changed")
    [] ev.op = "crash" -> {"ANY.crash"}
=============================================================================
