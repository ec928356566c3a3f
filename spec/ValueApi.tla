------------------------------ MODULE ValueApi ------------------------------
(* Values with units.  The state is a family of named values, each a number *)
(* with a unit or none.  An operation makes a new value (kept under dst) or *)
(* gives a plain result, and leaves every named value as it was; only       *)
(* assigning a number or a unit changes a value.                            *)
EXTENDS UnitRules

NoU == "<none>"
InitState == <<>>                              \* a function of names
Put(st, n, v) == [k \in DOMAIN st \cup {n} |-> IF k = n THEN v ELSE st[k]]
UnitOK(u) == u = NoU \/ Known(u)

\* ---- operands: a named value, or a plain number ---------------------------
OpVal(st, x) == IF x.k = "reg" THEN st[x.r] ELSE [v |-> x.v, u |-> NoU]
\* the number of x in the units of a: "ok", "refused"
CmpCase(st, a, x) ==
  IF x.k # "reg" THEN "ok"
  ELSE LET b == st[x.r] IN
       IF a.u = b.u THEN "ok"
       ELSE IF a.u = NoU \/ b.u = NoU THEN "refused"
       ELSE IF Compatible(a.u, b.u) THEN "ok" ELSE "refused"
InUnits(st, a, x) ==
  IF x.k # "reg" THEN x.v
  ELSE LET b == st[x.r] IN IF a.u = b.u THEN b.v ELSE QMul(b.v, UFactor(b.u, a.u))
ExactCmp(st, a, x) == x.k # "reg" \/ st[x.r].u = a.u

\* ---- observed values: [k |-> "value", v (num), u (string)] -----------------
VNear(o, e, s) == Near(o, e, QMul(E12, s))
ValueIs(o, e, u, s) == o.k = "value" /\ o.u = u /\ o.v.k = "num" /\ VNear(o.v.v, e, s)
Span(a, b) == QMax(QAbs(a), QAbs(b))

Arith(o, op, a, b, u, exact) ==     \* a op b, in units u
  LET s == Span(a, b) IN
  CASE op \in {"add", "radd", "iadd"} -> ValueIs(o, QAdd(a, b), u, s)
    [] op \in {"sub", "isub"} -> ValueIs(o, QSub(a, b), u, s)
    [] op = "rsub" -> ValueIs(o, QSub(b, a), u, s)
    [] op \in {"mul", "rmul", "imul"} -> ValueIs(o, QMul(a, b), u, QAbs(QMul(a, b)))
    [] op \in {"div", "idiv"} -> ValueIs(o, QDiv(a, b), u, QAbs(QDiv(a, b)))
    [] op = "floordiv" ->
         LET k == QDiv(a, b)
             near == Near(k, QRound(k), QMul(E9, Max1(QAbs(k))))
         IN  o.k = "value" /\ o.u = u /\ o.v.k = "num"
             /\ \/ QEq(o.v.v, QFloor(k))
                \/ QLt(QI(1000000), QAbs(k)) /\ Near(o.v.v, k, QAdd(Q1, QMul(E12, QAbs(k))))
                \/ (~exact \/ ~QEq(k, QRound(k))) /\ near /\ (QEq(o.v.v, QRound(k)) \/ QEq(o.v.v, QSub(QRound(k), Q1)))

Ratio == {"div", "floordiv", "idiv"}
BinOps == {"add", "sub", "rsub", "radd", "iadd", "isub"} \cup Ratio
\* one operand x against the value a
BinOne(st, op, a, x, o) ==
  IF op \in {"mul", "rmul", "imul"}
  THEN IF x.k = "reg" THEN Chk(IsExc(o), "C11.product_refused")
       ELSE Chk(Arith(o, op, a.v, x.v, a.u, TRUE), "C11." \o op)
  ELSE IF CmpCase(st, a, x) = "refused" THEN Chk(IsExc(o), "C11.classes_refused")
  ELSE LET b == InUnits(st, a, x)
           u == IF op \in Ratio /\ x.k = "reg" THEN NoU ELSE a.u
       IN  IF op \in Ratio /\ QSgn(b) = 0 THEN {}
           ELSE Chk(Arith(o, op, a.v, b, u, ExactCmp(st, a, x)), "C11." \o op)
BinFails(st, ev) ==
  LET a == st[ev.a] IN
  IF ev.x.k = "seq"
  THEN LET xs == ev.x.v
           bad == \E i \in 1..Len(xs) : IF ev.bop \in {"mul", "rmul"} THEN xs[i].k = "reg" ELSE CmpCase(st, a, xs[i]) = "refused"
           \* a list minus a value: each item minus the value, which is in
           \* the units of the item when that is a value
           item(i) == IF ev.bop = "rsub" /\ xs[i].k = "reg"
                      THEN BinOne(st, "sub", st[xs[i].r], [k |-> "reg", r |-> ev.a], ev.obs.v[i])
                      ELSE BinOne(st, ev.bop, a, xs[i], ev.obs.v[i])
       IN  IF bad THEN Chk(IsExc(ev.obs), "C11.classes_refused")
           ELSE IF ev.obs.k # "list" \/ Len(ev.obs.v) # Len(xs) THEN {"C11.list"}
           ELSE UNION {item(i) : i \in 1..Len(xs)}
  ELSE BinOne(st, ev.bop, a, ev.x, ev.obs)
\* remainders, powers and numbers over a value
RefusedFails(st, ev) == Chk(IsExc(ev.obs), "C11.operation_refused")

Rel6(o) == /\ o.k = "rels"
           /\ \A f \in {"eq", "ne", "lt", "le", "gt", "ge"} : o[f].k = "bool"
CompareFails(st, ev) ==
  LET a == st[ev.a] o == ev.obs IN
  IF CmpCase(st, a, ev.x) = "refused"
  THEN Chk(\A f \in {"eq", "ne", "lt", "le", "gt", "ge"} : IsExc(o[f]), "C11.classes_refused")
  ELSE IF ~Rel6(o) THEN {"C11.compare"}
  ELSE LET b == InUnits(st, a, ev.x)
           decided == ExactCmp(st, a, ev.x) \/ QLt(QMul(E12, Span(a.v, b)), QAbs(QSub(a.v, b)))
           lt == QLt(a.v, b)
           eq == QEq(a.v, b)
           s == ev.swap                       \* x compared with the value
       IN  Chk(decided => /\ o.eq.v = eq /\ o.ne.v = ~eq
                          /\ (IF s THEN o.gt.v ELSE o.lt.v) = lt
                          /\ (IF s THEN o.lt.v ELSE o.gt.v) = (~lt /\ ~eq), "C11.compare")
           \cup Chk(/\ o.ne.v = ~o.eq.v
                    /\ o.le.v = (o.lt.v \/ o.eq.v) /\ o.ge.v = (o.gt.v \/ o.eq.v)
                    /\ Cardinality({f \in {"lt", "eq", "gt"} : o[f].v}) = 1, "C11.compare")

AsFails(st, ev) ==                             \* a in units ev.to
  LET a == st[ev.a]
      to == IF ev.how = "system" THEN (IF a.u = NoU \/ ev.to \notin Systems THEN "<bad>" ELSE Default(ev.to)[ClassOf(a.u)]) ELSE ev.to
  IN  IF a.u = to /\ Known(to) THEN Chk(ValueIs(ev.obs, a.v, to, QAbs(a.v)), "C11.as_unit")
      ELSE IF a.u = NoU /\ to = NoU THEN {}
      ELSE IF ~Known(to) \/ a.u = NoU THEN Chk(IsExc(ev.obs), "C11.as_refused")
      ELSE IF ~Compatible(a.u, to) THEN Chk(IsExc(ev.obs), "C11.as_refused")
      ELSE LET e == QMul(a.v, UFactor(a.u, to)) IN Chk(ValueIs(ev.obs, e, to, QAbs(e)), "C11.as_unit")

QTrunc(q) == IF QSgn(q) < 0 THEN QNeg(QFloor(QNeg(q))) ELSE QFloor(q)
RoundIs(o, v, inc, u) == o.k = "value" /\ o.u = u /\ o.v.k = "num" /\ RoundedTo(o.v.v, v, inc)
UnaryFails(st, ev) ==
  LET a == st[ev.a] o == ev.obs IN
  CASE ev.uop = "neg" -> Chk(ValueIs(o, QNeg(a.v), a.u, Q0), "C11.negation")
    [] ev.uop = "pos" -> Chk(ValueIs(o, a.v, a.u, Q0), "C11.plus")
    [] ev.uop = "abs" -> Chk(ValueIs(o, QAbs(a.v), a.u, Q0), "C11.abs")
    [] ev.uop = "float" -> Chk(o.k = "num" /\ QEq(o.v, a.v), "C11.float")
    [] ev.uop = "int" -> Chk(o.k = "num" /\ QEq(o.v, QTrunc(a.v)), "C11.int")
    [] ev.uop = "bool" -> Chk(IsBool(o, QSgn(a.v) # 0), "C11.bool")
    [] ev.uop = "item0" -> Chk(o.k = "num" /\ QEq(o.v, a.v), "C11.index")
    [] ev.uop = "item1" -> Chk(IF a.u = NoU THEN IsNone(o) ELSE IsStr(o, a.u), "C11.index")
    [] ev.uop = "item2" -> Chk(IsExc(o), "C11.index")
    [] ev.uop = "round" -> Chk(RoundIs(o, a.v, IF ev.hp THEN Pow10(-ev.n) ELSE Q1, a.u), "C11.round")
    [] ev.uop = "round_to" -> Chk(RoundIs(o, a.v, ev.inc, a.u), "C11.round_to")
    [] ev.uop = "prettified" ->
         IF a.u = NoU THEN {}
         ELSE Chk(PrettifyFails(o, a.v, a.u, FALSE, 0) = {}, "C11.prettified")

\* what the named values show after the event
ShowFails(st, shown) ==
  Chk(\A n \in DOMAIN st : /\ n \in DOMAIN shown /\ shown[n].k = "value"
                           /\ shown[n].u = st[n].u /\ shown[n].v.k = "num" /\ QEq(shown[n].v.v, st[n].v), "C11.state")

\* the value made by an event, to be kept: as observed, once judged
Made(st, ev) == "dst" \in DOMAIN ev /\ ev.obs.k = "value" /\ ev.obs.v.k = "num" /\ QFin(ev.obs.v.v) /\ UnitOK(ev.obs.u)
Step(st, ev) ==
  IF ev.op \in {"new", "bin", "as", "unary"} THEN (IF Made(st, ev) THEN Put(st, ev.dst, [v |-> ev.obs.v.v, u |-> ev.obs.u]) ELSE st)
  ELSE IF ev.op = "set_value" /\ ev.valid THEN Put(st, ev.a, [st[ev.a] EXCEPT !.v = ev.v])
  ELSE IF ev.op = "set_units" THEN Put(st, ev.a, [st[ev.a] EXCEPT !.u = ev.u])
  ELSE st
NewFails(ev) ==
  IF ev.valid /\ UnitOK(ev.u) THEN Chk(ValueIs(ev.obs, ev.v, ev.u, Q0), "C11.new")
  ELSE Chk(IsExc(ev.obs), "C11.new_refused")
EventFails(st, ev) ==
  CASE ev.op = "new" -> NewFails(ev)
    [] ev.op = "set_value" -> IF ev.valid THEN Chk(IsNone(ev.obs), "C11.assign") ELSE Chk(IsExc(ev.obs), "C11.assign_refused")
    [] ev.op = "set_units" -> Chk(IsNone(ev.obs), "C11.assign")
    [] ev.op = "bin" -> BinFails(st, ev)
    [] ev.op = "refused" -> RefusedFails(st, ev)
    [] ev.op = "compare" -> CompareFails(st, ev)
    [] ev.op = "as" -> AsFails(st, ev)
    [] ev.op = "unary" -> UnaryFails(st, ev)
Fails(st, ev) == IF ev.op = "crash" THEN {"ANY.crash"}
                 ELSE EventFails(st, ev) \cup ShowFails(Step(st, ev), ev.regs)
=============================================================================
