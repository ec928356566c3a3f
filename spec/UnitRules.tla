------------------------------ MODULE UnitRules ------------------------------
(* The functions of blmath.units: what each call gives, for every unit,     *)
(* unit system and set of exceptions.  There is no state: no call may       *)
(* change what a later one gives.                                           *)
EXTENDS Units, RoundTo

NoUnit == {"<none>", ""}                   \* how an absent unit is written
Known(u) == u \in UnitNames
Systems == {"metric", "united_states"}
Default(sys) == [length |-> IF sys = "metric" THEN "cm" ELSE "in",
                 weight |-> IF sys = "metric" THEN "kg" ELSE "lb",
                 angle |-> "deg", time |-> "yr", time_rate |-> "hours_per_week"]
\* a set of defaults with exceptions, which are pairs <<class, unit>>
Override(d, exc) == [c \in DOMAIN d \cup {exc[i][1] : i \in 1..Len(exc)} |->
                       IF \E i \in 1..Len(exc) : exc[i][1] = c
                       THEN exc[CHOOSE i \in 1..Len(exc) : exc[i][1] = c][2] ELSE d[c]]
Increment(u) == CASE u \in {"cm", "kg"} -> Half
                  [] u = "in" -> QMk(1, 4)
                  [] u \in {"lb", "yr"} -> Q1
                  [] OTHER -> QMk(1, 10)

\* "ok", "refused", "pass" (no units) or "open" (no verdict)
ConvCase(f, t, uc) ==
  IF f \in NoUnit /\ t \in NoUnit THEN (IF uc \in NoUnit THEN "pass" ELSE "open")
  ELSE IF f = t /\ ~Known(f) THEN "open"
  ELSE IF ~Known(f) \/ ~Known(t) THEN "refused"
  ELSE IF ~Compatible(f, t) THEN "refused"
  ELSE IF uc \notin NoUnit /\ uc # ClassOf(f) THEN "refused" ELSE "ok"
UNear(o, e) == Near(o, e, QMul(E12, QAbs(e)))     \* relative
NumIs(o, e) == o.k = "num" /\ UNear(o.v, e)
Falsy(o) == IsNone(o) \/ IsStr(o, "")
PairOf(o) == o.k = "list" /\ Len(o.v) = 2
UnitIs(o, u) == IF u \in NoUnit THEN Falsy(o) ELSE IsStr(o, u)

\* values are observations: num, none, or an array of numbers
Times(o, val, k) == IF val.k = "num" THEN NumIs(o, QMul(k, val.v))
                    ELSE IF val.k = "none" THEN IsNone(o)
                    ELSE IsVec(o, Len(val.v)) /\ \A i \in 1..Len(val.v) : UNear(o.v[i], QMul(k, val.v[i]))

FactorFails(ev) ==
  LET c == ConvCase(ev.from, ev.to, ev.uc) IN
  CASE c = "ok" -> Chk(NumIs(ev.obs, UFactor(ev.from, ev.to)), "C10.factor")
    [] c = "pass" -> Chk(NumIs(ev.obs, Q1), "C10.no_units")
    [] c = "refused" -> Chk(IsExc(ev.obs), "C10.refused")
    [] OTHER -> {}
ConvertFails(ev) ==
  LET c == ConvCase(ev.from, ev.to, ev.uc) IN
  CASE c = "ok" /\ ev.val.k = "none" -> Chk(PairOf(ev.obs) /\ IsNone(ev.obs.v[1]) /\ IsNone(ev.obs.v[2]), "C10.no_value")
    [] c = "ok" -> Chk(PairOf(ev.obs) /\ Times(ev.obs.v[1], ev.val, UFactor(ev.from, ev.to)), "C10.convert")
                   \cup Chk(PairOf(ev.obs) /\ IsStr(ev.obs.v[2], ev.to), "C10.convert_units")
    [] c = "pass" -> Chk(PairOf(ev.obs) /\ Times(ev.obs.v[1], ev.val, Q1) /\ Falsy(ev.obs.v[2]), "C10.no_units")
    [] c = "refused" -> Chk(IsExc(ev.obs), "C10.refused")
    [] OTHER -> {}
ListFails(ev) ==
  LET c == ConvCase(ev.from, ev.to, "")
      k == IF c = "pass" THEN Q1 ELSE UFactor(ev.from, ev.to)
  IN  CASE c \in {"ok", "pass"} -> Chk(ev.obs.k = "list" /\ Len(ev.obs.v) = Len(ev.vals)
                                      /\ \A i \in 1..Len(ev.vals) : NumIs(ev.obs.v[i], QMul(k, ev.vals[i])), "C10.convert_list")
        [] c = "refused" -> Chk(IsExc(ev.obs), "C10.refused")
        [] OTHER -> {}
\* into the units d names for the class of these
ToDefaultFails(ev, d) ==
  IF ev.from \in NoUnit
  THEN Chk(PairOf(ev.obs) /\ Times(ev.obs.v[1], ev.val, Q1) /\ Falsy(ev.obs.v[2]), "C10.no_units")
  ELSE IF ~Known(ev.from) \/ ClassOf(ev.from) \notin DOMAIN d THEN Chk(IsExc(ev.obs), "C10.refused")
  ELSE ConvertFails([ev EXCEPT !.to = d[ClassOf(ev.from)]])
PrettyPart(o, u, val, from, hp, prec) ==
  LET t == Default(u)[ClassOf(from)]
      inc == IF hp THEN Pow10(-prec) ELSE Increment(t)
      k == IF u = "metric" THEN 1 ELSE 3
  IN  Chk(o.v[k].k = "num" /\ RoundedTo(o.v[k].v, QMul(val, UFactor(from, t)), inc), "C10.prettify")
      \cup Chk(IsStr(o.v[k + 1], t), "C10.prettify_units")
PrettifyFails(o, val, from, hp, prec) ==
  IF ~Known(from) THEN (IF from \in NoUnit THEN {} ELSE Chk(IsExc(o), "C10.refused"))
  ELSE IF o.k # "list" \/ Len(o.v) # 4 THEN {"C10.prettify"}
  ELSE PrettyPart(o, "metric", val, from, hp, prec) \cup PrettyPart(o, "united_states", val, from, hp, prec)

\* a list of strings holding exactly the set s
Lists(o, s) == /\ o.k = "list" /\ \A i \in 1..Len(o.v) : o.v[i].k = "str"
               /\ Len(o.v) = Cardinality(s) /\ {o.v[i].v : i \in 1..Len(o.v)} = s
InClass(c) == {u \in UnitNames : ClassOf(u) = c}
CatalogFails(ev) ==
  CASE ev.what = "all_units" -> Chk(Lists(ev.obs, UnitNames), "C10.all_units")
    [] ev.what = "all_units_classes" -> Chk(Lists(ev.obs, Classes), "C10.all_classes")
    [] ev.what = "units_in_class" -> Chk(Lists(ev.obs, InClass(ev.arg)), "C10.units_in_class")
    [] ev.what = "named" -> Chk(Lists(ev.obs, InClass(ev.arg)), "C10.units_in_class")
    [] ev.what = "units_class" -> IF ev.arg \in NoUnit THEN Chk(Falsy(ev.obs), "C10.units_class")
                                  ELSE IF Known(ev.arg) THEN Chk(IsStr(ev.obs, ClassOf(ev.arg)), "C10.units_class")
                                  ELSE Chk(IsExc(ev.obs), "C10.refused")
    [] ev.what = "raw" -> Chk(IF Known(ev.arg) THEN NumIs(ev.obs, Table[ev.arg].f) ELSE IsExc(ev.obs), "C10.raw")
\* obs.v: pairs <<class, unit>>, strings
DefaultsFails(ev) ==
  IF ev.system \notin Systems THEN Chk(IsExc(ev.obs), "C10.unknown_system")
  ELSE LET d == Override(Default(ev.system), ev.exc) IN
       Chk(/\ ev.obs.k = "pairs" /\ Len(ev.obs.v) = Cardinality(DOMAIN d)
           /\ \A i \in 1..Len(ev.obs.v) : ev.obs.v[i][1] \in DOMAIN d /\ ev.obs.v[i][2] = d[ev.obs.v[i][1]], "C10.default_units")
       \cup Chk(~ev.mut, "C10.argument_changed")
=============================================================================
