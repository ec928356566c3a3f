------------------------------ MODULE MC_Units ------------------------------
(* The laws of the table of units, over every triple of units.              *)
EXTENDS UnitsApi, Json
CONSTANTS Emit
VARIABLES a, b, c
Init == /\ a \in UnitNames /\ b \in UnitNames
        /\ c \in (IF Emit THEN {"cm"} ELSE InClass(ClassOf(b)))
        /\ (IF Emit THEN TRUE ELSE Compatible(a, b))
Next == UNCHANGED <<a, b, c>>
Laws == /\ QEq(UFactor(a, a), Q1)
        /\ Compatible(a, b) => QEq(QMul(UFactor(a, b), UFactor(b, a)), Q1)
        /\ Compatible(a, b) /\ Compatible(b, c) => Compatible(a, c) /\ QEq(QMul(UFactor(a, b), UFactor(b, c)), UFactor(a, c))
        /\ QLt(Q0, UFactor(a, b))
\* defaults: a unit of the class, for every class
ASSUME \A s \in Systems : DOMAIN Default(s) = Classes /\ \A k \in Classes : ClassOf(Default(s)[k]) = k
ClassSeq == <<"length", "weight", "angle", "time", "time_rate">>
ASSUME {ClassSeq[i] : i \in 1..Len(ClassSeq)} = Classes
EmitCase == Emit => PrintT("CASE " \o ToJson(<<
  [op |-> "factor", from |-> a, to |-> b, uc |-> ""],
  [op |-> "factor", from |-> a, to |-> b, uc |-> ClassOf(a)],
  [op |-> "convert", from |-> a, to |-> b, uc |-> "", val |-> [k |-> "none"]],
  [op |-> "convert", from |-> a, to |-> b, uc |-> ClassOf(b), val |-> [k |-> "num", v |-> QMk(7, 2)]],
  [op |-> "convert_list", from |-> a, to |-> b, vals |-> <<QI(3), Q0, QMk(-5, 4)>>]>>
  \* every class that can be asked for, also where nothing has to be converted
  \o (IF ~Compatible(a, b) THEN <<>> ELSE
      [i \in 1..Len(ClassSeq) |-> [op |-> "factor", from |-> a, to |-> b, uc |-> ClassSeq[i]]]
      \o [i \in 1..Len(ClassSeq) |-> [op |-> "convert", from |-> a, to |-> b, uc |-> ClassSeq[i], val |-> [k |-> "num", v |-> QI(3)]]])
  \o (IF a # b THEN <<>> ELSE <<
  [op |-> "catalog", what |-> "units_class", arg |-> a],
  [op |-> "catalog", what |-> "raw", arg |-> a],
  [op |-> "catalog", what |-> "units_in_class", arg |-> ClassOf(a)],
  [op |-> "to_system", from |-> a, to |-> "", uc |-> "", system |-> "metric", val |-> [k |-> "num", v |-> QI(12)]],
  [op |-> "to_system", from |-> a, to |-> "", uc |-> "", system |-> "united_states", val |-> [k |-> "num", v |-> QI(12)]],
  [op |-> "to_system", from |-> a, to |-> "", uc |-> "", system |-> "united_states", val |-> [k |-> "none"]],
  [op |-> "prettify", from |-> a, hp |-> FALSE, prec |-> 0, val |-> [k |-> "num", v |-> QMk(4567, 32)]],
  [op |-> "prettify", from |-> a, hp |-> TRUE, prec |-> 2, val |-> [k |-> "num", v |-> QMk(4567, 32)]]>>)))
=============================================================================
