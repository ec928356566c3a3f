------------------------------ MODULE CoerceApi ------------------------------
(* What counts as a number, as an array of numbers, and what coercion makes *)
(* of an input.  An input is described by                                   *)
(*   kind  none, scalar, nested (lists, tuples, arrays, ranges, ...),       *)
(*         ragged, object (anything that is neither)                        *)
(*   elem  what it is made of: real, or else bool, text, complex, nan, inf, *)
(*         none, time, obj                                                  *)
(*   shape, v (the numbers, row by row), cont (list, tuple, array, other)   *)
EXTENDS Obs
InitState == <<>>
Step(st, ev) == st

RECURSIVE ProdFrom(_, _)
ProdFrom(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdFrom(s, i + 1)
Size(s) == ProdFrom(s, 1)
RECURSIVE NatSum(_)
NatSum(s) == IF Len(s) = 0 THEN 0 ELSE Head(s) + NatSum(Tail(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* ---- the rules -------------------------------------------------------------
IsReal(x) == x.kind \in {"scalar", "nested"} /\ x.elem = "real"
IsScalarNum(x) == IsReal(x) /\ x.kind = "scalar"
IsArrayNum(x) == IsReal(x) /\ x.kind = "nested"
Empty(x) == \/ x.kind = "none"
            \/ x.kind = "nested" /\ IF x.cont = "array" THEN Size(x.shape) = 0
                                    ELSE x.cont \in {"list", "tuple"} /\ x.shape = <<0>>

Wild == -1
FitsAs(s, pat) == Len(s) = Len(pat) /\ \A i \in 1..Len(s) : pat[i] = Wild \/ pat[i] = s[i]
Fit(s, pat) == IF FitsAs(s, pat) THEN "direct" ELSE IF FitsAs(Rev(s), pat) THEN "transposed" ELSE "no"

\* row-major numbers of the transposed array
Strides(s) == [i \in 1..Len(s) |-> ProdFrom(s, i + 1)]
Unravel(k, s) == [i \in 1..Len(s) |-> ((k - 1) \div Strides(s)[i]) % s[i]]
Ravel(ix, s) == 1 + NatSum([i \in 1..Len(s) |-> ix[i] * Strides(s)[i]])
TranspFlat(v, s) == [k \in 1..Len(v) |-> v[Ravel(Rev(Unravel(k, Rev(s))), s)]]

\* the outcome: refused, none, array (shape, v), or undecided
Outcome(x, op) ==
  LET pattern == op.hs
      fit == IF pattern THEN Fit(x.shape, op.shape) ELSE "direct"
  IN  IF x.kind = "none" THEN [r |-> IF op.allow_none THEN "none" ELSE "refused"]
      ELSE IF ~IsReal(x) THEN [r |-> "refused"]
      ELSE IF x.kind = "scalar" THEN [r |-> IF pattern /\ Len(op.shape) > 0 THEN "refused" ELSE "undecided"]
      ELSE IF op.allow_none /\ op.empty_as_none /\ Size(x.shape) = 0
           THEN [r |-> IF x.shape = <<0>> THEN "none" ELSE "undecided"]
      ELSE IF fit = "no" THEN [r |-> "refused"]
      ELSE IF fit = "direct" THEN [r |-> "array", shape |-> x.shape, v |-> x.v]
      ELSE [r |-> "array", shape |-> Rev(x.shape), v |-> TranspFlat(x.v, x.shape)]

IntTypes == [i1 |-> <<-128, 127>>, u1 |-> <<0, 255>>, i2 |-> <<-32768, 32767>>, u2 |-> <<0, 65535>>, u4 |-> <<0, 1000000000>>,
             i4 |-> <<-1000000000, 1000000000>>, i8 |-> <<-1000000000, 1000000000>>, u8 |-> <<0, 1000000000>>]
Keeps(dt, q) == dt \notin DOMAIN IntTypes \/ /\ QEq(q, QFloor(q)) /\ QLe(QI(IntTypes[dt][1]), q) /\ QLe(q, QI(IntTypes[dt][2]))
HoldsV(o, v, dt) == Len(o.flat) = Len(v) /\ \A i \in 1..Len(v) : Keeps(dt, v[i]) => QEq(o.flat[i], v[i])

\* ---- the operations --------------------------------------------------------
CoerceFails(ev) ==
  LET w == Outcome(ev.x, ev)
      o == ev.obs
      \* a number the type asked for cannot hold may be refused in another way
      lost == \E i \in 1..Len(ev.x.v) : ~Keeps(ev.dtype, ev.x.v[i])
  IN  CASE w.r = "refused" -> Chk(IF IsReal(ev.x) /\ lost THEN IsExc(o) ELSE Raised(o, {"ValueError"}), "C13.refuse")
        [] w.r = "none" -> Chk(IsNone(o), "C13.none")
        [] w.r = "undecided" -> {}
        [] w.r = "array" ->
             IF o.k # "array" THEN Chk(lost, "C13.accept")
             ELSE Chk(o.shape = w.shape, "C13.shape")
                  \cup Chk(HoldsV(o, w.v, ev.dtype), "C13.numbers")
                  \cup Chk(ev.dtype = "" \/ o.dtype = ev.dtype, "C13.type")
IsFalseObs(o) == o.k = "bool" /\ ~o.v
PredFails(ev) ==
  LET x == ev.x
      as(o, b) == IF x.kind = "ragged" /\ ~b THEN ~(o.k = "bool" /\ o.v) ELSE IsBool(o, b)
  IN  Chk(as(ev.obs.num, IsReal(x)), "C13.isnumeric")
      \cup Chk(as(ev.obs.scalar, IsScalarNum(x)), "C13.isnumericscalar")
      \cup Chk(as(ev.obs.array, IsArrayNum(x)), "C13.isnumericarray")
      \cup Chk(IsBool(ev.obs.empty, Empty(x)), "C13.empty")
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE (CASE ev.op = "coerce" -> CoerceFails(ev)
          [] ev.op = "pred" -> PredFails(ev)
          [] OTHER -> {"HARNESS.op"})
       \cup Chk(~ev.mut, "C13.argument_changed")
=============================================================================
