------------------------------ MODULE UnitsApi ------------------------------
(* Judging the calls of blmath.units.                                       *)
EXTENDS UnitRules
InitState == 0
Step(st, ev) == st
Fails(st, ev) ==
  CASE ev.op = "crash" -> {"ANY.crash"}
    [] ev.op = "factor" -> FactorFails(ev)
    [] ev.op = "convert" -> ConvertFails(ev)
    [] ev.op = "convert_list" -> ListFails(ev) \cup Chk(~ev.mut, "C10.argument_changed")
    [] ev.op = "to_default" -> ToDefaultFails(ev, Override(<<>>, ev.defaults))
    [] ev.op = "to_system" -> IF ev.system \in Systems THEN ToDefaultFails(ev, Default(ev.system)) ELSE Chk(IsExc(ev.obs), "C10.unknown_system")
    [] ev.op = "prettify" -> PrettifyFails(ev.obs, ev.val.v, ev.from, ev.hp, ev.prec)
    [] ev.op = "catalog" -> CatalogFails(ev)
    [] ev.op = "defaults" -> DefaultsFails(ev)
=============================================================================
