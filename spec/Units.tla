------------------------------- MODULE Units -------------------------------
(* The table of units: class, and how many base units make one of it.       *)
EXTENDS Trig

U(c, f) == [c |-> c, f |-> f]
Table ==
  LET m == U("length", Q1)
      mm == U("length", QMk(1, 1000))
      cm == U("length", QMk(1, 100))
      in == U("length", QMk(254, 10000))
      ft == U("length", QMk(3048, 10000))
      kg == U("weight", Q1)
      g == U("weight", QMk(1, 1000))
      lb == U("weight", QMk(100000, 220462))
      deg == U("angle", Q1)
      rad == U("angle", QDiv(QI(180), Pi))
      sec == U("time", Q1)
      min == U("time", QI(60))
      hr == U("time", QI(3600))
      day == U("time", QI(86400))
      yr == U("time", QMul(QI(86400), QMk(365242, 1000)))
  IN [ m |-> m, meter |-> m, meters |-> m,
       mm |-> mm, millimeter |-> mm, millimeters |-> mm,
       cm |-> cm, centimeter |-> cm, centimeters |-> cm,
       in |-> in, inch |-> in, inches |-> in,
       ft |-> ft, foot |-> ft, feet |-> ft,
       fathoms |-> U("length", QMk(18288, 10000)),
       cubits |-> U("length", QMk(4572, 10000)),
       kg |-> kg, kilograms |-> kg, g |-> g, grams |-> g,
       lbs |-> lb, pounds |-> lb, lb |-> lb,
       stone |-> U("weight", QMk(1000000, 157473)),
       deg |-> deg, degrees |-> deg, rad |-> rad, radians |-> rad,
       sec |-> sec, second |-> sec, seconds |-> sec,
       min |-> min, minute |-> min, minutes |-> min,
       hr |-> hr, hour |-> hr, hours |-> hr,
       day |-> day, days |-> day,
       yr |-> yr, year |-> yr, years |-> yr,
       hours_per_week |-> U("time_rate", Q1) ]
UnitNames == DOMAIN Table
Classes == {Table[u].c : u \in UnitNames}
ClassOf(u) == Table[u].c
UFactor(a, b) == QDiv(Table[a].f, Table[b].f)
Compatible(a, b) == ClassOf(a) = ClassOf(b)
=============================================================================
