------------------------------- MODULE JsonApi -------------------------------
(* blmath.util.json: trees of plain data and values with units, their       *)
(* annotated encoding, and what decoding makes of annotations.  A node is   *)
(* a record with a tag t: num, str, bool, none, list (v: nodes), dict       *)
(* (v: pairs <<key, node>>), value (v, u), arr (dtype, shape, v) or sparse  *)
(* (dtype, format, shape, v: rows).                                         *)
EXTENDS Obs

ValueKey == "__value__"
ArrayKey == "__ndarray__"
SparseKey == "__scipy.sparse.sparsematrix__"
SparseParts == {"dtype", "shape", "data", "format", "row", "col"}

Keys(n) == {n.v[i][1] : i \in 1..Len(n.v)}
Get(n, k) == n.v[CHOOSE i \in 1..Len(n.v) : n.v[i][1] = k][2]
MapDict(n, f(_)) == [t |-> "dict", v |-> [i \in 1..Len(n.v) |-> <<n.v[i][1], f(n.v[i][2])>>]]

\* the numbers of a list node, nested
RECURSIVE ShapeOf(_)
ShapeOf(n) == IF n.t # "list" THEN <<>>
              ELSE <<Len(n.v)>> \o (IF Len(n.v) = 0 THEN <<>> ELSE ShapeOf(n.v[1]))
RECURSIVE NumsOf(_)
NumsOf(n) == IF n.t = "list" THEN [i \in 1..Len(n.v) |-> NumsOf(n.v[i])]
             ELSE IF n.t = "bool" THEN (IF n.v THEN QI(1) ELSE QI(0)) ELSE n.v
Ints(n) == [i \in 1..Len(n.v) |-> QInt(n.v[i].v)]

Canon == [float64 |-> "float64", f8 |-> "float64", float |-> "float64", d |-> "float64",
          float32 |-> "float32", f4 |-> "float32", int64 |-> "int64", i8 |-> "int64", int |-> "int64",
          int32 |-> "int32", i4 |-> "int32", int8 |-> "int8", uint8 |-> "uint8", u1 |-> "uint8",
          uint16 |-> "uint16", bool |-> "bool"]
DType(n) == IF "dtype" \in Keys(n) THEN Canon[Get(n, "dtype").v] ELSE "float64"
RECURSIVE Truth(_, _)
Truth(v, depth) == IF depth = 0 THEN (IF QSgn(v) = 0 THEN QI(0) ELSE QI(1)) ELSE [i \in 1..Len(v) |-> Truth(v[i], depth - 1)]
AsArray(n) == LET sh == ShapeOf(Get(n, ArrayKey)) v == NumsOf(Get(n, ArrayKey)) IN
  [t |-> "arr", dtype |-> DType(n), shape |-> sh, v |-> IF DType(n) = "bool" THEN Truth(v, Len(sh)) ELSE v]
AsSparse(n) ==
  LET sh == Ints(Get(n, "shape")) r == Ints(Get(n, "row")) c == Ints(Get(n, "col"))
      d == Get(n, "data").v
      at(i, j) == LET hits == Ascending({k \in 1..Len(d) : r[k] = i - 1 /\ c[k] = j - 1})
                  IN  QSum([k \in 1..Len(hits) |-> d[hits[k]].v])
  IN  [t |-> "sparse", dtype |-> DType(n), format |-> Get(n, "format").v, shape |-> sh,
       v |-> [i \in 1..sh[1] |-> [j \in 1..sh[2] |-> at(i, j)]]]
UnitOf(n) == IF "units" \in Keys(n) /\ Get(n, "units").t = "str" THEN Get(n, "units").v ELSE "<none>"

RECURSIVE Decode(_)
Decode(n) ==
  CASE n.t = "list" -> [t |-> "list", v |-> [i \in 1..Len(n.v) |-> Decode(n.v[i])]]
    [] n.t = "dict" ->
         IF ValueKey \in Keys(n) THEN [t |-> "value", v |-> Get(Get(n, ValueKey), "value").v, u |-> UnitOf(Get(n, ValueKey))]
         ELSE IF ArrayKey \in Keys(n) THEN AsArray(n)
         ELSE IF SparseKey \in Keys(n) /\ SparseParts \subseteq Keys(n) THEN AsSparse(n)
         ELSE MapDict(n, Decode)
    [] OTHER -> n

\* what dumping and loading gives back
RECURSIVE Plain(_)
Plain(n) == IF n.t \in {"list", "tuple"} THEN [t |-> "list", v |-> [i \in 1..Len(n.v) |-> Plain(n.v[i])]]
            ELSE IF n.t = "dict" THEN MapDict(n, Plain) ELSE n
\* the annotated encoding
RECURSIVE Encode(_)
Encode(n) ==
  IF n.t = "value"
  THEN [t |-> "dict", v |-> <<<<ValueKey, [t |-> "dict", v |-> <<<<"value", [t |-> "num", v |-> n.v]>>,
          <<"units", IF n.u = "<none>" THEN [t |-> "none"] ELSE [t |-> "str", v |-> n.u]>>>>]>>>>]
  ELSE IF n.t \in {"list", "tuple"} THEN [t |-> "list", v |-> [i \in 1..Len(n.v) |-> Encode(n.v[i])]]
  ELSE IF n.t = "dict" THEN MapDict(n, Encode) ELSE n

RECURSIVE SameNums(_, _, _)
SameNums(a, b, depth) == IF depth = 0 THEN QEq(a, b)
                         ELSE Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNums(a[i], b[i], depth - 1)
\* o, what was seen, is the tree e
RECURSIVE Same(_, _)
Same(o, e) ==
  /\ o.t = e.t
  /\ CASE e.t = "num" -> QEq(o.v, e.v)
       [] e.t \in {"str", "bool"} -> o.v = e.v
       [] e.t = "none" -> TRUE
       [] e.t = "list" -> Len(o.v) = Len(e.v) /\ \A i \in 1..Len(e.v) : Same(o.v[i], e.v[i])
       [] e.t = "dict" -> Len(o.v) = Len(e.v) /\ Keys(o) = Keys(e) /\ \A k \in Keys(e) : Same(Get(o, k), Get(e, k))
       [] e.t = "value" -> QEq(o.v, e.v) /\ o.u = e.u
       [] e.t = "arr" -> o.dtype = e.dtype /\ o.shape = e.shape /\ SameNums(o.v, e.v, Len(e.shape))
       [] e.t = "sparse" -> o.dtype = e.dtype /\ o.format = e.format /\ o.shape = e.shape /\ MEq(o.v, e.v)

InitState == 0
Step(st, ev) == st
Fails(st, ev) ==
  CASE ev.op = "crash" -> {"ANY.crash"}
    [] ev.op = "roundtrip" -> Chk(Same(ev.obs, Plain(ev.tree)), "C12.roundtrip") \cup Chk(~ev.mut, "C12.argument_changed")
    [] ev.op = "decode" -> Chk(Same(ev.obs, Decode(ev.tree)), "C12.decode")
=============================================================================
