------------------------------ MODULE MC_Value ------------------------------
(* Two values, reassigned in every way over a small domain: the laws of     *)
(* their arithmetic, and behaviours to replay.                              *)
EXTENDS ValueApi, Json
CONSTANTS Numbers, TheUnits, Emit
VARIABLES st
Nums == {QMk(n - 10, 2) : n \in Numbers}
Vals == {[v |-> v, u |-> u] : v \in Nums, u \in TheUnits}
Init == st = [x |-> [v |-> Q1, u |-> "cm"], y |-> [v |-> QI(3), u |-> "cm"]]
SetV(n) == \E v \in Nums : st' = Step(st, [op |-> "set_value", valid |-> TRUE, a |-> n, v |-> v])
SetU(n) == \E u \in TheUnits : st' = Step(st, [op |-> "set_units", a |-> n, u |-> u])
Next == \E n \in {"x", "y"} : SetV(n) \/ SetU(n)
X == [k |-> "reg", r |-> "x"]
Y == [k |-> "reg", r |-> "y"]
Ok == CmpCase(st, st.x, Y) = "ok"
Factor(a, b) == IF a = b THEN Q1 ELSE UFactor(a, b)
xin == InUnits(st, st.y, X)
yin == InUnits(st, st.x, Y)
Laws ==
  /\ Ok <=> CmpCase(st, st.y, X) = "ok"
  /\ Ok => LET f == Factor(st.x.u, st.y.u) IN
       /\ QEq(QMul(QAdd(st.x.v, yin), f), QAdd(st.y.v, xin))          \* addition commutes
       /\ QEq(QMul(QSub(st.x.v, yin), f), QNeg(QSub(st.y.v, xin)))
       /\ QLt(st.x.v, yin) <=> QLt(xin, st.y.v)                       \* one order
       /\ QSgn(yin) # 0 /\ QSgn(xin) # 0 => QEq(QMul(QDiv(st.x.v, yin), QDiv(st.y.v, xin)), Q1)
\* a result the specification accepts is one it produces
Accepts ==
  Ok => LET o(v) == [k |-> "value", u |-> st.x.u, v |-> [k |-> "num", dt |-> "f", v |-> v]] IN
     /\ BinOne(st, "add", st.x, Y, o(QAdd(st.x.v, yin))) = {}
     /\ BinOne(st, "sub", st.x, Y, o(QSub(st.x.v, yin))) = {}
     /\ (st.x.u # st.y.u /\ ~QEq(Factor(st.x.u, st.y.u), Q1) /\ QSgn(st.y.v) # 0 => BinOne(st, "add", st.x, Y, o(QAdd(st.x.v, st.y.v))) # {})
Num(v) == [k |-> "num", v |-> v]
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<[op |-> "new", dst |-> "x", valid |-> TRUE, v |-> QI(7), u |-> "kg"],
    [op |-> "new", dst |-> "y", valid |-> TRUE, v |-> st.y.v, u |-> st.y.u],
    [op |-> "set_value", a |-> "x", valid |-> TRUE, v |-> st.x.v],
    [op |-> "set_units", a |-> "x", u |-> st.x.u]>>
  \o [i \in 1..7 |-> [op |-> "bin", bop |-> <<"add", "sub", "iadd", "isub", "div", "floordiv", "mul">>[i], a |-> "x", x |-> Y]]
  \o [i \in 1..8 |-> [op |-> "bin", bop |-> <<"add", "radd", "sub", "rsub", "mul", "rmul", "div", "floordiv">>[i], a |-> "x", x |-> Num(QMk(5, 2))]]
  \o [i \in 1..6 |-> [op |-> "refused", rop |-> <<"mod", "rmod", "pow", "rpow", "rdiv", "rfloordiv">>[i], a |-> "x", x |-> IF i \in {1, 3, 5, 6} THEN Num(QI(2)) ELSE Y]]
  \o <<[op |-> "compare", a |-> "x", x |-> Y, swap |-> FALSE], [op |-> "compare", a |-> "x", x |-> Y, swap |-> TRUE],
       [op |-> "compare", a |-> "x", x |-> Num(Q1), swap |-> TRUE],
       [op |-> "as", a |-> "x", how |-> "attr", to |-> st.y.u], [op |-> "as", a |-> "x", how |-> "convert", to |-> "m"],
       [op |-> "as", a |-> "x", how |-> "system", to |-> "united_states"]>>
  \o [i \in 1..10 |-> [op |-> "unary", uop |-> <<"neg", "pos", "abs", "float", "int", "bool", "item0", "item1", "item2", "prettified">>[i], a |-> "x"]]
  \o <<[op |-> "unary", uop |-> "round", hp |-> FALSE, n |-> 0, a |-> "x"], [op |-> "unary", uop |-> "round_to", inc |-> QMk(1, 4), a |-> "x"]>>))
=============================================================================
