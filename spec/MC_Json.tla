------------------------------- MODULE MC_Json -------------------------------
(* Every small tree: encoding and decoding are inverse, and every subset of *)
(* the annotation keys.                                                     *)
EXTENDS JsonApi, Json, SequencesExt
CONSTANTS Emit
VARIABLES kind, x, y, parts, ty
Num(n, d) == [t |-> "num", v |-> QMk(n, d)]
Str(s) == [t |-> "str", v |-> s]
L(s) == [t |-> "list", v |-> s]
D(s) == [t |-> "dict", v |-> s]
Leaves == {Num(0, 1), Num(-7, 4), Str(""), Str("cm"), [t |-> "none"], [t |-> "bool", v |-> TRUE], [t |-> "bool", v |-> FALSE],
           [t |-> "value", v |-> QMk(5, 2), u |-> "cm"], [t |-> "value", v |-> QI(0), u |-> "<none>"], L(<<>>), D(<<>>)}
Wrap(a, b) == {L(<<a, b>>), L(<<a>>), [t |-> "tuple", v |-> <<a, b>>], D(<<<<"a", a>>, <<"b", b>>>>), D(<<<<"value", a>>, <<"units", b>>>>), L(<<D(<<<<"a", L(<<a>>)>>>>), b>>)}
Ns(s) == L([i \in 1..Len(s) |-> Num(s[i], 1)])
Entries == [dtype |-> Str(ty[1]), shape |-> Ns(<<2, 3>>), format |-> Str(ty[2]), data |-> Ns(<<4, 5, 6, 7>>),
            row |-> Ns(<<0, 1, 1, 0>>), col |-> Ns(<<2, 0, 0, 1>>)]
SparseTree == LET ks == <<"dtype", "shape", "format", "data", "row", "col">>
                  RECURSIVE pick(_)
                  pick(i) == IF i > 6 THEN <<>> ELSE (IF ks[i] \in parts THEN <<<<ks[i], Entries[ks[i]]>>>> ELSE <<>>) \o pick(i + 1)
              IN  D(<<<<SparseKey, [t |-> "bool", v |-> TRUE]>>>> \o pick(1))
ArrayTree == LET a == <<<<ArrayKey, IF ty[2] = "csr" THEN Ns(<<1, 2, 3>>) ELSE IF ty[2] = "coo" THEN L(<<Ns(<<1, 2>>), Ns(<<3, 4>>)>>) ELSE L(<<L(<<>>)>>)>>>>
             IN  D(IF "dtype" \in parts THEN a \o <<<<"dtype", Str(ty[1])>>>> ELSE a)
Init == \/ kind = "plain" /\ x \in Leaves /\ y \in Leaves /\ parts = {} /\ ty = <<"int64", "csr">>
        \/ kind = "sparse" /\ x = 0 /\ y = 0 /\ parts \in SUBSET SparseParts /\ ty \in {"float64", "int32"} \X {"csr", "csc", "coo", "lil", "dok"}
        \/ kind = "array" /\ x = 0 /\ y = 0 /\ parts \in SUBSET {"dtype"} /\ ty \in (DOMAIN Canon) \X {"csr", "coo", "lil"}
Next == UNCHANGED <<kind, x, y, parts, ty>>
Laws == CASE kind = "plain" -> \A w \in Wrap(x, y) : Same(Decode(Encode(w)), Plain(w)) /\ Same(Plain(Plain(w)), Plain(w))
          [] kind = "sparse" -> IF parts = SparseParts
                                THEN LET s == Decode(SparseTree) IN s.t = "sparse" /\ QEq(s.v[2][1], QI(11)) /\ QEq(s.v[1][2], QI(7)) /\ QEq(s.v[2][2], QI(0))
                                ELSE Same(Decode(SparseTree), SparseTree)
          [] kind = "array" -> Decode(ArrayTree).t = "arr"
EmitCase == Emit => PrintT("CASE " \o ToJson(
  CASE kind = "plain" -> LET ws == SetToSeq(Wrap(x, y)) IN [i \in 1..Len(ws) |-> [op |-> "roundtrip", tree |-> ws[i], via |-> IF i % 2 = 1 THEN "str" ELSE "file"]]
    [] kind = "sparse" -> <<[op |-> "decode", tree |-> SparseTree, via |-> "str"]>>
    [] kind = "array" -> <<[op |-> "decode", tree |-> ArrayTree, via |-> "file"]>>))
=============================================================================
