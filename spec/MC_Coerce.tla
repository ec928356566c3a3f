------------------------------ MODULE MC_Coerce ------------------------------
(* All small shapes against all small patterns and flags: the decision is a *)
(* function of shape and pattern only, and coercion is idempotent.          *)
EXTENDS CoerceApi, Json
CONSTANTS Sizes, MaxDim, Emit
VARIABLES shape, pat, hs, an, en
vars == <<shape, pat, hs, an, en>>
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE {<<>>} \cup {<<x>> \o t : x \in S, t \in Seqs(S, n - 1)}
Shapes == Seqs(Sizes, MaxDim)
Pats == Seqs(Sizes \cup {Wild}, MaxDim)
Init == shape = <<>> /\ pat = <<>> /\ hs = FALSE /\ an = FALSE /\ en = FALSE
Reshape == \E s \in Shapes : shape' = s /\ UNCHANGED <<pat, hs, an, en>>
Ask == \E p \in Pats : pat' = p /\ hs' = TRUE /\ UNCHANGED <<shape, an, en>>
Flag == an' \in BOOLEAN /\ en' \in BOOLEAN /\ UNCHANGED <<shape, pat, hs>>
Next == Reshape \/ Ask \/ Flag
Numbered(s) == [i \in 1..Size(s) |-> QI(i)]
X == [kind |-> "nested", elem |-> "real", cont |-> "array", shape |-> shape, v |-> Numbered(shape)]
Op == [hs |-> hs, shape |-> pat, allow_none |-> an, empty_as_none |-> en]
W == Outcome(X, Op)
Laws ==
  /\ (hs /\ ~(Size(shape) = 0 /\ an /\ en) => (W.r = "refused" <=> ~FitsAs(shape, pat) /\ ~FitsAs(Rev(shape), pat)))
  /\ W.r = "array" => /\ Size(W.shape) = Size(shape)
                     /\ (hs => FitsAs(W.shape, pat))
  \* coercing again changes nothing
  /\ W.r = "array" => LET y == Outcome([X EXCEPT !.shape = W.shape, !.v = W.v], Op)
                      IN  y.r = "array" /\ y.shape = W.shape /\ VEq(y.v, W.v)
  /\ TranspFlat(TranspFlat(Numbered(shape), shape), Rev(shape)) = Numbered(shape)
  /\ (W.r = "none" => an)
  \* every input is none, a number, an array of numbers, or not numeric: never two
  /\ \A k \in {"none", "scalar", "nested", "ragged", "object"}, e \in {"real", "bool", "nan"} :
       LET y == [X EXCEPT !.kind = k, !.elem = e] IN
       /\ ~(IsScalarNum(y) /\ IsArrayNum(y)) /\ (IsReal(y) <=> IsScalarNum(y) \/ IsArrayNum(y))
       /\ (e # "real" /\ k # "none" => Outcome(y, Op).r = "refused")
EmitCase == Emit => PrintT("CASE " \o ToJson(
  <<[op |-> "coerce", x |-> X, hs |-> hs, shape |-> pat, allow_none |-> an, empty_as_none |-> en, dtype |-> ""],
    [op |-> "coerce", x |-> X, hs |-> hs, shape |-> pat, allow_none |-> an, empty_as_none |-> en, dtype |-> "f4"],
    [op |-> "pred", x |-> X]>>))
=============================================================================
