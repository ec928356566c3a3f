--------------------------- MODULE MC_Transforms ---------------------------
(* The design of transforms and frames, explored exhaustively: every        *)
(* interleaving of appends, tags and sets within the bounds.                *)
EXTENDS Transforms, Json
CONSTANTS MaxOps,     \* appended elements
          MaxCalls,   \* calls in all
          Emit        \* TRUE: keep and print the calls made (behaviours)
VARIABLES st, n, hist
vars == <<st, n, hist>>

\* the appending calls the model chooses from: no two commute
Calls == <<
  [op |-> "append", on |-> "cm", kind |-> "translate", v |-> VInt(<<1, -2, 3>>)],
  [op |-> "append", on |-> "cm", kind |-> "scale", x |-> QMk(1, 2)],
  [op |-> "append", on |-> "cm", kind |-> "units", from |-> "ft", to |-> "in"],
  [op |-> "append", on |-> "cm", kind |-> "reorient", up |-> VInt(<<2, 0, 0>>), look |-> VInt(<<1, 3, 0>>),
     w |-> <<VInt(<<0, 0, 1>>), VInt(<<1, 0, 0>>), VInt(<<0, 1, 0>>)>>],
  [op |-> "append", on |-> "cm", kind |-> "append4",
     f |-> <<VInt(<<1, 1, 0, 2>>), VInt(<<0, 2, 0, 0>>), VInt(<<0, 1, 1, 0>>), VInt(<<0, 0, 0, 1>>)>>],
  [op |-> "append", on |-> "cm", kind |-> "rotate", w |->
     <<VInt(<<0, -1, 0>>), VInt(<<1, 0, 0>>), VInt(<<0, 0, 1>>)>>],
  [op |-> "append", on |-> "cm", kind |-> "append3",
     f |-> <<VInt(<<0, 1, 0>>), VInt(<<1, 0, 0>>), VInt(<<0, 1, 2>>)>>] >>
Names == {"a", "b"}
Pts == <<VInt(<<1, 2, 3>>), VInt(<<0, -1, 4>>)>>

Init == st = InitState /\ n = 0 /\ hist = <<>>
Do(ev) == /\ n < MaxCalls
          /\ n' = n + 1
          /\ st' = Step(st, ev)
          /\ hist' = IF Emit THEN Append(hist, ev) ELSE hist
AppendCall == \E i \in 1..Len(Calls) : Len(st.cstack) < MaxOps /\ Do(Calls[i])
TagCall == \E x \in Names : Do([op |-> "tag", name |-> x])
SetCall == \E x \in Names : Do([op |-> "set", name |-> x, what |-> "arr", pts |-> Pts])
Next == AppendCall \/ TagCall \/ SetCall

\* ---- properties of the design ----------------------------------------------
S == st.cstack
Idx == 0..Len(S)
\* C01: a range is the ordered application of its elements; ranges compose
Composes == \A i, j, k \in Idx : i <= j /\ j <= k =>
  MEq(FwdProd(Slice(S, i, k)), MatMul(FwdProd(Slice(S, j, k)), FwdProd(Slice(S, i, j))))
EmptyIsIdentity == \A i \in Idx : MEq(FwdProd(Slice(S, i, i)), Ident(4)) /\ MEq(RevProd(Slice(S, i, i)), Ident(4))
\* C02: reverse inverts forward, for every range
Inverts == \A i, j \in Idx : i <= j =>
  MEq(MatMul(RevProd(Slice(S, i, j)), FwdProd(Slice(S, i, j))), Ident(4))
\* C03: frames are independent of the route, and there is always a way back
T == DOMAIN st.tags
PathIndependent == \A a, b, c \in T :
  MEq(Frame(S, st.tags, a, c), MatMul(Frame(S, st.tags, b, c), Frame(S, st.tags, a, b)))
RoundTrip == \A a, b \in T : MEq(MatMul(Frame(S, st.tags, b, a), Frame(S, st.tags, a, b)), Ident(4))
TagsInRange == \A a \in T : st.tags[a] \in Idx
SlotTagged == st.slot.set => st.slot.name \in T
\* later calls never disturb the frames already named
Stable == [][\A a, b \in DOMAIN st.tags :
               (st'.tags[a] = st.tags[a] /\ st'.tags[b] = st.tags[b]) =>
                 MEq(Frame(st'.cstack, st'.tags, a, b), Frame(st.cstack, st.tags, a, b))]_vars
OnlyTagsMoveTags == [][st'.tags # st.tags => st'.cstack = st.cstack /\ st'.slot = st.slot]_vars

\* ---- behaviours for replay ---------------------------------------------------
Full == n = MaxCalls
EmitCase == Emit /\ Full => PrintT("CASE " \o ToJson(<<[op |-> "reset"]>> \o hist \o <<[op |-> "probe", pts |-> Pts]>>))
=============================================================================
