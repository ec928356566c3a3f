------------------------------- MODULE MC_Path -------------------------------
(* Extraction of the polylines from the crossing graph, as an algorithm     *)
(* with every choice left open: which node to start from (one of odd        *)
(* degree, if there is any) and which link to follow.  Checked on every     *)
(* graph of N nodes whose degrees are at most two.                          *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANT N
VARIABLES g0, g, stack, path, out
vars == <<g0, g, stack, path, out>>
Pairs == {s \in SUBSET (1..N) : Cardinality(s) = 2}
Deg(G, x) == Cardinality({l \in G : x \in l})
Live(G) == UNION G
Odd(G) == {x \in Live(G) : Deg(G, x) % 2 = 1}
Init == /\ g0 \in {G \in SUBSET Pairs : \A x \in 1..N : Deg(G, x) <= 2}
        /\ g = g0 /\ stack = <<>> /\ path = <<>> /\ out = <<>>
Starts == IF Odd(g) # {} THEN Odd(g) ELSE Live(g)
Begin == /\ stack = <<>> /\ path = <<>> /\ g # {}
         /\ \E x \in Starts : stack' = <<x>>
         /\ UNCHANGED <<g0, g, path, out>>
Top == stack[Len(stack)]
Push == /\ stack # <<>> /\ Top \in Live(g)
        /\ \E l \in g : Top \in l /\ \E y \in l \ {Top} : g' = g \ {l} /\ stack' = Append(stack, y)
        /\ UNCHANGED <<g0, path, out>>
Pop == /\ stack # <<>> /\ Top \notin Live(g)
       /\ path' = Append(path, Top) /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
       /\ UNCHANGED <<g0, g, out>>
Emit == /\ stack = <<>> /\ path # <<>>
        /\ out' = Append(out, path) /\ path' = <<>>
        /\ UNCHANGED <<g0, g, stack>>
Next == Begin \/ Push \/ Pop \/ Emit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == g = {} /\ stack = <<>> /\ path = <<>>
LinksOf(p) == {{p[i], p[i + 1]} : i \in 1..(Len(p) - 1)}
RECURSIVE Grow(_)
Grow(S) == LET T == S \cup UNION {l \in g0 : l \cap S # {}} IN IF T = S THEN S ELSE Grow(T)
Right == Done =>
  /\ \A i \in 1..Len(out) : LET p == out[i] IN
       /\ Cardinality(LinksOf(p)) = Len(p) - 1                  \* each link once
       /\ LinksOf(p) \subseteq g0
       /\ {p[j] : j \in 1..Len(p)} = Grow({p[1]})               \* a whole component
       /\ (p[1] = p[Len(p)]) = (\A x \in Grow({p[1]}) : Deg(g0, x) = 2)   \* closed iff a loop
  /\ UNION {LinksOf(out[i]) : i \in 1..Len(out)} = g0
  /\ \A i, j \in 1..Len(out) : i # j => LinksOf(out[i]) \cap LinksOf(out[j]) = {}
Terminates == <>Done
=============================================================================
