----------------------------- MODULE MC_Console -----------------------------
(* The prompt loop on every sequence of lines up to a length.               *)
EXTENDS ConsoleApi, Json
CONSTANTS MaxLines, Emit
VARIABLES s, lines
Line == {[k |-> "num", v |-> QMk(5, 2), t |-> "2.5"], [k |-> "num", v |-> QI(-3), t |-> "-3"],
         [k |-> "empty", t |-> ""], [k |-> "junk", t |-> "abc"]}
Init == /\ lines \in UNION {[1..n -> Line] : n \in 0..MaxLines}
        /\ \E a \in BOOLEAN : s = Start(lines, a)
Next == CanRead(s) /\ s' = Read(s) /\ UNCHANGED lines
Spec == Init /\ [][Next]_<<s, lines>> /\ WF_<<s, lines>>(Next)
Used == Len(lines) - Len(s.todo)
Stops(i) == lines[i].k = "num" \/ (lines[i].k = "empty" /\ s.allow)
\* it stops exactly at the first line it accepts, having shown one prompt for each line
Safe == /\ s.prompts = Used
       /\ \A i \in 1..(IF s.done THEN Used - 1 ELSE Used) : ~Stops(i)
       /\ (s.done => Used > 0 /\ Stops(Used))
       /\ (s.result.k = "num" => s.done /\ QEq(s.result.v, lines[Used].v))
       /\ ((s.done /\ ~s.allow) => s.result.k = "num")
Live == (\E i \in 1..Len(lines) : Stops(i)) ~> s.done
EmitCase == (Emit /\ s.done) => PrintT("CASE " \o ToJson(<<
   [op |-> "float", prompt |-> "How tall: ", lines |-> lines, allow |-> s.allow],
   [op |-> "value", label |-> "Height", units |-> "in", lines |-> lines, allow |-> s.allow]>>))
=============================================================================
