----------------------------- MODULE ConsoleApi -----------------------------
(* Reading a number from the console: a loop that shows the prompt, takes a *)
(* line, and stops at the first one it accepts.  A line is num (with v),    *)
(* empty or junk.                                                           *)
EXTENDS Obs

\* ---- the loop as a state machine ----------------------------------------------
Start(lines, allow) == [todo |-> lines, allow |-> allow, prompts |-> 0, done |-> FALSE, result |-> [k |-> "none"]]
CanRead(s) == ~s.done /\ Len(s.todo) > 0
Read(s) == LET x == Head(s.todo) t == [s EXCEPT !.todo = Tail(@), !.prompts = @ + 1] IN
           CASE x.k = "num" -> [t EXCEPT !.done = TRUE, !.result = [k |-> "num", v |-> x.v]]
             [] x.k = "empty" /\ s.allow -> [t EXCEPT !.done = TRUE]
             [] OTHER -> t
RECURSIVE Finish(_)
Finish(s) == IF CanRead(s) THEN Finish(Read(s)) ELSE s

\* ---- verdicts: ev.left lines were left, ev.prompts times the prompt was shown ----
InitState == 0
Step(st, ev) == st
ResultOK(ev, r) ==
  IF r.k = "none" THEN IsNone(ev.obs)
  ELSE IF ev.op = "float" THEN ev.obs.k = "num" /\ QEq(ev.obs.v, r.v)
  ELSE ev.obs.k = "value" /\ ev.obs.v.k = "num" /\ QEq(ev.obs.v.v, r.v) /\ ev.obs.u = ev.units
Fails(st, ev) ==
  IF ev.op = "crash" THEN {"ANY.crash"}
  ELSE LET f == Finish(Start(ev.lines, ev.allow)) IN
       IF ~f.done THEN {}
       ELSE Chk(ResultOK(ev, f.result), "C24.result")
            \cup Chk(ev.prompts = f.prompts, "C24.prompts")
            \cup Chk(ev.left = Len(f.todo), "C24.consumed")
=============================================================================
