--------------------------- MODULE Trace_HelpersApi ---------------------------
(* Every recorded event of the real library is judged by HelpersApi.          *)
EXTENDS HelpersApi, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st
Init == l = 1 /\ st = InitState
Cur == IF Trace[l].first THEN InitState ELSE st
Next == /\ l <= Len(Trace)
        /\ LET f == Fails(Cur, Trace[l]) IN IF f = {} THEN TRUE ELSE PrintT("FAIL " \o ToJson([l |-> l, c |-> f]))
        /\ st' = Step(Cur, Trace[l])
        /\ l' = l + 1
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
