--------------------------------- MODULE MCSink ----------------------------------
(* An encoder which hands its bytes to a failing destination, directly or through a buffer,  *)
(* in write_all loops and with a final flush: the way the library has to work.               *)
EXTENDS Sink, Json, Sequences
CONSTANTS Total, Cap, Parts, MaxCalls
VARIABLES plan, made, pend, buf, got, calls, failed, st
vars == <<plan, made, pend, buf, got, calls, failed, st>>
Plans == [at : {-1} \union 0..Total, kind : Kinds, chunk : {1, 2, 100}, hiccup : {0, 2, 3}, flush : BOOLEAN]
Init == /\ plan \in {p \in Plans : p.at = -1 => p.kind = "error"} /\ made = 0 /\ pend = 0 /\ buf = 0 /\ got = 0 /\ calls = 0 /\ failed = FALSE
        /\ st = "run"
\* the encoder produces its next part
Produce == /\ st = "run" /\ pend = 0 /\ made < Total
           /\ \E k \in Parts : k <= Total - made /\ made' = made + k
                /\ IF buf + k <= Cap THEN buf' = buf + k /\ pend' = 0 ELSE buf' = buf + k /\ pend' = buf + k
           /\ UNCHANGED <<plan, got, calls, failed, st>>
\* a write_all loop empties the buffer
Emptying == pend > 0 \/ (made = Total /\ buf > 0)
Push == /\ st = "run" /\ Emptying /\ calls < MaxCalls
        /\ LET c == Call(plan, got, buf, calls, failed) IN
           /\ calls' = calls + 1 /\ got' = got + c.taken /\ buf' = buf - c.taken
           /\ pend' = IF buf' = 0 THEN 0 ELSE IF pend > 0 THEN buf' ELSE 0
           /\ failed' = (failed \/ c.res \in {"error", "zero"})
           /\ st' = IF c.res \in {"error", "zero"} THEN "failed" ELSE "run"
        /\ UNCHANGED <<plan, made>>
\* the end: everything has been handed over, the destination is flushed
Finish == /\ st = "run" /\ made = Total /\ buf = 0 /\ st' = IF plan.flush THEN "failed" ELSE "ok"
          /\ UNCHANGED <<plan, made, pend, buf, got, calls, failed>>
Next == Produce \/ Push \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* success means that all has arrived; an unharmed destination sees success
Sound == st = "ok" => got = Total
Complete == (st = "failed") => (plan.flush \/ plan.at >= 0)
Conserved == got + buf = made
Ends == <>(st \in {"ok", "failed"} \/ calls = MaxCalls)
Emit == (calls = 0 /\ made = 0) => PrintT(ToJson([plan EXCEPT !.at = IF @ < 0 THEN -1 ELSE (@ * 1000) \div Total]))
================================================================================
