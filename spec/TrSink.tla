--------------------------------- MODULE TrSink ---------------------------------
EXTENDS Sink, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the recorded calls are those of a destination with this plan
RECURSIVE Obeys(_, _, _, _, _)
Obeys(p, log, i, got, failed) ==
    IF i > Len(log) THEN TRUE
    ELSE LET c == Call(p, got, log[i][1], i - 1, failed) IN
         /\ c.taken = log[i][2] /\ c.res = log[i][3]
         /\ Obeys(p, log, i + 1, got + c.taken, failed \/ c.res \in {"error", "zero"})
FaultFree(p, total) == p.at < 0 /\ p.hiccup = 0 /\ p.chunk >= total /\ ~p.flush
SinkOk(e) == /\ Obeys(e.plan, e.log, 1, 0, FALSE)
             /\ e.res \in {"ok", "error"}
             /\ (e.res = "ok") => (e.got = e.total /\ e.h = e.want)
             /\ FaultFree(e.plan, e.total) => e.res = "ok"
\* a file that cannot grow beyond a limit
FileOk(e) == /\ e.res \in {"ok", "error"}
             /\ (e.res = "ok") => (e.got = e.total /\ e.h = e.want)
             /\ (e.limit >= e.total) => e.res = "ok"
Ok(e) == CASE e.op = "sink" -> SinkOk(e) [] e.op = "file" -> FileOk(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
