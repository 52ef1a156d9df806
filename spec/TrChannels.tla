--------------------------------- MODULE TrChannels ---------------------------------
EXTENDS Channels, Json, IOUtils
VARIABLES l, c
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* every event tells the colour afterwards, as its data and through its accessors
Whole(e, d) == e.data = d /\ e.get = d
InUnit(d) == \A i \in 1..3 : d[i] \in 0..One
Ok(e, d) ==
    CASE e.op = "from" -> e.from = e.to /\ Len(e.to) = 4          \* bit patterns
      [] e.op = "iter" -> LET left == IF e.k < e.n THEN e.n - e.k ELSE 0 IN
                          /\ e.left = left /\ e.hint[1] <= left /\ (e.hint[2] = -1 \/ e.hint[2] >= left)
                          /\ e.v = e.w /\ Len(e.v) = e.n
      [] OTHER -> LET r == Call(d, e) IN Whole(e, r.c) /\ e.seen = Seen(d, e)
                            /\ (e.out = r.out \/ (e.op = "extreme" /\ ~InUnit(d)))
TrInit == l = 1 /\ c = Black
TrNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "reset" THEN c' = Black
       ELSE Ok(e, c) = TRUE /\ c' = IF e.op \in {"from", "iter"} THEN c ELSE Call(c, e).c
TrSpec == TrInit /\ [][TrNext]_<<l, c>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=====================================================================================
