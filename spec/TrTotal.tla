---------------------------------- MODULE TrTotal ----------------------------------
EXTENDS Total, Json, IOUtils, TLC
VARIABLES l, w, h, al
vars == <<l, w, h, al>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
StepOk(e) ==
    /\ e.ok /\ e.k \in AllOps
    /\ <<e.nw, e.nh>> \in Sizes(e.k, e.q, w, h, e.ow, e.oh)
    /\ Len(e.v) = e.nw * e.nh
    /\ \A i \in DOMAIN e.v : \A c \in 1..4 : Finite(e.v[i][c])
    /\ LET rule == Alpha(e.k, e.q) IN rule # "any" => \A i \in DOMAIN e.v : AlphaOk(rule, al[i], e.v[i][4])
TrInit == l = 1 /\ w = 0 /\ h = 0 /\ al = <<>>
TrNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.op = "reset" -> w' = 0 /\ h' = 0 /\ al' = <<>>
         \* also where a result has left [0, 1] and is clamped before going on
         [] E.op = "start" -> w' = E.w /\ h' = E.h /\ al' = E.al
         [] OTHER -> /\ StepOk(E) = TRUE
                     /\ w' = E.nw /\ h' = E.nh /\ al' = [i \in DOMAIN E.v |-> E.v[i][4]]
TrSpec == TrInit /\ [][TrNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====================================================================================
