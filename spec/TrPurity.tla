---------------------------------- MODULE TrPurity ----------------------------------
EXTENDS Purity, Json, IOUtils
VARIABLE l
vars == <<store, memo, l>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TrInit == l = 1 /\ store = <<>> /\ memo = <<>>
TrNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.op = "reset" -> store' = <<>> /\ memo' = <<>>
         [] E.op = "start" -> store' = E.st /\ memo' = memo
         [] E.op = "inplace" -> E.ok /\ InPlace(E.key, E.pure, E.ins, E.r) /\ E.st = store'
         [] OTHER -> E.ok /\ Returns(E.key, E.pure, E.ins, E.r, E.dst) /\ E.st = store'
TrSpec == TrInit /\ [][TrNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====================================================================================
