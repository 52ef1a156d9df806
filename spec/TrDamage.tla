--------------------------------- MODULE TrDamage ---------------------------------
EXTENDS Damage, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Outcome(e) == \/ e.res = "error"
              \/ e.res = "image" /\ WellFormedImage(e.w, e.h, e.n, e.lo, e.hi, e.bad)
\* nothing was damaged: a whole file is an image
Whole(e) == e.kept >= e.size => e.res = "image"
Cut(e) == Outcome(e) /\ (MustFail(e.fmt, e.kept, e.complete) => e.res = "error") /\ Whole(e)
\* a checksum guards the byte that was changed
Ok(e) == CASE e.op = "flip" -> GuardedChange(e.res) [] e.op = "hollow" -> Hollow(e.res) [] e.op = "cut" -> Cut(e) [] e.op = "damage" -> Outcome(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
