-------------------------------- MODULE TrBuffer --------------------------------
(* Trace validation for Buffer: every recorded call must return what Call says,    *)
(* visit what it says, and leave exactly the state it says in every slot.          *)
EXTENDS Buffer, Json, IOUtils
VARIABLE l

Trace == ndJsonDeserialize(IOEnv.TRACE)
Fresh == [s \in 0..2 |-> NoBuf]
TrInit == slots = Fresh /\ l = 1

SameSlot(a, b) == a.w = b.w /\ a.h = b.h /\ a.px = b.px
Matches(e, r) ==
    /\ e.ok = r.ret.ok
    /\ e.ok => e.v = r.ret.v
    /\ \A s \in DOMAIN slots : SameSlot(r.slots[s], e.st[s + 1])
    /\ e.op \in {"new", "edit", "map"} /\ e.ok =>
          Len(e.vis) = Len(r.vis) /\ \A i \in 1..Len(r.vis) : e.vis[i] = r.vis[i]

\* a buffer too large to write down, made by e.mk, then e.k done to it: n counts the visits,
\* vis shows some of them as <<i, x, y, label seen>>, px some pixels as <<i, label>> (i from 0),
\* at single accesses as <<kind, x, y, what>> (-9: refused)
WideOk(e) ==
    LET n == e.w * e.h
        made(i) == IF e.mk = "raw" THEN WideLabel(i) ELSE NewLabel(0, i)
        end == IF e.fail >= 0 THEN e.fail + 1 ELSE n
        b == Buf(e.w, e.h, [i \in 1..n |-> made(i - 1)])
        seen(v) == /\ v[2] = IF e.k \in {"mod", "try_mod", "map", "map_t", "try_map", "try_map_t"} THEN -1 ELSE v[1] % e.w
                   /\ v[3] = IF v[2] = -1 THEN -1 ELSE v[1] \div e.w
                   /\ v[4] = IF e.k = "make" THEN -1 ELSE made(v[1]) IN
    /\ e.ok /\ e.nw = e.w /\ e.nh = e.h /\ e.len = n
    /\ CASE e.k \in {"make", "enum"} -> /\ e.n = n
                                        /\ \A j \in DOMAIN e.vis : seen(e.vis[j])
                                        /\ \A j \in DOMAIN e.px : e.px[j][2] = made(e.px[j][1])
         [] e.k = "read" ->
                \A j \in DOMAIN e.at :
                    LET a == e.at[j] IN
                    a[4] = CASE a[1] = "clamped" -> PxClamped(b, a[2], a[3])
                             [] a[1] = "isin" -> IF In(b, a[2], a[3]) THEN 1 ELSE 0
                             [] OTHER -> IF In(b, a[2], a[3]) THEN Px(b, a[2], a[3]) ELSE -9
         [] e.k \in {"put", "enumput", "dataput"} ->      \* px lists every pixel that changed
                LET i == e.y * e.w + e.x IN
                e.px = IF In(b, e.x, e.y) /\ made(i) # e.l THEN << <<i, e.l>> >> ELSE <<>>
         [] OTHER -> \* an edit or map
                /\ e.n = end
                /\ \A j \in DOMAIN e.vis : seen(e.vis[j])
                /\ \A j \in DOMAIN e.px : LET i == e.px[j][1] IN
                      e.px[j][2] = IF e.fail >= 0 /\ (i >= e.fail \/ e.maps) THEN made(i) ELSE NewLabel(made(i), i)
TrNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.op = "wide" THEN WideOk(e) = TRUE /\ slots' = slots
       ELSE IF e.op = "reset" THEN slots' = Fresh
       ELSE LET r == Call(e) IN Matches(e, r) = TRUE /\ slots' = r.slots
TrSpec == TrInit /\ [][TrNext]_<<slots, l>>
TrInv == AllWellFormed
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
