--------------------------------- MODULE TrCompose ---------------------------------
EXTENDS Compose, Wide, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TrInit == Idle /\ l = 1
AsBufs(is) == [i \in 1..Len(is) |-> Buf(is[i].w, is[i].h, is[i].px)]
\* one whole run over images too large to write down: the number of calls, how it ended, and
\* at some positions what the function saw and what was stored
WideOk(e) ==
    LET is == [i \in 1..Len(e.imgs) |-> WideBuf(e.imgs[i].w, e.imgs[i].h)]
        w == UnionW(is)
        n == w * UnionH(is) IN
    /\ e.calls = IF e.fail >= 0 THEN e.fail + 1 ELSE n
    /\ e.end = IF e.fail >= 0 THEN <<1000 + e.fail>> ELSE <<w, UnionH(is)>>
    /\ \A k \in DOMAIN e.at :
          LET a == e.at[k] IN
          /\ a[2] = a[1] % w /\ a[3] = a[1] \div w
          /\ a[4] = ColorsAt(is, e.d, a[2], a[3])
          /\ e.fail < 0 /\ a[6] # -9 => a[6] = a[5]
TrNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       CASE e.op = "reset" -> imgs' = <<>> /\ default' = 0 /\ pos' = 0 /\ out' = <<>> /\ status' = "idle"
         [] e.op = "wide" -> WideOk(e) = TRUE /\ UNCHANGED cvars
         [] e.op = "begin" -> Begin(AsBufs(e.imgs), e.d)
         [] e.op = "visit" -> /\ e.x = PosX /\ e.y = PosY
                              /\ e.colors = ColorsAt(imgs, default, PosX, PosY)
                              /\ Visit(e.ret)
         [] e.op = "visitfail" -> /\ e.x = PosX /\ e.y = PosY
                                  /\ e.colors = ColorsAt(imgs, default, PosX, PosY)
                                  /\ Fail
         \* the call returned: a buffer after Finish, the function's own error after Fail
         [] e.op = "end" -> Finish /\ e.ok /\ e.w = W /\ e.h = H /\ e.px = out
         [] e.op = "enderr" -> /\ status = "failed" /\ e.code = 1000 + pos
                               /\ UNCHANGED cvars
TrSpec == TrInit /\ [][TrNext]_<<cvars, l>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
