---------------------------------- MODULE TrNoise ----------------------------------
(* Recorded sessions of noise on an image, and counts over large images.                 *)
EXTENDS Noise, Json, IOUtils, TLC
VARIABLES l, w, h, px
vars == <<l, w, h, px>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
E == Trace[l]
TrInit == l = 1 /\ w = 0 /\ h = 0 /\ px = <<>>
TrNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ CASE E.op = "reset" -> w' = 0 /\ h' = 0 /\ px' = <<>>
         [] E.op = "start" -> w' = E.w /\ h' = E.h /\ px' = E.px
         \* the returning form: the image stays, the result is an outcome
         [] E.op = "noise" -> /\ E.ok /\ E.w = w /\ E.h = h /\ E.px = px /\ E.nw = w /\ E.nh = h
                              /\ (NoiseStep(E.k, E.t, px, E.v, 4) = TRUE)
                              /\ UNCHANGED <<w, h, px>>
         [] E.op = "add_noise" -> /\ E.ok /\ E.w = w /\ E.h = h /\ (NoiseStep(E.k, E.t, px, E.px, 4) = TRUE)
                                  /\ px' = E.px /\ UNCHANGED <<w, h>>
         [] E.op = "stat" -> (StatOk(E) = TRUE) /\ UNCHANGED <<w, h, px>>
TrSpec == TrInit /\ [][TrNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
====================================================================================
