--------------------------------- MODULE MCCompose ---------------------------------
EXTENDS Compose, Json
CONSTANTS MaxN, MaxW, MaxH
VARIABLE failAt
vars == <<cvars, failAt>>
Sizes == {<<0, 0>>} \cup {<<w, h>> : w \in 1..MaxW, h \in 1..MaxH}
Image(i, s) == Gen(s[1], s[2], LAMBDA x, y : 100 * i + 10 * y + x + 1)
ImgSets == UNION {{[i \in 1..n |-> Image(i, f[i])] : f \in [1..n -> Sizes]} : n \in 1..MaxN}
Init == Idle /\ failAt \in -1..(MaxW * MaxH - 1)
MCNext ==
    \/ \E is \in ImgSets : status = "idle" /\ Begin(is, 7) /\ UNCHANGED failAt
    \/ pos # failAt /\ Visit(LET cs == ColorsAt(imgs, default, PosX, PosY) IN cs[1] * 3 + cs[Len(cs)] + pos) /\ UNCHANGED failAt
    \/ pos = failAt /\ Fail /\ UNCHANGED failAt
    \/ Finish /\ UNCHANGED failAt
Spec == Init /\ [][MCNext]_vars /\ WF_vars(MCNext)
\* every finished composition has one value per position of the union; a failed one stopped at once
Complete == status = "done" => Len(out) = W * H /\ WellFormed(Result)
Stopped == status = "failed" => Len(out) = failAt
Covers == status = "run" => \A i \in 1..Len(imgs) : imgs[i].w <= W /\ imgs[i].h <= H
Tight == status = "run" => (\E i \in 1..Len(imgs) : imgs[i].w = W) /\ (\E i \in 1..Len(imgs) : imgs[i].h = H)
Terminates == <>(status \in {"done", "failed"})
\* every pixel of every image is given to the function at its own position
AllPixelsSeen == status = "run" /\ pos < W * H => \A i \in 1..Len(imgs) :
    In(imgs[i], PosX, PosY) => ColorsAt(imgs, default, PosX, PosY)[i] = 100 * i + 10 * PosY + PosX + 1
Emit == status \in {"done", "failed"} /\ (failAt = -1 \/ status = "failed") =>
    PrintT(ToJson([imgs |-> imgs, d |-> default, fail |-> failAt]))
================================================================================
