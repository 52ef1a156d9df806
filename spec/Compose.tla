---------------------------------- MODULE Compose ----------------------------------
(* Composing images (C01) as a process: it walks over the union area in row-major   *)
(* order, calls the combining function once per position with one colour per image, *)
(* stores its value, and stops at the first error.                                  *)
EXTENDS Img
VARIABLES imgs, default, pos, out, status     \* status: "idle", "run", "done", "failed"
cvars == <<imgs, default, pos, out, status>>

MaxOf(f, n) == LET S == {f[i] : i \in 1..n} IN CHOOSE m \in S : \A v \in S : v <= m
UnionW(is) == MaxOf([i \in 1..Len(is) |-> is[i].w], Len(is))
UnionH(is) == MaxOf([i \in 1..Len(is) |-> is[i].h], Len(is))
W == UnionW(imgs)
H == UnionH(imgs)
PosX == pos % W
PosY == pos \div W
\* what the function is given: each image's own pixel, or the default where it has none
ColorsAt(is, d, x, y) == [i \in 1..Len(is) |-> IF In(is[i], x, y) THEN Px(is[i], x, y) ELSE d]

Idle == imgs = <<>> /\ default = 0 /\ pos = 0 /\ out = <<>> /\ status = "idle"
Begin(is, d) ==
    /\ status \in {"idle", "done", "failed"}
    /\ imgs' = is /\ default' = d /\ pos' = 0 /\ out' = <<>> /\ status' = "run"
\* the function returns v for the current position
Visit(v) ==
    /\ status = "run" /\ pos < W * H
    /\ out' = Append(out, v) /\ pos' = pos + 1
    /\ UNCHANGED <<imgs, default, status>>
\* the function fails at the current position
Fail ==
    /\ status = "run" /\ pos < W * H
    /\ status' = "failed"
    /\ UNCHANGED <<imgs, default, pos, out>>
Finish ==
    /\ status = "run" /\ pos = W * H
    /\ status' = "done"
    /\ UNCHANGED <<imgs, default, pos, out>>
Result == Buf(W, H, out)
================================================================================
