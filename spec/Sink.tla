---------------------------------- MODULE Sink ----------------------------------
(* A destination that may fail.  It has taken `got` bytes; a write of n bytes                *)
(*   takes some of them (0 < k <= n), takes none ("zero"), is interrupted, or fails.         *)
(* A fault plan: [at, kind, chunk, hiccup, flush]: from byte `at` on (-1: never) calls end   *)
(* with `kind`; at most `chunk` bytes are taken at once; every hiccup-th call is            *)
(* interrupted (0: none); flushing fails.                                                   *)
EXTENDS Integers, Sequences, TLC
Kinds == {"error", "zero", "once"}      \* once: the first call fails, later ones work again
\* what a call does: bytes taken, or what went wrong
Room(p, got) == IF p.at < 0 THEN 1000000000 ELSE p.at - got
Call(p, got, n, calls, failed) ==
    IF p.hiccup > 0 /\ calls % p.hiccup = p.hiccup - 1 THEN [taken |-> 0, res |-> "interrupted"]
    ELSE IF p.at >= 0 /\ got >= p.at /\ ~(p.kind = "once" /\ failed)
         THEN [taken |-> 0, res |-> IF p.kind = "zero" THEN "zero" ELSE "error"]
    ELSE LET a == (IF n < p.chunk THEN n ELSE p.chunk)
             b == IF (p.kind = "once" /\ failed) \/ Room(p, got) > a THEN a ELSE Room(p, got) IN
         [taken |-> b, res |-> "taken"]
Min2(a, b) == IF a < b THEN a ELSE b
================================================================================
