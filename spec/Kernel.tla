--------------------------------- MODULE Kernel ---------------------------------
(* Neighbourhood windows and convolution over a buffer with replicated edges (K01).*)
EXTENDS Img

\* the n x n window around (x, y): rows of columns, 1-based sequences
Window(b, n, x, y) ==
    [r \in 1..n |-> [q \in 1..n |-> PxClamped(b, x - (n \div 2) + q - 1, y - (n \div 2) + r - 1)]]

\* kernels: [w, h, k], k row-major integer weights
RECURSIVE SumUpTo(_, _)
SumUpTo(F, n) == IF n = 0 THEN 0 ELSE F[n] + SumUpTo(F, n - 1)
Sum(F) == SumUpTo(F, Len(F))

\* channel values are given per label by ch[label] (a 4-tuple); pixels of b are labels
ConvAt(b, k, Ch(_, _), c, x, y) ==
    Sum([i \in 1..Len(k.k) |->
        k.k[i] * Ch(PxClamped(b, x + ((i - 1) % k.w) - (k.w \div 2), y + ((i - 1) \div k.w) - (k.h \div 2)), c)])
Conv(b, k, Ch(_, _), c) == Gen(b.w, b.h, LAMBDA x, y : ConvAt(b, k, Ch, c, x, y))
================================================================================
