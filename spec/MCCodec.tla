--------------------------------- MODULE MCCodec ---------------------------------
(* Histories of saving and loading one pixel in every lossless format, with the worst noise  *)
(* a conversion may add.                                                                     *)
EXTENDS Codec, Json
CONSTANTS N
VARIABLES c, hist, orig
vars == <<c, hist, orig>>
Fmts == DOMAIN Lossless
Pix == {<<p[1], p[2], 5000, p[3], p[4]>> : p \in {<<0, U, U, 1000>>, <<100 * Level + 8200, 4000000, 3000000, 2000000>>, <<77, 8224, 0, 8223>>, <<64 * 12345 + 30, 32, 50 * Level, 64 * 777>>}}
\* nearest stored value
Near(s, st) == LET n == (s + st \div 2) \div st IN n * st
Noisy(v, e) == ClampI(0, v + e, U)
\* luma of a colour as the mean (the weights do not matter here), with noise
Luma(d) == IF d[1] = d[2] /\ d[2] = d[3] THEN d[1] ELSE (d[1] + d[2] + d[3]) \div 3
Stored(fmt, p, e) ==
    LET f == Lossless[fmt]
        st == StepOf(f.bits)
        ch(i) == Noisy(Near(Wanted(f, p, i), st), e)
        a == IF f.alpha THEN Noisy(Near(p[4], st), e) ELSE U
        x == IF fmt = "webp" /\ a <= Noise THEN <<0, 0, 0>> ELSE <<ch(1), ch(2), ch(3)>>
        d == <<x[1], x[2], x[3], a>> IN
    d \o <<Luma(d)>>
Init == \E p \in Pix : c = p /\ orig = p /\ hist = <<>>
Next == Len(hist) < N /\ \E f \in Fmts, e \in {-3, 0, 3} : c' = Stored(f, c, e) /\ hist' = Append(hist, f) /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
LastF == hist'[Len(hist')]
KeepsP == [][hist' # hist => Kept(LastF, c, c')]_vars
\* saving once more in the same or a finer format loses nothing
StableP == [][(hist' # hist /\ hist # <<>>) =>
               LET p == hist[Len(hist)] IN
               (Contained(p, LastF) /\ ~(LastF = "webp" /\ c'[4] <= Noise)) => SameStored(c, c')]_vars
\* nor do any number of saves in one format
Range == \A i \in 1..4 : c[i] >= 0 /\ c[i] <= U
Drift == (Len(hist) > 1 /\ \A k \in DOMAIN hist : hist[k] = hist[1]) => Kept(hist[1], orig, c)
ASSUME \A a, b, d \in Fmts : Contained(a, a) /\ (Contained(a, b) /\ Contained(b, d) => Contained(a, d))
Emit == hist # <<>> /\ orig[1] = 0 => PrintT(ToJson([fmts |-> hist]))
================================================================================
