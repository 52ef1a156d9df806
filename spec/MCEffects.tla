---------------------------------- MODULE MCEffects ----------------------------------
(* The drawing pipeline as a machine, from every small picture; laws of every step.     *)
EXTENDS Effects, FiniteSets, Json
CONSTANTS MaxW, MaxH, Vals, Radii
VARIABLES c, step, pic, ink
vars == <<c, step, pic, ink>>
Color4(v) == <<v * 4096, P - v * 4096, (v * 4096) \div 2, P>>       \* v of 256
OrigPx == [i \in 1..(c.w * c.h) |-> Color4(c.v[i])]
Init == /\ c \in UNION {[w : {w}, h : {h}, r : Radii, v : [1..(w * h) -> Vals]] : w \in 1..MaxW, h \in 1..MaxH}
        \* of the largest pictures those with at most two dark pixels
        /\ c.w * c.h > 6 => Cardinality({i \in DOMAIN c.v : c.v[i] = 0}) <= 2
        /\ step = "original" /\ pic = OrigPx /\ ink = <<>>
Pos(i) == <<(i - 1) % c.w, (i - 1) \div c.w>>
Blurred(px, r, sg) == LET b == TLCEval(CoarseBuf(c.w, c.h, px)) IN
    [i \in DOMAIN px |-> [k \in 1..4 |-> 64 * BlurAt(b, r, sg, Pos(i)[1], Pos(i)[2], k)]]
Sharpened(px, r, sg, f) == LET b == TLCEval(CoarseBuf(c.w, c.h, px)) IN
    [i \in DOMAIN px |-> [k \in 1..4 |-> 64 * UnsharpAt(b, r, sg, f, Pos(i)[1], Pos(i)[2], k)]]
Map(px, F(_)) == [i \in DOMAIN px |-> F(px[i])]
GreyPx(v) == <<v, v, v, P>>
Go(from, to, px) == step = from /\ step' = to /\ pic' = TLCEval(px) /\ UNCHANGED <<c, ink>>
Lift == Go("original", "lifted", Map(pic, LAMBDA p : <<Lifted(p[1]), Lifted(p[2]), Lifted(p[3]), p[4]>>))
\* the surroundings are kept aside
Surround == step = "lifted" /\ step' = "surrounded" /\ ink' = TLCEval(Blurred(pic, c.r, DefaultSigma(c.r))) /\ UNCHANGED <<c, pic>>
Soften == Go("surrounded", "soft", Blurred(pic, 1, 8))
Outline == Go("soft", "outlined", Map(TLCEval(Sharpened(pic, 4, 80, 64)), LAMBDA p : <<Outlined(p[1]), Outlined(p[2]), Outlined(p[3]), p[4]>>))
Ink1 == /\ step = "outlined" /\ step' = "inked" /\ UNCHANGED c
        /\ pic' = [i \in DOMAIN pic |-> GreyPx(Stroke(pic[i], ink[i]))]
        /\ ink' = [i \in DOMAIN pic |-> <<pic[i], ink[i]>>]

Sharpen == Go("inked", "sharpened", Sharpened(pic, 2, 16, 16))
Clean == Go("sharpened", "gray", LET b == Buf(c.w, c.h, pic) IN [i \in DOMAIN pic |-> GreyPx(Cleaned(b, Pos(i)[1], Pos(i)[2]))])
Colour == Go("gray", "colored", [i \in DOMAIN pic |-> LET q == Limited(OrigPx[i], pic[i][1]) IN <<q[1], q[2], q[3], OrigPx[i][4]>>])
Next == Lift \/ Surround \/ Soften \/ Outline \/ Ink1 \/ Sharpen \/ Clean \/ Colour \/ (step = "colored" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
\* ---- laws ----------------------------------------------------------------------------
InBounds == \A i \in DOMAIN pic : \A k \in 1..3 : pic[i][k] >= -2 /\ pic[i][k] <= P + 2
LiftLaw == step = "lifted" => \A i \in DOMAIN pic : \A k \in 1..3 : pic[i][k] >= P \div 5 /\ pic[i][k] + 1 >= OrigPx[i][k]
GreyLaw == step \in {"inked", "sharpened", "gray"} =>
    \A i \in DOMAIN pic : pic[i][1] = pic[i][2] /\ pic[i][2] = pic[i][3] /\ Close(pic[i][4], P, 64)
\* an ink value is full or below a little more than a third; the permitted values include the defined one
InkLaw == step = "inked" => \A i \in DOMAIN pic :
    /\ pic[i][1] = P \/ pic[i][1] <= (9 * P) \div 25 + 8
    /\ StrokeOk(ink[i][1], ink[i][2], pic[i][1])
\* a picture of one colour has no outlines unless it is so dark that the lifted contrast dims it
FlatLaw == (step = "gray" /\ \A i \in DOMAIN c.v : c.v[i] = c.v[1]) => \A i \in DOMAIN pic : pic[i] = pic[1]
CleanLaw == step = "gray" => LET b == Buf(c.w, c.h, pic) IN \A i \in DOMAIN pic : ~Lone(b, Pos(i)[1], Pos(i)[2])
LightOf(p) == (Max3(p[1], p[2], p[3]) + Min3(p[1], p[2], p[3])) \div 2
ColourLaw == step = "colored" => \A i \in DOMAIN pic : LightOf(pic[i]) <= LightOf(OrigPx[i]) + 4
ASSUME LimitedLaw == \A v \in Vals : LET p == Color4(v) IN
    /\ \A k \in 1..3 : Close(Limited(p, P)[k], p[k], 16)
    /\ \A k \in 1..3 : Close(Limited(p, 0)[k], 0, 2)
ASSUME HueLaw == \A v \in Vals, h \in {0, P, 2 * P, 3 * P, 4 * P, 5 * P} :
    LET p == Hued(Color4(v), h) IN Close(Max3(p[1], p[2], p[3]), Max3(Color4(v)[1], Color4(v)[2], Color4(v)[3]), 8)
ASSUME TintLaw == \A g \in {0, 1000, P \div 2, P}, s \in {0, P \div 3, P} :
    LET p == Tinted(g, s) IN p[1] >= p[2] /\ Close(p[2], p[3], 2) /\ Close(p[1], g, 2)
ASSUME RichLaw == \A v \in Vals : LET p == Enriched(<<v * 4096, v * 4096, v * 4096>>) IN
    Close(p[1], p[2], 8) /\ p[1] >= v * 4096 - 16
Emit == step = "original" => PrintT(ToJson(c))
======================================================================================
