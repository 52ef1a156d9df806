--------------------------------- MODULE MCPalette ---------------------------------
(* All palettes of up to N entries and all pixels over a small set of colours.           *)
EXTENDS Palette, Json, TLC
CONSTANTS N
VARIABLE x
C(r, g, b, a) == <<4096 * r, 4096 * g, 4096 * b, 4096 * a>>
Entries == {C(0, 0, 0, 256), C(256, 256, 256, 256), C(128, 128, 128, 100), C(200, 40, 10, 256), C(10, 120, 201, 256), C(10, 120, 201, 60), C(0, 250, 2, 0)}
Sources == {C(0, 0, 0, 256), C(90, 90, 90, 0), C(250, 130, 20, 256), C(10, 120, 201, 100), C(5, 180, 60, 256), C(240, 0, 250, 256), C(1, 1, 60, 256)}
Palettes == UNION {[1..n -> Entries] : n \in 0..N}
Init == x = <<"start">>
Next == \/ x = <<"start">> /\ \E p \in Palettes : x' = <<"palette", p>>
        \/ x[1] = "palette" /\ \E c \in Sources : x' = <<"apply", x[2], c>>
Spec == Init /\ [][Next]_x
On == x[1] = "apply"
Res == Applied(x[2], x[3])
Member == On /\ x[2] # <<>> => \E k \in DOMAIN x[2] : Res = x[2][k] /\ First(x[2], k)
Again == On => SameRgb(Applied(x[2], Res), Res) /\ (x[2] # <<>> => Applied(x[2], Res) = Res)
Empty == On /\ x[2] = <<>> => Res = <<0, 0, 0, 0>>
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* the layout of the palette does not matter for the colour, repeating it not even for the alpha
Layout == On /\ x[2] # <<>> => SameRgb(Applied(Rev(x[2]), x[3]), Res) /\ Applied(x[2] \o x[2], x[3]) = Res
Own == On => LET own == {k \in DOMAIN x[2] : SameRgb(x[2][k], x[3])} IN own # {} => SameRgb(Res, x[3])
Allowed == On /\ x[2] # <<>> => LET labs == [k \in DOMAIN x[2] |-> LabAt(x[2][k])] IN
             \E k \in May(labs, x[2], LabAt(x[3]), 0) : x[2][k] = Res
Emit == On /\ Len(x[2]) <= 2 => PrintT(ToJson([pal |-> x[2], px |-> <<x[3]>>]))
====================================================================================
