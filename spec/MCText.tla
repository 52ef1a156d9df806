--------------------------------- MODULE MCText ---------------------------------
(* Images grow pixel by pixel; colours around the tolerances; every name of every option.   *)
EXTENDS Text, Json, FiniteSets
CONSTANTS N
VARIABLES px, x
vars == <<px, x>>
Ch == {0, 3, 4, 5, 9, Q - 5, Q - 4, Q, Q + 4, Q + 5}
Al == {Q, Q - 4, Q - 5, Q + 4, 0}
Pix == {<<b, b, b + d, a>> : b \in {0, 65536, Q}, d \in {-9, -4, 0, 3, 40000}, a \in Al}
Vals == {q \in -600..600 : q % 7 = 0} \cup {k * 4096 + d : k \in -65..65, d \in {-1, 0, 1}} \cup {Q - 1, Q, Q + 1, 2 * Q, 5 * Q - 13, -3 * Q + 6}
AllNames == UNION {{Modes[o][i][1] : i \in DOMAIN Modes[o]} : o \in Options} \cup {"", "none", "Default", "RGB", " rgb", "l8 "}
Init == px = <<>> /\ x = <<"start">>
Next == \/ x[1] \in {"start", "grow"} /\ Len(px) < N /\ \E c \in Pix : px' = Append(px, c) /\ x' = <<"grow">>
        \/ x = <<"start">> /\ px' = px /\ \E q \in Vals : x' = <<"val", q>>
        \/ x = <<"start">> /\ px' = px /\ \E a \in Ch, b \in Ch, i \in 1..4 : x' = <<"pair", a, b, i>>
        \/ x = <<"start">> /\ px' = px /\ \E o \in Options, n \in AllNames : x' = <<"name", o, n>>
Spec == Init /\ [][Next]_vars
A == [i \in 1..4 |-> IF i = x[4] THEN x[2] ELSE 65536]
B == [i \in 1..4 |-> IF i = x[4] THEN x[3] ELSE 65536]
EqInv == x[1] = "pair" => SameColor(A, A) /\ SameColor(A, B) = SameColor(B, A) /\ (SameColor(A, B) <=> AbsI(x[2] - x[3]) <= Eps)
\* an image once transparent (coloured) stays so when it grows
Grows == [][x'[1] = "grow" => /\ AnyTransparent(px) => AnyTransparent(px')
                              /\ ~GreyMayBe(px, TRUE) => ~GreyMayBe(px', TRUE)]_vars
Class == x[1] = "grow" => /\ GreyMayBe(px, TRUE) \/ GreyMayBe(px, FALSE)
                          /\ AnyTransparent(px) = (Cardinality({i \in DOMAIN px : Transparent(px[i])}) > 0)
\* rounding: never more than half a step off (plus float noise), one candidate except at a tie
Round == x[1] = "val" => LET r == Rounded(x[2]) IN
            /\ r # {}
            /\ \A k \in r : AbsI((k - (x[2] \div 8192) * 625) * 8192 - (x[2] % 8192) * 625) <= 4104 + AbsI(x[2]) \div 20000
            /\ (Cardinality(r) = 1 \/ AbsI((((x[2] % 8192) * 625) % 8192) - 4096) <= 8 + AbsI(x[2]) \div 20000)
            /\ x[2] % Q = 0 => Texts(x[2]) = {(IF x[2] < 0 THEN "-" ELSE "") \o ToString(AbsI(x[2]) \div Q) \o ".0"}
            /\ x[2] > 0 => Texts(-x[2]) \subseteq {"-" \o t : t \in Texts(x[2])} \cup {"0.0"}
PrintC == x[1] = "val" => \A t \in Printed("rgb", <<x[2], 0, Q, Q>>) : \E v \in Texts(x[2]) : t = "rgb(" \o v \o ", 0.0, 1.0)"
PrintA == x[1] = "val" => LET c == <<0, 0, 0, x[2]>> IN
            Printed("xyz", c) = IF Transparent(c) THEN {"xyza(0.0, 0.0, 0.0, " \o v \o ")" : v \in Texts(x[2])} ELSE {"xyz(0.0, 0.0, 0.0)"}
\* a name stands for at most one mode, every mode has a name, unknown ones are refused and named
Names == x[1] = "name" => /\ Cardinality(Named(x[2], x[3])) <= 1
                          /\ Parsed(x[2], x[3])[1] <=> \E i \in DOMAIN Modes[x[2]] : Modes[x[2]][i][1] = x[3]
Emit == /\ x[1] = "pair" => PrintT(ToJson([k |-> "equal", a |-> A, b |-> B]))
        /\ x[1] = "val" => PrintT(ToJson([k |-> "print", q |-> x[2]]))
        /\ x[1] = "name" => PrintT(ToJson([k |-> "parse", opt |-> x[2], text |-> x[3]]))
        /\ x[1] = "grow" /\ (Len(px) < 2 \/ (px[1][1] = 65536 /\ px[2][4] = Q)) => PrintT(ToJson([k |-> "image", px |-> px]))
================================================================================
