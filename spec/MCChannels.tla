--------------------------------- MODULE MCChannels ---------------------------------
(* All short histories of calls on one colour.  ghost remembers per channel only what was *)
(* last stored there: the channels are independent.                                      *)
EXTENDS Channels, Json
CONSTANTS Depth, Rgb
VARIABLES c, ghost, hist
vars == <<c, ghost, hist>>
Firsts == {[op |-> "new3", v |-> <<4, 16, -8>>], [op |-> "new4", v |-> <<4, 16, -8, 2>>], [op |-> "fromfn", v |-> <<12, 0, 8, 6>>], [op |-> "default"]}
          \cup (IF Rgb THEN {[op |-> "const", name |-> n] : n \in DOMAIN Consts} ELSE {})
Calls == {[op |-> o, i |-> i, x |-> x] : o \in {"set", "data", "with"}, i \in 1..4, x \in {1 + 8 * Len(hist), -24}}
         \cup {[op |-> "map"]} \cup {[op |-> "trymap", fail |-> f] : f \in 0..3}
         \cup (IF Rgb THEN {[op |-> o] : o \in {"mod", "free", "clamped", "extreme"}} ELSE {})
Init == c = Black /\ ghost = Black /\ hist = <<>>
GhostOf(e, r) == CASE e.op \in {"set", "data"} -> [i \in 1..4 |-> IF i = e.i THEN e.x ELSE ghost[i]]
                   [] e.op \in {"with", "map", "trymap", "free", "clamped", "extreme"} -> ghost
                   [] e.op = "mod" -> [i \in 1..4 |-> IF i < 4 THEN F(ghost[i]) ELSE ghost[i]]
                   [] OTHER -> [i \in 1..4 |-> r.c[i]]
Next == /\ Len(hist) < Depth
        /\ \E f \in IF hist = <<>> THEN Firsts ELSE Calls : LET e == f @@ [unit |-> Rgb] IN LET r == Call(c, e) IN c' = r.c /\ ghost' = GhostOf(e, r) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars
Independent == c = ghost
Last == hist[Len(hist)]
\* a map keeps alpha, sees at most three values, and nothing but the colour
Maps == hist # <<>> => LET r == Call(c, Last) IN
    /\ Last.op \in {"map", "free", "clamped"} => (r.out[4] = c[4] \/ (Last.op = "map" /\ Rgb))  /\ r.c = c
    /\ Len(Seen(c, Last)) <= 3
    /\ Last.op = "trymap" => r.c = c /\ (Last.fail = 0 \/ (Len(r.out) = 1 /\ Len(Seen(c, Last)) = Last.fail))
    /\ Last.op = "clamped" => \A i \in 1..3 : r.out[i] \in 0..One
    /\ Last.op = "extreme" => r.out[1] <= r.out[2]
\* setting twice is setting once; the order of settings of different channels does not matter
Laws == \A i, j \in 1..4 : LET s(d, k, x) == Call(d, [unit |-> Rgb, op |-> "set", i |-> k, x |-> x]).c IN
    /\ s(s(c, i, 3), i, 5) = s(c, i, 5)
    /\ i # j => s(s(c, i, 3), j, 5) = s(s(c, j, 5), i, 3)
    /\ Call(c, [unit |-> Rgb, op |-> "with", i |-> i, x |-> 5]).out = s(c, i, 5)
Emit == Len(hist) = Depth => PrintT(ToJson([rgb |-> Rgb, calls |-> hist]))
=====================================================================================
