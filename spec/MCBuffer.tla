-------------------------------- MODULE MCBuffer --------------------------------
(* Exhaustive small-scope model of Buffer.  ghost remembers, per slot, a function  *)
(* from coordinates to the last value written there - the property itself; the     *)
(* invariants compare the row-major representation with it after every history.    *)
(* Every history of Depth calls is printed as JSON and replayed on the real code.  *)
EXTENDS Buffer, Json
CONSTANTS MaxW, MaxH, Depth, Mode       \* Mode: "access" or "edit"
VARIABLES hist, ghost

Types == <<"rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch", "img">>
TypeFor(n) == Types[(n % 9) + 1]

Raw(s, w, h, t) == [op |-> "new", s |-> s, t |-> t, w |-> w, h |-> h, mk |-> "raw",
                    px |-> [i \in 1..(w * h) |-> 10 * (s + 1) + i]]
Coords(s) == {<<x, y>> : x \in 0..slots[s].w, y \in 0..slots[s].h}

AccessCalls ==
    UNION {
        {[op |-> "put", s |-> s, x |-> p[1], y |-> p[2], k |-> 100 + Len(hist)] : p \in Coords(s)}
        \cup {[op |-> "enumput", s |-> s, x |-> p[1], y |-> p[2], k |-> 200 + Len(hist)] : p \in Coords(s)}
        \cup {[op |-> "dataput", s |-> s, i |-> i - 1, k |-> 300 + Len(hist)] : i \in 1..Len(slots[s].px)}
        \cup {[op |-> "clone", s |-> s, d |-> 1 - s]}
      : s \in {s \in {0, 1} : Has(s)}}

EditCalls ==
    {[op |-> "edit", s |-> 0, k |-> k, fail |-> -1] : k \in {"mod", "mod_e"}}
    \cup {[op |-> "edit", s |-> 0, k |-> k, fail |-> f] : k \in {"try_mod", "try_mod_e"}, f \in -1..Len(slots[0].px)}
    \cup {[op |-> "map", s |-> 0, d |-> d, k |-> k, fail |-> -1] : d \in {0, 1}, k \in {"map", "map_t", "map_e"}}
    \cup {[op |-> "map", s |-> 0, d |-> d, k |-> k, fail |-> f] :
            d \in {0, 1}, k \in {"try_map", "try_map_t", "try_map_e"}, f \in -1..Len(slots[0].px)}

Firsts ==
    IF Mode = "access"
    THEN {Raw(0, w, h, TypeFor(w * 3 + h)) : w \in 1..MaxW, h \in 1..MaxH}
    ELSE {Raw(0, w, h, TypeFor(w * 3 + h)) : w \in 1..MaxW, h \in 1..MaxH}
         \cup {Raw(0, 0, 0, TypeFor(n)) : n \in 0..8}
         \cup {[op |-> "new", s |-> 0, t |-> TypeFor(w + h), w |-> w, h |-> h, mk |-> m, fail |-> f] :
                  w \in 0..MaxW, h \in 0..MaxH, m \in {"func", "tryfunc"}, f \in -1..(MaxW * MaxH)}

GhostOf(b) == [c \in {<<x, y>> : x \in 0..(b.w - 1), y \in 0..(b.h - 1)} |-> b.px[c[2] * b.w + c[1] + 1]]
NoGhost == <<>>

Init ==
    /\ slots = [s \in {0, 1} |-> NoBuf]
    /\ hist = <<>>
    /\ ghost = [s \in {0, 1} |-> NoGhost]

\* the property, independent of the representation
GhostAfter(c) ==
    CASE c.op = "new" -> IF New(c).slots = slots THEN ghost ELSE [ghost EXCEPT ![c.s] = GhostOf(Created(c))]
      [] c.op \in {"put", "enumput"} ->
            IF <<c.x, c.y>> \in DOMAIN ghost[c.s] THEN [ghost EXCEPT ![c.s][<<c.x, c.y>>] = c.k] ELSE ghost
      [] c.op = "dataput" ->
            [ghost EXCEPT ![c.s] = [p \in DOMAIN ghost[c.s] |->
                IF p[1] + p[2] * slots[c.s].w = c.i THEN c.k ELSE ghost[c.s][p]]]
      [] c.op = "clone" -> [ghost EXCEPT ![c.d] = ghost[c.s]]
      [] OTHER -> [s \in {0, 1} |-> IF Call(c).slots[s].w > 0 THEN GhostOf(Call(c).slots[s]) ELSE NoGhost]

Calls == IF hist = <<>> THEN Firsts
         ELSE IF ~Has(0) THEN {} ELSE IF Mode = "access" THEN AccessCalls ELSE EditCalls

Next ==
    /\ Len(hist) < Depth
    /\ \E c \in Calls :
         /\ Step(c)
         /\ ghost' = GhostAfter(c)
         /\ hist' = Append(hist, c)
Spec == Init /\ [][Next]_<<slots, hist, ghost>>

Emit == Len(hist) = Depth \/ (Len(hist) > 0 /\ ~Has(0)) => PrintT(ToJson(hist))

--------------------------------------------------------------------------------
GhostAgrees == \A s \in {0, 1} : Has(s) /\ slots[s].w > 0 =>
    \A c \in DOMAIN ghost[s] : Px(slots[s], c[1], c[2]) = ghost[s][c]
\* reads of every kind agree with the ghost, refused exactly outside
ReadsAgree == \A s \in {0, 1} : Has(s) /\ slots[s].w > 0 =>
    \A x \in -1..slots[s].w, y \in -1..slots[s].h :
        LET c == [s |-> s, x |-> x, y |-> y]
            inside == <<x, y>> \in DOMAIN ghost[s] IN
        /\ Get(c).ret.ok = inside
        /\ inside => Get(c).ret.v = ghost[s][<<x, y>>]
        /\ Opt(c).ret.v = IF inside THEN ghost[s][<<x, y>>] ELSE -9
        /\ \E p \in DOMAIN ghost[s] :
             /\ Clamped(c).ret.v = ghost[s][p]
             /\ \A q \in DOMAIN ghost[s] :
                  (x - p[1]) * (x - p[1]) + (y - p[2]) * (y - p[2]) <= (x - q[1]) * (x - q[1]) + (y - q[2]) * (y - q[2])
\* action properties: a write changes one cell of one slot, never the size; map keeps its source
OneCell == [][\A s \in {0, 1} :
    LET c == hist'[Len(hist')] IN
    (c.op \in {"put", "enumput", "dataput"} =>
        /\ slots'[s].w = slots[s].w /\ slots'[s].h = slots[s].h
        /\ (s # c.s => slots'[s] = slots[s])
        /\ \A i, j \in 1..Len(slots[s].px) :
             slots'[s].px[i] # slots[s].px[i] /\ slots'[s].px[j] # slots[s].px[j] => i = j)]_<<slots, hist, ghost>>
MapKeepsSource == [][LET c == hist'[Len(hist')] IN
    c.op = "map" /\ c.d # c.s => slots'[c.s] = slots[c.s]]_<<slots, hist, ghost>>
FailedMapMakesNothing == [][LET c == hist'[Len(hist')] IN
    c.op = "map" /\ c.fail >= 0 /\ c.fail < Len(slots[0].px) => slots' = slots]_<<slots, hist, ghost>>
FailedEditKeepsTail == [][LET c == hist'[Len(hist')] IN
    c.op = "edit" /\ c.fail >= 0 =>
        \A i \in 1..Len(slots[0].px) : i > c.fail /\ c.fail < Len(slots[0].px) => slots'[0].px[i] = slots[0].px[i]]_<<slots, hist, ghost>>
================================================================================
