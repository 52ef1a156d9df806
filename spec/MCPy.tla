----------------------------------- MODULE MCPy -----------------------------------
(* Programs of N calls over three names: every call, every choice of left out arguments.     *)
EXTENDS PyApi, Json
CONSTANTS N, Calls
VARIABLES slots, prog
vars == <<slots, prog>>
Vars == {"a", "b", "c"}
\* a library: what comes back is named after the call (a made-up outcome)
Lib(f, a, ins) == [k |-> "ok", img |-> IF f \in InPlace \/ f \in DOMAIN Saved THEN "" ELSE "img", val |-> "", self |-> IF f \in InPlace THEN "edited" ELSE IF ins = <<>> THEN "" ELSE ins[1]]
Given(f) == [1..Arity(f) -> {"", "g"}]
Allowed(f) == {g \in Given(f) : \A i \in 1..Req(f) : g[i] = "g"}
Tuples(f) == UNION {[1..n -> Vars] : n \in Inputs(f)}
Usable(f) == {t \in Tuples(f) : (\A i \in DOMAIN t : t[i] \in DOMAIN slots) /\ (f = "apply_palette_in_place" => t[1] # t[2])}
Init == slots = [x \in {"a", "b"} |-> x] /\ prog = <<>>
Step(f, g, ins, dst) ==
    LET r == Lib(LibName(f), LibArgs(f, g), Held(slots, ins)) IN
    /\ prog' = Append(prog, [f |-> f, given |-> [i \in DOMAIN g |-> g[i] # ""], ins |-> ins, dst |-> dst])
    /\ slots' = AfterCall(slots, f, ins, dst, IF f \in InPlace THEN r ELSE [r EXCEPT !.self = IF ins = <<>> THEN "" ELSE slots[ins[1]]])
Next == Len(prog) < N /\ \E f \in Calls : \E g \in Allowed(f), ins \in Usable(f), dst \in Vars : Step(f, g, ins, dst)
Spec == Init /\ [][Next]_vars
Latest == prog'[Len(prog')]
\* only the calls meant to edit change an image in place; a result only replaces what its name held
KeepP == [][\A x \in DOMAIN slots : slots'[x] # slots[x] => \/ x = Latest.dst
                                                            \/ Latest.f \in InPlace /\ x = Latest.ins[1]]_vars
\* nothing is left out of a library call, and what was given is passed on
FullInv == \A f \in Names : \A g \in Allowed(f) :
    LET a == Filled(f, g) IN /\ Len(a) = Arity(f)
                             /\ \A i \in DOMAIN a : a[i] # "" /\ (g[i] # "" => a[i] = g[i])
ColorInv == \A ill \in {"", "D65", "D50", "E", "X"}, obs \in {"", "2", "10", "3"} :
    LET c == ColorCall("Rgb", "to_lab", <<ill, obs>>) IN
    /\ (c.a[1] = "unknown") <=> (ill = "X" \/ obs = "3")
    /\ c.a[1] = MadeType("Lab", ill, obs)
TypeInv == \A x \in DOMAIN slots : slots[x] \in {"a", "b", "img", "edited"}
Emit == Len(prog) = N => PrintT(ToJson(prog))
Once == prog # <<>> \/ (FullInv /\ ColorInv)
================================================================================
