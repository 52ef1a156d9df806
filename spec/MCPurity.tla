---------------------------------- MODULE MCPurity ----------------------------------
(* All histories of calls of two operations on two slots; emits them for the real code.   *)
EXTENDS Purity, Json
CONSTANTS N, Contents
VARIABLE hist
vars == <<store, memo, hist>>
Init == store \in {<<1, 2>>} /\ memo = <<>> /\ hist = <<>>
Rec(x) == hist' = Append(hist, x)
Next == Len(hist) < N /\ \E key \in {"a", "b"}, s \in 1..2, r \in Contents :
    \/ \E dst \in 0..2, form \in {"method", "free"} : Returns(key, TRUE, <<s, 3 - s>>, r, dst) /\ Rec(<<form, key, s, dst>>)
    \/ InPlace(key, TRUE, <<s, 3 - s>>, r) /\ Rec(<<"inplace", key, s, s>>)
Spec == Init /\ [][Next]_vars
\* what a call gave once it always gives
Stable == [][\A k \in DOMAIN memo : k \in DOMAIN memo' /\ memo'[k] = memo[k]]_vars
OneSlot == [][store' = store \/ \E s \in 1..2 : store' = [store EXCEPT ![s] = store'[s]]]_vars
ReturnKeeps == [][hist'[Len(hist')][4] = 0 => store' = store]_vars
View == <<hist, store>>
Emit == Len(hist) = N /\ store = <<1, 1>> => PrintT(ToJson([h |-> hist]))
====================================================================================
