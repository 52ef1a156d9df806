----------------------------------- MODULE Purity -----------------------------------
(* Operations as pure functions.  Slots hold images (content identities); a returning call *)
(* leaves every slot as it is and its result is a function of the call and the contents of  *)
(* its arguments; an in-place call replaces exactly its own slot by that same result.       *)
EXTENDS Integers, Sequences, TLC
VARIABLES store, memo
CallKey(key, ins) == <<key>> \o [i \in DOMAIN ins |-> store[ins[i]]]
Known(k, r) == k \in DOMAIN memo => memo[k] = r
Learn(k, r) == memo' = IF k \in DOMAIN memo THEN memo ELSE memo @@ (k :> r)
\* a returning call on the slots ins with result r, stored in slot dst (0: dropped)
Returns(key, pure, ins, r, dst) ==
    LET k == CallKey(key, ins) IN
    /\ pure => Known(k, r)
    /\ IF pure THEN Learn(k, r) ELSE memo' = memo
    /\ store' = IF dst = 0 THEN store ELSE [store EXCEPT ![dst] = r]
InPlace(key, pure, ins, r) ==
    LET k == CallKey(key, ins) IN
    /\ pure => Known(k, r)
    /\ IF pure THEN Learn(k, r) ELSE memo' = memo
    /\ store' = [store EXCEPT ![ins[1]] = r]
====================================================================================
