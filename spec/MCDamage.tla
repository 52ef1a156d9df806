--------------------------------- MODULE MCDamage ---------------------------------
(* Damage scripts on a file of abstract segments, and a decoder that reads them in order.    *)
EXTENDS Damage, Json
CONSTANTS N, Data
VARIABLES segs, script
vars == <<segs, script>>
\* a segment: what it is, whether it is whole and sound
S(k) == [k |-> k, whole |-> TRUE, sound |-> TRUE]
File == <<S("head")>> \o [i \in 1..Data |-> S("data")] \o <<S("end")>>
Init == segs = File /\ script = <<>>
Rest(s, i) == SubSeq(s, 1, i - 1)
Act(op, i, j) == Len(script) < N /\ script' = Append(script, [op |-> op, i |-> i, j |-> j])
Cut == \E i \in DOMAIN segs, j \in 0..3 :
         Act("cut", i, j) /\ segs' = IF j = 0 THEN Rest(segs, i) ELSE Rest(segs, i) \o <<[segs[i] EXCEPT !.whole = FALSE]>>
Drop == \E i \in DOMAIN segs : Act("drop", i, 0) /\ segs' = Rest(segs, i) \o SubSeq(segs, i + 1, Len(segs))
Dup == \E i \in DOMAIN segs : Act("dup", i, 0) /\ segs' = SubSeq(segs, 1, i) \o SubSeq(segs, i, Len(segs))
Swap == \E i \in DOMAIN segs, j \in DOMAIN segs : i < j /\ Act("swap", i, j) /\ segs' = [segs EXCEPT ![i] = segs[j], ![j] = segs[i]]
Flip == \E i \in DOMAIN segs, j \in 0..3 : Act("flip", i, j) /\ segs' = [segs EXCEPT ![i].sound = FALSE]
Next == segs # <<>> /\ (Cut \/ Drop \/ Dup \/ Swap \/ Flip)
Spec == Init /\ [][Next]_vars
\* the decoder: a head, then all of the data; "maybe" once it has met unsound bytes
\* a decoder that verifies checksums (guard) never returns changed data
RECURSIVE Read(_, _, _)
Read(s, i, st) ==
    IF st.data = Data THEN (IF st.unsound THEN "maybe" ELSE "image")
    ELSE IF i > Len(s) THEN "error"
    ELSE LET x == s[i] IN
         IF ~x.whole \/ (st.guard /\ ~x.sound) THEN "error"
         ELSE IF x.k = "head" THEN (IF st.head THEN "error" ELSE Read(s, i + 1, [st EXCEPT !.head = TRUE, !.unsound = @ \/ ~x.sound]))
         ELSE IF x.k = "data" THEN (IF ~st.head THEN "error" ELSE Read(s, i + 1, [st EXCEPT !.data = @ + 1, !.unsound = @ \/ ~x.sound]))
         ELSE "error"
Start(guard) == [head |-> FALSE, data |-> 0, unsound |-> FALSE, guard |-> guard]
Result == Read(segs, 1, Start(FALSE))
Guarded == Read(segs, 1, Start(TRUE))
\* guarding changes nothing for sound data, and turns doubt into an error
GuardI == Guarded = IF Result = "maybe" THEN "error" ELSE Result
OnlyCuts == \A i \in DOMAIN script : script[i].op = "cut"
\* a file cut before its data is complete gives no image, a file cut behind it the image
CutI == (OnlyCuts /\ script # <<>>) =>
          (Result = "image") = (Len(segs) > Data /\ \A i \in 1..(Data + 1) : segs[i].whole)
\* only sound data makes an image
SoundI == Result = "image" => \A i \in DOMAIN segs : (segs[i].k = "end" \/ segs[i].sound \/ i > Data + 1)
Emit == script # <<>> => PrintT(ToJson(script))
================================================================================
