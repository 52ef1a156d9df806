--------------------------------- MODULE MCFiles ---------------------------------
(* Histories of writing foreign files, saving and loading.                                   *)
EXTENDS Files, Json
CONSTANTS N, Names, Requests, Images, Foreign
VARIABLES fs, hist, res
vars == <<fs, hist, res>>
\* names as character sequences
Chars == [apng |-> <<"a", ".", "p", "n", "g">>, ajpg |-> <<"a", ".", "J", "p", "G">>, cnone |-> <<"c">>, dtmp |-> <<"d", ".", "t", "m", "p">>,
          hidden |-> <<".", "p", "n", "g">>, wwebp |-> <<"w", ".", "x", ".", "W", "E", "B", "P">>, dir |-> <<"s", ".", "b", "m", "p">>,
          gone |-> <<"x", ".", "g", "i", "f">>, full |-> <<"f", ".", "i", "c", "o">>]
Place(n) == CASE n = "dir" -> "dir" [] n = "gone" -> "noparent" [] n = "full" -> "full" [] OTHER -> "ok"
Sig == [jpeg |-> <<255, 216, 255, 224>>, png |-> <<137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13>>, gif |-> <<71, 73, 70, 56, 57, 97>>,
        bmp |-> <<66, 77, 1, 1>>, ico |-> <<0, 0, 1, 0, 1, 0>>, webp |-> <<82, 73, 70, 70, 9, 9, 9, 9, 87, 69, 66, 80>>,
        junk |-> <<1, 2, 3>>, empty |-> <<>>, cursor |-> <<0, 0, 2, 0>>]
NoFile == [real |-> "nothing", sig |-> <<>>, pic |-> 0]
Init == fs = [n \in Names |-> NoFile] /\ hist = <<>> /\ res = "ok"
Step(x) == Len(hist) < N /\ hist' = Append(hist, x)
DoSave(n, f, i) ==
    LET w == WriteFormat(Chars[n], f) IN
    /\ Step([op |-> "save", name |-> n, format |-> f, image |-> i])
    /\ IF w = Unknown \/ Place(n) # "ok" THEN res' = "failed" /\ UNCHANGED fs
       ELSE res' = "ok" /\ fs' = [fs EXCEPT ![n] = [real |-> w, sig |-> Sig[w], pic |-> i]]
DoWrite(n, k) == /\ Place(n) = "ok" /\ Step([op |-> "write", name |-> n, kind |-> k]) /\ res' = "ok"
                 /\ fs' = [fs EXCEPT ![n] = [real |-> IF k \in Formats THEN k ELSE IF k = "cursor" THEN "ico" ELSE None, sig |-> Sig[k], pic |-> 9]]
DoLoad(n) == /\ Step([op |-> "load", name |-> n]) /\ UNCHANGED fs
             /\ LET f == ReadFormat(fs[n].sig, Chars[n]) IN
                res' = IF Place(n) # "ok" \/ fs[n] = NoFile THEN "failed" ELSE IF f = Unknown THEN Unknown ELSE IF f = fs[n].real THEN "ok" ELSE "failed"
Next == \/ \E n \in Names, f \in Requests, i \in Images : DoSave(n, f, i)
        \/ \E n \in Names, k \in Foreign : DoWrite(n, k)
        \/ \E n \in Names : DoLoad(n)
Spec == Init /\ [][Next]_vars
Last == hist'[Len(hist')]
\* a failed save changes nothing, a successful one only its own file
SaveP == [][(hist' # hist /\ Last.op = "save") =>
              /\ (res' # "ok" => fs' = fs)
              /\ \A n \in Names : n # Last.name => fs'[n] = fs[n]]_vars
\* what was saved can be loaded whatever its name
LoadP == [][(hist' # hist /\ Last.op = "load" /\ fs[Last.name].real \in Formats) =>
              (res' = "ok" \/ fs[Last.name].sig = Sig["cursor"])]_vars
NeverP == \A n \in Names : Place(n) # "ok" => fs[n] = NoFile
ASSUME \A f \in Formats : Detect(Sig[f]) = f
\* no content has two signatures, and a signature needs all of its bytes
ASSUME \A f \in Formats, g \in Formats : f # g => \A k \in 2..Len(Sig[g]) : Detect(SubSeq(Sig[g], 1, k)) # f
ASSUME FormatOfName(<<".", "p", "n", "g">>) = Unknown /\ FormatOfName(<<"p", "n", "g">>) = Unknown
ASSUME FormatOfName(<<"a", ".">>) = Unknown /\ FormatOfName(<<"a", ".", "p", "n", "g", ".">>) = Unknown
Emit == Len(hist) = N => PrintT(ToJson(hist))
================================================================================
