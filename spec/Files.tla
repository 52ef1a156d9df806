---------------------------------- MODULE Files ----------------------------------
(* Image files in a directory: which format is written, which one is recognised.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Formats == {"jpeg", "png", "gif", "bmp", "ico", "webp"}
None == ""
Unknown == "unknown"

Starts(b, p) == Len(b) >= Len(p) /\ \A i \in DOMAIN p : b[i] = p[i]
\* by the first (up to 12) bytes
Detect(b) ==
    CASE Starts(b, <<255, 216, 255>>) -> "jpeg"
      [] Starts(b, <<137, 80, 78, 71, 13, 10, 26, 10>>) -> "png"
      [] Starts(b, <<71, 73, 70, 56, 55, 97>>) \/ Starts(b, <<71, 73, 70, 56, 57, 97>>) -> "gif"
      [] Starts(b, <<66, 77>>) -> "bmp"
      [] Starts(b, <<0, 0, 1, 0>>) -> "ico"
      [] Starts(b, <<82, 73, 70, 70>>) /\ Len(b) >= 12 /\ SubSeq(b, 9, 12) = <<87, 69, 66, 80>> -> "webp"
      [] OTHER -> Unknown

Upper == <<"A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O", "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z">>
LowerC == <<"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z">>
Down(c) == IF \E i \in 1..26 : Upper[i] = c THEN LowerC[CHOOSE i \in 1..26 : Upper[i] = c] ELSE c
\* a name is a sequence of characters; the extension is what follows the last dot,
\* unless the name starts with its only dot
Dots(n) == {i \in DOMAIN n : n[i] = "."}
LastDot(n) == CHOOSE i \in Dots(n) : \A j \in Dots(n) : j <= i
HasExt(n) == \E i \in Dots(n) : i > 1
ExtOf(n) == [k \in 1..(Len(n) - LastDot(n)) |-> Down(n[LastDot(n) + k])]
FormatOfExt(x) ==
    CASE x = <<"j", "p", "g">> \/ x = <<"j", "p", "e", "g">> -> "jpeg"
      [] x = <<"p", "n", "g">> -> "png" [] x = <<"g", "i", "f">> -> "gif" [] x = <<"b", "m", "p">> -> "bmp"
      [] x = <<"i", "c", "o">> -> "ico" [] x = <<"w", "e", "b", "p">> -> "webp"
      [] OTHER -> Unknown
FormatOfName(n) == IF HasExt(n) /\ n # <<".", ".">> THEN FormatOfExt(ExtOf(n)) ELSE Unknown

\* reading a file, reading data in memory
ReadFormat(b, n) == IF Detect(b) # Unknown THEN Detect(b) ELSE FormatOfName(n)
\* writing
WriteFormat(n, requested) == IF requested # None THEN requested ELSE FormatOfName(n)
================================================================================
