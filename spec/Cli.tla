----------------------------------- MODULE Cli -----------------------------------
(* The command line: from arguments to a queue of commands.                                  *)
(* An argument is [s |-> its text, c |-> the characters of its text].                        *)
EXTENDS Queue
Plain == {"silent", "invert"}
File1 == {"open", "save"}
Num1 == {"gamma", "brightness", "contrast", "saturation", "stretch-saturation", "lightness", "hue-rotate", "rotate",
         "random-noise", "salt-n-pepper-noise", "rgb-noise"}
Num2 == {"brightness-contrast"}
Num3 == {"level"}
Word == {"grayscale"}
Options == Plain \union File1 \union Num1 \union Num2 \union Num3 \union Word
Intensities == {"average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue"}

(* ---- numbers: [+-] (inf | infinity | nan | digits [. digits] [e [+-] digits]) ---- *)
Digit == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Rest(s, k) == SubSeq(s, k, Len(s))
LowerSeq(s) == [i \in DOMAIN s |-> Down(s[i])]
Unsigned(s) == IF s # <<>> /\ s[1] \in {"+", "-"} THEN Rest(s, 2) ELSE s
AllDigits(s) == \A i \in DOMAIN s : s[i] \in Digit
FirstOf(s, set) == IF \E i \in DOMAIN s : s[i] \in set THEN CHOOSE i \in DOMAIN s : s[i] \in set /\ \A j \in 1..(i - 1) : s[j] \notin set ELSE 0
Mantissa(s) == LET p == FirstOf(s, {"."}) IN
    IF p = 0 THEN s # <<>> /\ AllDigits(s)
    ELSE Len(s) > 1 /\ AllDigits(SubSeq(s, 1, p - 1)) /\ AllDigits(Rest(s, p + 1))
Exponent(s) == LET u == Unsigned(s) IN u # <<>> /\ AllDigits(u)
Named == {<<"i", "n", "f">>, <<"i", "n", "f", "i", "n", "i", "t", "y">>, <<"n", "a", "n">>}
IsNumber(s) == LET u == Unsigned(s)
                   x == FirstOf(u, {"e", "E"}) IN
    LowerSeq(u) \in Named \/ IF x = 0 THEN Mantissa(u) ELSE Mantissa(SubSeq(u, 1, x - 1)) /\ Exponent(Rest(u, x + 1))
\* k numbers separated by commas
Commas(s) == {i \in DOMAIN s : s[i] = ","}
RECURSIVE Parts(_)
Parts(s) == LET p == FirstOf(s, {","}) IN IF p = 0 THEN <<s>> ELSE <<SubSeq(s, 1, p - 1)>> \o Parts(Rest(s, p + 1))
Numbers(s, k) == LET q == Parts(s) IN Len(q) = k /\ \A i \in DOMAIN q : IsNumber(q[i])

(* ---- arguments ---- *)
IsOption(a) == a.c # <<>> /\ a.c[1] = "-"
\* tbl[option text][parameter text]: the command with this meaning
Lookup(tbl, o, p) == IF o \in DOMAIN tbl /\ p \in DOMAIN tbl[o] THEN tbl[o][p] ELSE [n |-> "?", say |-> "?", path |-> "?", chars |-> <<>>, place |-> "?", t |-> 0]
ParamOk(o, a) ==
    CASE o \in File1 -> TRUE
      [] o \in Num1 -> IsNumber(a.c)
      [] o \in Num2 -> Numbers(a.c, 2)
      [] o \in Num3 -> Numbers(a.c, 3)
      [] o \in Word -> a.s \in Intensities
NameOf(a) == IF \E o \in Options : "-" \o o = a.s THEN CHOOSE o \in Options : "-" \o o = a.s ELSE ""
BadArgs == [ok |-> FALSE, cmds |-> <<>>]
RECURSIVE ParseFrom(_, _, _, _)
ParseFrom(args, k, cmds, tbl) ==
    IF k > Len(args) THEN [ok |-> TRUE, cmds |-> cmds]
    ELSE LET a == args[k] IN
         IF ~IsOption(a) THEN ParseFrom(args, k + 1, Append(cmds, Lookup(tbl, IF cmds = <<>> THEN "open" ELSE "save", a.s)), tbl)
         ELSE LET o == NameOf(a) IN
              IF o = "" THEN BadArgs
              ELSE IF o \in Plain THEN ParseFrom(args, k + 1, Append(cmds, Lookup(tbl, o, "")), tbl)
              ELSE IF k = Len(args) THEN BadArgs
              ELSE IF ~ParamOk(o, args[k + 1]) THEN BadArgs
              ELSE ParseFrom(args, k + 2, Append(cmds, Lookup(tbl, o, args[k + 1].s)), tbl)
\* nothing at all is an error, too
ParseArgs(args, tbl) == IF args = <<>> THEN BadArgs ELSE ParseFrom(args, 1, <<>>, tbl)
================================================================================
