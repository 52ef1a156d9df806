---------------------------------- MODULE MCCli ----------------------------------
(* Argument lists, one argument after another.                                               *)
EXTENDS Cli, Json
CONSTANTS N, Alphabet
VARIABLES args
Arg(s, c) == [s |-> s, c |-> c]
Of == [in |-> Arg("a.png", <<"a", ".", "p", "n", "g">>),
       out |-> Arg("o.bmp", <<"o", ".", "b", "m", "p">>),
       bad |-> Arg("o.tif", <<"o", ".", "t", "i", "f">>),
       open |-> Arg("-open", <<"-", "o", "p", "e", "n">>),
       save |-> Arg("-save", <<"-", "s", "a", "v", "e">>),
       silent |-> Arg("-silent", <<"-", "s", "i", "l", "e", "n", "t">>),
       invert |-> Arg("-invert", <<"-", "i", "n", "v", "e", "r", "t">>),
       gamma |-> Arg("-gamma", <<"-", "g", "a", "m", "m", "a">>),
       level |-> Arg("-level", <<"-", "l", "e", "v", "e", "l">>),
       bc |-> Arg("-brightness-contrast", <<"-", "b", "r", "i", "g", "h", "t", "n", "e", "s", "s", "-", "c", "o", "n", "t", "r", "a", "s", "t">>),
       gray |-> Arg("-grayscale", <<"-", "g", "r", "a", "y", "s", "c", "a", "l", "e">>),
       num |-> Arg("0.5", <<"0", ".", "5">>),
       neg |-> Arg("-1", <<"-", "1">>),
       two |-> Arg("0.5,1.25", <<"0", ".", "5", ",", "1", ".", "2", "5">>),
       three |-> Arg("0.1,.9,2.", <<"0", ".", "1", ",", ".", "9", ",", "2", ".">>),
       red |-> Arg("red", <<"r", "e", "d">>),
       dd |-> Arg("--invert", <<"-", "-", "i", "n", "v", "e", "r", "t">>),
       empty |-> Arg("", <<>>)]
Meaning(n, s) == [n |-> n, say |-> s, path |-> s, chars |-> <<>>, place |-> "ok", t |-> 0]
Params == {"a.png", "o.bmp", "o.tif", "0.5", "-1", "0.5,1.25", "0.1,.9,2.", "red", "", "-open", "-save", "-silent", "-invert", "-gamma", "-level", "-brightness-contrast", "-grayscale", "--invert"}
Tbl == [o \in Options |-> [p \in Params |-> Meaning(o, p)]]
List == [k \in DOMAIN args |-> Of[args[k]]]
R == ParseArgs(List, Tbl)
Init == args = <<>>
Next == Len(args) < N /\ \E x \in Alphabet : args' = Append(args, x)
Spec == Init /\ [][Next]_args
\* more arguments never repair an error other than a missing parameter, and never change the commands before
PrefixP == [][LET old == ParseArgs([k \in DOMAIN args |-> Of[args[k]]], Tbl)
                  new == ParseArgs([k \in DOMAIN args' |-> Of[args'[k]]], Tbl) IN
              (old.ok /\ new.ok /\ args # <<>>) => IsPrefix(old.cmds, new.cmds)]_args
\* every argument is a command of its own or the parameter of the option before it
Takes(c) == IF c.n \in Plain THEN {1} ELSE IF c.n \in File1 THEN {1, 2} ELSE {2}
CountInv == R.ok => /\ Len(R.cmds) <= Len(args)
                    /\ Len(args) >= FoldLeft(LAMBDA a, c : a + (IF 1 \in Takes(c) THEN 1 ELSE 2), 0, R.cmds)
                    /\ Len(args) <= FoldLeft(LAMBDA a, c : a + (IF 2 \in Takes(c) THEN 2 ELSE 1), 0, R.cmds)
Files2 == R.ok /\ args # <<>> /\ ~IsOption(List[1]) => R.cmds[1].n = "open"
Unknown0 == (\E k \in DOMAIN args : args[k] = "dd" /\ (k = 1 \/ args[k - 1] \notin {"open", "save"})) => ~R.ok
ASSUME \A s \in {<<"1">>, <<"1", ".">>, <<".", "5">>, <<"1", "e", "5">>, <<"+", "1", ".", "e", "-", "2">>, <<"-", "I", "n", "F">>, <<"N", "a", "N">>} : IsNumber(s)
ASSUME \A s \in {<<>>, <<".">>, <<"-">>, <<"e", "5">>, <<"1", "e">>, <<"1", "e", "+">>, <<" ", "1">>, <<"1", ".", "2", ".", "3">>, <<"1", ",", "2">>, <<"0", "x", "1">>, <<"i", "n">>, <<"-", "-", "1">>} : ~IsNumber(s)
ASSUME Numbers(<<"1", ",", "2">>, 2) /\ ~Numbers(<<"1", ",", "2", ",">>, 2) /\ ~Numbers(<<"1">>, 2) /\ Numbers(<<"1", ",", "2", ",", "3">>, 3)
Emit == args # <<>> => PrintT(ToJson([k \in DOMAIN args |-> Of[args[k]].s]))
================================================================================
