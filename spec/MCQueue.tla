--------------------------------- MODULE MCQueue ---------------------------------
(* Queues are built command by command and then run.                                         *)
EXTENDS Queue, Json
CONSTANTS N, Alphabet
VARIABLES cmds, at, st
vars == <<cmds, at, st>>
F(p, chars, place) == [path |-> p, chars |-> chars, place |-> place]
A == F("a.png", <<"a", ".", "p", "n", "g">>, "ok")
W == F("w.bmp", <<"w", ".", "b", "m", "p">>, "ok")
J == F("j.gif", <<"j", ".", "g", "i", "f">>, "ok")
M == F("m.png", <<"m", ".", "p", "n", "g">>, "ok")
B == F("b.BMP", <<"b", ".", "B", "M", "P">>, "ok")
I == F("i.ico", <<"i", ".", "i", "c", "o">>, "ok")
X == F("x.tif", <<"x", ".", "t", "i", "f">>, "ok")
D == F("s.bmp", <<"s", ".", "b", "m", "p">>, "dir")
U == F("f.ico", <<"f", ".", "i", "c", "o">>, "full")
None0 == F("", <<>>, "ok")
Cmd(n, say, f, t) == [n |-> n, say |-> say, path |-> f.path, chars |-> f.chars, place |-> f.place, t |-> t]
Of == [oa |-> Cmd("Open", "Open(a)", A, 0), ow |-> Cmd("Open", "Open(w)", W, 0), oj |-> Cmd("Open", "Open(j)", J, 0), om |-> Cmd("Open", "Open(m)", M, 0),
       ob |-> Cmd("Open", "Open(b)", B, 0),
       sb |-> Cmd("Save", "Save(b)", B, 0), sa |-> Cmd("Save", "Save(a)", A, 0), si |-> Cmd("Save", "Save(i)", I, 0), sx |-> Cmd("Save", "Save(x)", X, 0),
       sd |-> Cmd("Save", "Save(s)", D, 0), su |-> Cmd("Save", "Save(f)", U, 0),
       inv |-> Cmd("Invert", "Invert", None0, 0), gam |-> Cmd("Gamma", "Gamma(2)", None0, 0), nz |-> Cmd("RgbNoise", "RgbNoise", None0, 32),
       sil |-> Cmd(Silent, "Silent", None0, 0)]
Files1 == [p \in {"a.png", "w.bmp", "j.gif"} |->
             IF p = "a.png" THEN [h |-> "a0", sig |-> <<137, 80, 78, 71, 13, 10, 26, 10>>, real |-> "png", pic |-> "a"]
             ELSE IF p = "w.bmp" THEN [h |-> "w0", sig |-> <<66, 77>>, real |-> "bmp", pic |-> "w"]
             ELSE [h |-> "j0", sig |-> <<1, 2>>, real |-> "", pic |-> ""]]
App(d, c) == d \o "+" \o c.say
Sig(f) == CASE f = "png" -> <<137, 80, 78, 71, 13, 10, 26, 10>> [] f = "bmp" -> <<66, 77>> [] f = "ico" -> <<0, 0, 1, 0>>
Wide(d) == d \in {"w", "w+Invert", "w+Gamma(2)", "w+Invert+Invert", "w+Gamma(2)+Invert", "w+Invert+Gamma(2)", "w+Gamma(2)+Gamma(2)"}
Enc(i, f, p) == [ok |-> ~(f = "ico" /\ Wide(i.d)), h |-> f \o i.d \o i.say, sig |-> Sig(f), pic |-> IF i.n = "" THEN i.d ELSE "noisy"]
Left(p, m) == Except(m, p)
Init == cmds = <<>> /\ at = 0 /\ st = Start(Files1)
Add == at = 0 /\ Len(cmds) < N /\ \E x \in Alphabet : cmds' = Append(cmds, x) /\ UNCHANGED <<at, st>>
Begin == at = 0 /\ Len(cmds) = N /\ at' = 1 /\ UNCHANGED <<cmds, st>>
C(k) == Of[cmds[k]]
Total == Announced([k \in DOMAIN cmds |-> C(k)])
Do == at >= 1 /\ at <= N /\ at' = at + 1 /\ UNCHANGED cmds /\ st' = Exec(st, C(at), Total, App, Enc, Left)
Next == Add \/ Begin \/ Do
Spec == Init /\ [][Next]_vars
\* once a command has failed, nothing changes any more
StopP == [][st.res # "ok" => st' = st]_vars
\* only a save changes files, only its own, and opening one changes no file
FileP == [][(st'.fs # st.fs) => (C(at).n = "Save" /\ \A q \in DOMAIN st.fs \union DOMAIN st'.fs :
                q # C(at).path => (q \in DOMAIN st.fs /\ q \in DOMAIN st'.fs /\ st.fs[q] = st'.fs[q]))]_vars
\* what is edited: the picture opened last and every operation since
Opens == {k \in 1..(at - 1) : C(k).n = "Open"}
Since == CHOOSE k \in Opens : \A j \in Opens : j <= k
IsOp(k) == C(k).n \in {"Invert", "Gamma"}
RECURSIVE Term(_, _, _)
Term(d, k, last) == IF k > last THEN d ELSE Term(IF IsOp(k) THEN d \o "+" \o C(k).say ELSE d, k + 1, last)
ImgInv == (st.res = "ok" /\ at > 1) =>
             IF Opens = {} THEN st.img = NoImage
             ELSE (st.img.n = "" /\ C(Since).path \in {"a.png", "w.bmp"} /\ \A k \in 1..(at - 1) : C(k).n # "Save") =>
                  st.img.d = Term(IF C(Since).path = "a.png" THEN "a" ELSE "w", Since + 1, at - 1)
\* nothing is printed after Silent, numbers go up by one, and the last is the number of commands
Loud == {k \in 1..(at - 1) : C(k).n # Silent /\ \A j \in 1..k : C(j).n # Silent}
OutInv == /\ Len(st.out) <= Cardinality(Loud)
          /\ (st.res = "ok" => Len(st.out) = Cardinality(Loud))
          /\ \A k \in DOMAIN st.out : \E j \in Loud : st.out[k] = Line(k, Total, C(j).say) /\ j >= k
DoneInv == (at = N + 1 /\ st.res = "ok") => st.k = Total
Emit == at = N + 1 => PrintT(ToJson(cmds))
================================================================================
