---------------------------------- MODULE Queue ----------------------------------
(* A queue of commands on one image and a directory of files.                                *)
(* The state of a run: img (what is being edited), fs (the files), out (what was printed),   *)
(* k (announced so far), quiet, res ("ok" while running, else the failure that ended it).    *)
(* A command: [n |-> its name, say |-> its text, path, chars |-> the file name's characters, *)
(* place |-> what is at that path, t |-> the strength of a noise in 64ths, -1: unusual].     *)
EXTENDS Files, SequencesExt
Noises == {"RandomNoise", "SaltNPepperNoise", "RgbNoise"}
Files0 == {"Open", "Save"}
Silent == "Silent"
NoImage == [d |-> "", say |-> "", t |-> 0, n |-> ""]
Exact(d) == [d |-> d, say |-> "", t |-> 0, n |-> ""]
\* a picture after noise is not known, only what it was before
Noisy(i, c) == IF i.n # "" THEN [i EXCEPT !.n = "any"] ELSE [d |-> i.d, say |-> c.say, t |-> c.t, n |-> IF c.t < 0 THEN "any" ELSE c.n]
With(m, p, r) == [q \in DOMAIN m \union {p} |-> IF q = p THEN r ELSE m[q]]
Except(m, p) == [q \in DOMAIN m \ {p} |-> m[q]]

Start(fs) == [img |-> NoImage, fs |-> fs, out |-> <<>>, k |-> 0, quiet |-> FALSE, res |-> "ok"]
Announced(cmds) == Len(SelectSeq(cmds, LAMBDA c : c.n # Silent))
\* position and number of commands that are announced
Line(k, n, say) == ToString(k) \o "/" \o ToString(n) \o ": " \o say
Say(st, c, total) ==
    IF c.n = Silent THEN st
    ELSE [st EXCEPT !.k = @ + 1, !.out = IF st.quiet THEN @ ELSE Append(@, Line(st.k + 1, total, c.say))]
Fail(st, why) == [st EXCEPT !.res = why]

\* App(d, c): the picture an operation makes of picture d
\* Enc(i, f, path): [ok, h, sig, pic]: what saving makes of it
\* Left(path, fs): the files when there is what a save that failed halfway leaves behind
Open(st, c) ==
    IF c.place # "ok" \/ c.path \notin DOMAIN st.fs THEN Fail(st, "open")
    ELSE LET r == st.fs[c.path]
             f == ReadFormat(r.sig, c.chars) IN
         IF f # Unknown /\ f = r.real THEN [st EXCEPT !.img = Exact(r.pic)] ELSE Fail(st, "open")
Save(st, c, Enc(_, _, _), Left(_, _)) ==
    IF st.img = NoImage THEN Fail(st, "missing")
    ELSE LET f == WriteFormat(c.chars, None) IN
         IF f = Unknown \/ c.place # "ok" THEN Fail(st, "save")
         ELSE LET r == Enc(st.img, f, c.path) IN
              IF r.ok THEN [st EXCEPT !.fs = With(@, c.path, [h |-> r.h, sig |-> r.sig, real |-> f, pic |-> r.pic])]
              ELSE [Fail(st, "save") EXCEPT !.fs = Left(c.path, st.fs)]
Exec(st, c, total, App(_, _), Enc(_, _, _), Left(_, _)) ==
    IF st.res # "ok" THEN st
    ELSE LET s == Say(st, c, total) IN
         CASE c.n = Silent -> [s EXCEPT !.quiet = TRUE]
           [] c.n = "Open" -> Open(s, c)
           [] c.n = "Save" -> Save(s, c, Enc, Left)
           [] OTHER -> IF s.img = NoImage THEN Fail(s, "missing")
                       ELSE IF c.n \in Noises /\ c.t # 0 THEN [s EXCEPT !.img = Noisy(@, c)]
                       ELSE IF s.img.n # "" THEN [s EXCEPT !.img.n = "any"]
                       ELSE [s EXCEPT !.img = Exact(App(@.d, c))]
Run(cmds, fs, App(_, _), Enc(_, _, _), Left(_, _)) ==
    LET n == Announced(cmds) IN FoldLeft(LAMBDA st, c : Exec(st, c, n, App, Enc, Left), Start(fs), cmds)

(* ---- noise, as counts over the pixels (8 bit) of the picture before and after ---- *)
AbsQ(x) == IF x < 0 THEN -x ELSE x
\* c of n happened with probability num / 64: 6.5 standard deviations
Likely(c, n, num) == LET e == (n * num) \div 64
                         v == (e * (64 - num)) \div 64
                         d == AbsQ(c - e) IN d * d <= 43 * (v + 2) + 100
CountQ(p, q, T(_, _)) == Cardinality({i \in DOMAIN p : T(p[i], q[i])})
Mixed(c, d, t) == /\ c[4] = d[4]
                  /\ \A j \in 1..3 : /\ d[j] * 64 <= 255 * t + c[j] * (64 - t) + 128
                                     /\ d[j] * 64 >= c[j] * (64 - t) - 255 * t - 128
NoiseOk(n, t, p, q) ==
    /\ Len(p) = Len(q)
    /\ CASE n = "SaltNPepperNoise" ->
              LET black(c, d) == d = <<0, 0, 0, 255>> /\ c # d
                  white(c, d) == d = <<255, 255, 255, 255>> /\ c # d
                  b == CountQ(p, q, black)
                  w == CountQ(p, q, white)
                  s == CountQ(p, q, LAMBDA c, d : c = d) IN
              /\ b + w + s = Len(p)
              \* black or white before: not counted
              /\ LET m == CountQ(p, q, LAMBDA c, d : c \notin {<<0, 0, 0, 255>>, <<255, 255, 255, 255>>}) IN
                 /\ Likely(CountQ(p, q, LAMBDA c, d : black(c, d) /\ c # <<255, 255, 255, 255>>), m, t)
                 /\ Likely(CountQ(p, q, LAMBDA c, d : white(c, d) /\ c # <<0, 0, 0, 255>>), m, IF 2 * t > 64 THEN 64 - t ELSE t)
         [] n = "RgbNoise" ->
              LET one(c, d) == \E j \in 1..3 : d = [c EXCEPT ![j] = 255]
                  m == CountQ(p, q, LAMBDA c, d : \A j \in 1..3 : c[j] # 255) IN
              /\ CountQ(p, q, one) + CountQ(p, q, LAMBDA c, d : c = d /\ ~one(c, d)) = Len(p)
              /\ Likely(CountQ(p, q, LAMBDA c, d : c # d /\ \A j \in 1..3 : c[j] # 255), m, t)
         [] n = "RandomNoise" ->
              /\ \A i \in DOMAIN p : Mixed(p[i], q[i], t)
              \* the noise uses the room it has: half of it is below zero
              /\ LET m == CountQ(p, q, LAMBDA c, d : TRUE) IN
                 Likely(CountQ(p, q, LAMBDA c, d : d[1] * 64 < c[1] * (64 - t) + 32), m, 32) \/ t < 8
         [] n = "any" -> TRUE
================================================================================
