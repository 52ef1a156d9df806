--------------------------------- MODULE TrQueue ---------------------------------
(* Recorded runs of queues and of the command line tool.                                     *)
EXTENDS Cli, Json, IOUtils
VARIABLES l, fs
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rec(e) == [h |-> e.h, sig |-> e.sig, real |-> e.real, pic |-> e.pic]
Matches(ls, m) == /\ {ls[i][1] : i \in DOMAIN ls} = DOMAIN m
                  /\ \A i \in DOMAIN ls : m[ls[i][1]].h = ls[i][2]
Bad == [ok |-> TRUE, h |-> "?", sig |-> <<>>, pic |-> "?"]
\* e.app[d][say]: the picture an operation makes of another one; e.enc[d][f]: its file
AppOf(e, d, c) == IF d \in DOMAIN e.app /\ c.say \in DOMAIN e.app[d] THEN e.app[d][c.say] ELSE "?"
\* a noisy picture is in a file if that file holds one the noise can make
EncOf(e, i, f, path) ==
    IF i.n = "" THEN IF i.d \in DOMAIN e.enc /\ f \in DOMAIN e.enc[i.d] THEN e.enc[i.d][f] ELSE Bad
    ELSE IF i.d \in DOMAIN e.enc /\ f \in DOMAIN e.enc[i.d] /\ ~e.enc[i.d][f].ok THEN e.enc[i.d][f]
    ELSE IF path \notin DOMAIN e.seen THEN Bad
    ELSE LET s == e.seen[path] IN
         IF Detect(s.sig) # f THEN Bad
         ELSE IF f = "png" /\ i.n # "any" /\ ~(i.d \in DOMAIN e.px /\ NoiseOk(i.n, i.t, e.px[i.d], s.px)) THEN Bad
         ELSE [ok |-> TRUE, h |-> s.h, sig |-> s.sig, pic |-> s.pic]
\* after a save that failed halfway the file may be anything
LeftOf(e, m, path) == IF path \in DOMAIN e.seen THEN With(m, path, Rec(e.seen[path])) ELSE Except(m, path)
Result(e, cmds) == Run(cmds, fs, LAMBDA d, c : AppOf(e, d, c), LAMBDA i, f, p : EncOf(e, i, f, p), LAMBDA p, m : LeftOf(e, m, p))
After(e, st) == /\ Matches(e.ls, st.fs)
                /\ e.out = st.out
                /\ fs' = st.fs
RunE(e) == LET st == Result(e, e.cmds) IN
           /\ e.len = Len(e.cmds) /\ (e.empty <=> e.len = 0)
           /\ e.res = st.res /\ ((e.text = "") <=> (st.res = "ok"))
           /\ After(e, st)
\* the command line: every argument is [s |-> text, c |-> its characters]
CliE(e) ==
    LET r == ParseArgs(e.args, e.tbl) IN
    IF ~r.ok THEN e.code = 1 /\ e.err # "" /\ e.out = <<>> /\ Matches(e.ls, fs) /\ fs' = fs
    ELSE LET st == Result(e, r.cmds) IN
         /\ e.code = (IF st.res = "ok" THEN 0 ELSE 1)
         /\ (e.err = "") <=> (st.res = "ok")
         /\ After(e, st)
Ok(e) ==
    CASE e.op = "reset" -> fs' = <<>>
      [] e.op = "write" -> fs' = With(fs, e.path, Rec(e))
      [] e.op = "run" -> RunE(e)
      [] e.op = "cli" -> CliE(e)
TrInit == l = 1 /\ fs = <<>>
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_<<l, fs>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
