--------------------------------- MODULE TrFiles ---------------------------------
(* A file is [h, sig, real, pic]: a digest of its bytes, the first 12 of them, the format    *)
(* whose decoder accepts it ("" if none) and a digest of the picture it holds.               *)
EXTENDS Files, Json, IOUtils
VARIABLES l, fs
Trace == ndJsonDeserialize(IOEnv.TRACE)
Empty == <<>>
Rec(e) == [h |-> e.h, sig |-> e.sig, real |-> e.real, pic |-> e.pic]
\* the directory holds exactly what the model says
Matches(ls, m) == /\ {ls[i][1] : i \in DOMAIN ls} = DOMAIN m
                  /\ \A i \in DOMAIN ls : m[ls[i][1]].h = ls[i][2]
Except(m, p) == [q \in DOMAIN m \ {p} |-> m[q]]
With(m, p, r) == [q \in DOMAIN m \union {p} |-> IF q = p THEN r ELSE m[q]]
Write(e) == fs' = With(fs, e.path, Rec(e))
Save(e) ==
    LET f == WriteFormat(e.name, e.format) IN
    IF f = Unknown THEN e.res = "extension" /\ fs' = fs /\ Matches(e.ls, fs)
    ELSE IF e.place \in {"dir", "noparent"} THEN e.res # "ok" /\ fs' = fs /\ Matches(e.ls, fs)
    ELSE LET r == e.enc[f] IN
         IF e.place = "full" THEN e.res # "ok" /\ fs' = fs /\ Matches(e.ls, fs)
         ELSE IF r.ok THEN /\ e.res = "ok"
                           /\ Detect(r.sig) = f /\ r.w = e.w /\ r.hh = e.hh
                           /\ fs' = With(fs, e.path, [h |-> r.h, sig |-> r.sig, real |-> f, pic |-> r.pic])
                           /\ Matches(e.ls, fs')
         \* the image does not fit the format: nothing is promised about this file, but about all others
         ELSE /\ e.res \notin {"ok", "panic", "extension"}
              /\ LET other == SelectSeq(e.ls, LAMBDA x : x[1] # e.path) IN Matches(other, Except(fs, e.path))
              /\ fs' = IF e.left.h = None THEN Except(fs, e.path) ELSE With(fs, e.path, Rec(e.left))
Outcome(f, r, res, pic) ==
    IF f = Unknown THEN res = Unknown
    ELSE IF f = r.real THEN res = "ok" /\ pic = r.pic
    ELSE res \notin {"ok", Unknown, "panic"}
Load(e) == /\ fs' = fs
           /\ IF e.place = "ok" /\ e.path \in DOMAIN fs
              THEN Outcome(ReadFormat(fs[e.path].sig, e.name), fs[e.path], e.res, e.got)
              ELSE e.res = "io"
Mem(e) == fs' = fs /\ Outcome(Detect(e.sig), [real |-> e.real, pic |-> e.pic], e.res, e.got)
DetectE(e) == fs' = fs /\ e.res = Detect(e.sig) /\ e.pos = 0
Ok(e) ==
    CASE e.op = "reset" -> fs' = Empty
      [] e.op = "write" -> Write(e)
      [] e.op = "save" -> Save(e)
      [] e.op = "load" -> Load(e)
      [] e.op = "mem" -> Mem(e)
      [] e.op = "detect" -> DetectE(e)
TrInit == l = 1 /\ fs = Empty
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_<<l, fs>>
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
