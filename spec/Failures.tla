-------------------------------- MODULE Failures --------------------------------
(* What a failing call has to say.  A call goes through stages; the first stage which cannot *)
(* succeed in the given environment is the cause, and the error names that cause: its kind,  *)
(* the system's or the destination's own error, and the values the user needs to see.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Formats == {"jpeg", "png", "gif", "bmp", "ico", "webp"}
Exts == Formats \union {"none", "other"}
Places == {"ok", "dir", "full", "noparent"}
Sizes == {"small", "empty", "wide", "tall"}
Faults == {"extension", "noparent", "dir", "size", "full"}

\* ------------------------------------------------------------------ saving
\* what the call does, in this order
SaveStages == <<"choose", "create", "encode", "write">>
FormatOf(c) == IF c.req # "" THEN c.req ELSE IF c.ext \in Formats THEN c.ext ELSE "unknown"
\* formats which cannot hold a picture of some size
Holds(f, size) == CASE size = "small" -> TRUE
                    [] size = "empty" -> FALSE
                    [] OTHER -> f \in {"png", "bmp"}
\* ... and which of those d10 itself refuses, by name and dimensions
Refuses(f, size) == CASE f = "gif" -> size # "small" [] f = "jpeg" -> size \in {"wide", "tall"} [] f = "bmp" -> size = "empty" [] OTHER -> FALSE
StageFault(c, s) ==
    CASE s = "choose" -> IF FormatOf(c) = "unknown" THEN "extension" ELSE ""
      [] s = "create" -> IF c.place \in {"dir", "noparent"} THEN c.place ELSE ""
      [] s = "encode" -> IF ~Holds(FormatOf(c), c.size) THEN "size" ELSE ""
      [] s = "write" -> IF c.place = "full" THEN "full" ELSE ""
RECURSIVE FirstFault(_, _)
FirstFault(c, k) == IF k > Len(SaveStages) THEN "" ELSE IF StageFault(c, SaveStages[k]) # "" THEN StageFault(c, SaveStages[k]) ELSE FirstFault(c, k + 1)
SaveCause(c) == FirstFault(c, 1)

\* ------------------------------------------------------------------ opening
Whats == {"missing", "dir", "junk", "nothing", "huge", "cut"}
Vias == {"file", "memory"}
OpenCause(c) ==
    CASE c.what = "missing" -> "missing"
      \* a directory can be opened, but not read
      [] c.what = "dir" -> IF c.ext \in Formats THEN "dir" ELSE "unreadable"
      [] c.what \in {"junk", "nothing"} -> IF c.via = "memory" \/ c.ext \notin Formats THEN "unknown" ELSE "content"
      [] c.what = "huge" -> "huge"
      [] c.what = "cut" -> "content"

\* ------------------------------------------------------------------ programs
Programs == {"none", "missing", "unknown", "noimage", "extension", "noparent", "argument", "parameter", "number", "word"}
\* found before anything runs
Parsing == {"argument", "parameter", "number", "word"}

\* ------------------------------------------------------------------ texts
\* text t contains p
Has(t, p) == Len(p) = 0 \/ \E i \in 0..(Len(t) - Len(p)) : \A j \in DOMAIN p : t[i + j] = p[j]
FormatText(f) == CASE f = "gif" -> <<"g", "i", "f">> [] f = "jpeg" -> <<"j", "p", "e", "g">> [] f = "bmp" -> <<"b", "m", "p">>
================================================================================
