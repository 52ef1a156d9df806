------------------------------- MODULE MCFailures -------------------------------
(* Calls in failing environments, stage by stage.                                            *)
EXTENDS Failures, Json
VARIABLES call, pc, cause
vars == <<call, pc, cause>>
Saves == [op : {"save"}, ext : Exts, req : Formats \union {""}, place : Places, size : Sizes]
Opens == {c \in [op : {"open"}, ext : Exts, what : Whats, via : Vias] : c.via = "memory" => c.what \notin {"missing", "dir"} /\ c.ext = "none"}
Progs == [op : {"program"}, fault : Programs, n : 1..3]
Init == call \in Saves /\ pc = 1 /\ cause = ""
\* a stage succeeds and the next one begins, or the call ends with its fault
Step == /\ cause = "" /\ pc <= Len(SaveStages)
        /\ LET f == StageFault(call, SaveStages[pc]) IN
           IF f = "" THEN pc' = pc + 1 /\ UNCHANGED <<call, cause>> ELSE cause' = f /\ UNCHANGED <<call, pc>>
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == cause # "" \/ pc > Len(SaveStages)
\* the cause is the one the specification of the errors names
Right == Done => cause = SaveCause(call)
Typed == cause \in Faults \union {""}
\* without a format nothing on the disk matters, and nothing was touched
FormatFirst == (FormatOf(call) = "unknown") => SaveCause(call) = "extension"
\* success needs every stage to be without a fault
Sound == (Done /\ cause = "") => \A k \in 1..Len(SaveStages) : StageFault(call, SaveStages[k]) = ""
\* an explicit request makes the extension irrelevant
Requested == call.req # "" => \A x \in Exts : SaveCause([call EXCEPT !.ext = x]) = SaveCause(call)
\* a later fault never hides an earlier one
Order == \A p \in Places : LET d == [call EXCEPT !.place = p] IN
           (SaveCause(call) = "extension") => SaveCause(d) = "extension"
\* mending the reported fault never brings back the same report
Mend == (cause = "extension") => \A f \in Formats : SaveCause([call EXCEPT !.req = f]) # "extension"
MendPlace == (cause \in {"dir", "noparent", "full"}) => SaveCause([call EXCEPT !.place = "ok"]) \notin {"dir", "noparent", "full"}
MendSize == (cause = "size") => SaveCause([call EXCEPT !.size = "small"]) # "size"
\* opening: every fault has one cause, and what memory lacks it cannot report
OpenTotal == \A c \in Opens : OpenCause(c) \in {"missing", "dir", "unreadable", "unknown", "content", "huge"}
Ends == <>Done
ASSUME \A o \in Opens : PrintT(ToJson(o))
ASSUME \A q \in Progs : PrintT(ToJson(q))
Emit == pc = 1 /\ cause = "" => PrintT(ToJson(call))
================================================================================
