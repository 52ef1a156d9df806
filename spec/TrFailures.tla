------------------------------- MODULE TrFailures -------------------------------
EXTENDS Failures, Json, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* the system's own error: its kind and text
System(r, io, code, text) == r.kind = "io" /\ r.io = io /\ r.code = code /\ Has(r.text, text)
SaveOk(e) ==
    LET c == SaveCause(e)
        r == e.err
        f == FormatOf(e) IN
    CASE c = "" -> r.kind = "ok"
      [] c = "extension" -> r.kind = "extension" /\ Has(r.text, e.path)
      [] c = "noparent" -> System(r, "NotFound", 2, e.os.missing)
      [] c = "dir" -> System(r, "IsADirectory", 21, e.os.dir)
      [] c = "full" -> System(r, "StorageFull", 28, e.os.full)
      [] c = "size" -> IF Refuses(f, e.size)
                       THEN r.kind = "dimensions" /\ Has(r.text, FormatText(f)) /\ Has(r.text, e.w) /\ Has(r.text, e.h)
                       ELSE r.kind \in {"encode", "dimensions", "io"} /\ r.code = 0 /\ Len(r.text) > 0
OpenOk(e) ==
    LET c == OpenCause(e)
        r == e.err IN
    CASE c = "missing" -> System(r, "NotFound", 2, e.os.missing)
      [] c = "dir" -> System(r, "IsADirectory", 21, e.os.dir)
      [] c = "unreadable" -> r.kind = "unknown" \/ System(r, "IsADirectory", 21, e.os.dir)
      [] c = "unknown" -> r.kind = "unknown" /\ Len(r.text) > 0
      [] c = "content" -> r.kind \in {"decode", "io"} /\ r.code = 0 /\ Len(r.text) > 0
      [] c = "huge" -> r.kind = "size" /\ Has(r.text, e.w) /\ Has(r.text, e.h)
\* the destination's own error comes back, whatever stage of the encoder it hits
SinkOk(e) ==
    LET r == e.err IN
    IF e.at >= e.total THEN r.kind = "ok"
    ELSE r.kind = "io" /\ r.io = e.given.io /\ r.code = e.given.code /\ Has(r.text, e.given.text)
ProgramOk(e) ==
    /\ e.out = 0
    /\ IF e.fault = "none" THEN e.code = 0 /\ e.said = <<>> /\ e.lib.k = "ok"
       ELSE /\ e.code = 1 /\ Len(e.said) > 1
            /\ \A i \in DOMAIN e.facts : Has(e.said, e.facts[i])
            /\ (e.fault \in {"missing", "noparent"}) => Has(e.said, e.os.missing)
            \* what the library reports is what the user reads
            /\ IF e.fault \in Parsing THEN e.lib.k = "none"
               ELSE /\ e.lib.k = "err" /\ Has(e.said, e.lib.text)
                    /\ IF e.fault = "noimage" THEN e.lib.source = <<>> ELSE Len(e.lib.source) > 0 /\ Has(e.lib.text, e.lib.source)
ParseOk(e) == e.got.ok \/ (/\ e.got.input = e.input /\ e.got.type = e.type
                           /\ Has(e.got.text, e.input) /\ Has(e.got.text, e.type))
Ok(e) == CASE e.op = "save" -> SaveOk(e) [] e.op = "open" -> OpenOk(e) [] e.op = "sink" -> SinkOk(e)
           [] e.op = "program" -> ProgramOk(e) [] e.op = "parse" -> ParseOk(e)
TrInit == l = 1
TrNext == l <= Len(Trace) /\ Ok(Trace[l]) = TRUE /\ l' = l + 1
TrSpec == TrInit /\ [][TrNext]_l
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
================================================================================
