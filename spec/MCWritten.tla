--------------------------------- MODULE MCWritten ---------------------------------
(* Requests that change one option at a time: what becomes of the form of the file.         *)
EXTENDS Written, Json
CONSTANTS Qs, Starts
VARIABLES r, last
AllQ == 0..255
Options(f) == CASE f = "jpeg" -> {"q", "progressive", "grey", "optimize", "sampling"} [] f = "png" -> {"color", "compression", "filter"}
                [] f = "webp" -> {"q", "preset"} [] f \in {"bmp", "ico"} -> {"color"} [] OTHER -> {}
Values(f, o) == CASE o = "q" -> Qs [] o \in {"progressive", "grey", "optimize"} -> BOOLEAN [] o = "sampling" -> 0..NoFactor
                  [] o = "color" -> IF f = "png" THEN 0..7 ELSE 0..3 [] o = "compression" -> 0..2 [] o = "filter" -> 0..4
                  [] o = "preset" -> 0..6
Init == /\ last = <<"", 0>>
        /\ r \in {Request(n, q, 0) : n \in {"jpeg_with_quality", "png_default", "gif_default", "bmp_default", "ico_default", "webp_with_quality"}, q \in Starts}
Next == \E o \in Options(r.fmt) : \E v \in Values(r.fmt, o) : v # r[o] /\ r' = [r EXCEPT ![o] = v] /\ last' = <<o, r[o]>>
Spec == Init /\ [][Next]_<<r, last>>
View == r
Table(t) == \A i \in DOMAIN t : t[i] \in 1..255
\* every request has a form which can be written
FormI == LET f == Form(r) IN
    CASE r.fmt = "jpeg" -> Table(f.luma) /\ Table(f.chroma) /\ Len(f.comps) = (IF r.grey THEN 1 ELSE 3)
                           /\ f.comps[1][1] * f.comps[1][2] <= 8
      [] r.fmt = "webp" -> f.quant \in 0..127
      [] OTHER -> TRUE
\* an option changes what it stands for and nothing else
Same(f, g, names) == \A n \in names : f[n] = g[n]
OptionA == [][LET f == Form(r)  g == Form(r')
                  o == CHOOSE o \in Options(r.fmt) : r[o] # r'[o] IN
    CASE o = "progressive" -> f.frame # g.frame /\ Same(f, g, DOMAIN f \ {"frame"})
      [] o = "optimize" -> f.standard # g.standard /\ Same(f, g, DOMAIN f \ {"standard"})
      [] o = "grey" -> Len(f.comps) # Len(g.comps) /\ Same(f, g, {"frame", "luma", "standard"})
      [] o = "sampling" -> Same(f, g, DOMAIN f \ {"comps"})
      [] o = "q" /\ r.fmt = "jpeg" ->
            /\ Same(f, g, {"frame", "standard"})
            \* more quality, finer steps
            /\ \A i \in 1..64 : IF r.q < r'.q THEN g.luma[i] <= f.luma[i] ELSE g.luma[i] >= f.luma[i]
            /\ (Quality(r.q) # Quality(r'.q)) => f.luma # g.luma
      [] o = "q" -> Same(f, g, DOMAIN f \ {"quant"}) /\ (IF r.q < r'.q THEN g.quant <= f.quant ELSE g.quant >= f.quant)
      [] o = "compression" -> f.zlib # g.zlib /\ Same(f, g, DOMAIN f \ {"zlib"})
      [] o = "filter" -> f.filter # g.filter /\ Same(f, g, DOMAIN f \ {"filter"})
      [] o = "color" /\ r.fmt = "png" -> <<f.depth, f.color>> # <<g.depth, g.color>> /\ Same(f, g, {"zlib", "filter"})
      [] OTHER -> TRUE]_r
ASSUME LumaTable(50)[1] = 16 /\ LumaTable(100) = [i \in 1..64 |-> 1] /\ LumaTable(0) = LumaTable(1) /\ LumaTable(255) = LumaTable(100)
ASSUME Quantiser(0) = 127 /\ Quantiser(100) = 0 /\ Quantiser(75) = 26 /\ Quantiser(200) = 0
ASSUME \A q \in 0..99 : Quantiser(q + 1) <= Quantiser(q)
Emit == PrintT(ToJson(r))
================================================================================
