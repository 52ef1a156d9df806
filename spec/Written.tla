---------------------------------- MODULE Written ----------------------------------
(* The form of the files which are written: what the options of a format decide about the   *)
(* bytes of a file, whatever image it holds.  A request is a record with fmt and the        *)
(* options of the format.                                                                   *)
EXTENDS Codec

\* ---- JPEG: the quantisation tables of annex K, in the order of the file (zigzag)
Luma == << 16, 11, 12, 14, 12, 10, 16, 14, 13, 14, 18, 17, 16, 19, 24, 40,
           26, 24, 22, 22, 24, 49, 35, 37, 29, 40, 58, 51, 61, 60, 57, 51,
           56, 55, 64, 72, 92, 78, 64, 68, 87, 69, 55, 56, 80, 109, 81, 87,
           95, 98, 103, 104, 103, 62, 77, 113, 121, 112, 100, 120, 92, 101, 103, 99 >>
Chroma == << 17, 18, 18, 24, 21, 24, 47, 26, 26, 47, 99, 66, 56, 66, 99, 99 >>
ChromaAt(i) == IF i <= 16 THEN Chroma[i] ELSE 99
LumaTable(q) == [i \in 1..64 |-> DcStep(Luma[i], q)]
ChromaTable(q) == [i \in 1..64 |-> DcStep(ChromaAt(i), q)]
\* sampling factors: columns and rows of luma for one of chroma
Factors == << <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<4, 1>>, <<4, 2>>, <<1, 4>>, <<2, 4>>,
              <<1, 1>>, <<1, 2>>, <<1, 4>>, <<2, 1>>, <<2, 2>>, <<2, 4>>, <<4, 1>>, <<4, 2>> >>
NoFactor == 16
FactorOf(r) == IF r.sampling # NoFactor THEN Factors[r.sampling + 1]
               ELSE IF Quality(r.q) < 90 THEN <<2, 2>> ELSE <<1, 1>>
Parts(r) == IF r.grey THEN << <<1, 1, 0>> >>
            ELSE << <<FactorOf(r)[1], FactorOf(r)[2], 0>>, <<1, 1, 1>>, <<1, 1, 1>> >>
JpegForm(r) == [frame |-> IF r.progressive THEN 194 ELSE 192, comps |-> Parts(r), luma |-> LumaTable(r.q),
                chroma |-> IF r.grey THEN <<>> ELSE ChromaTable(r.q), standard |-> ~r.optimize]

\* ---- PNG
PngDepth == <<8, 8, 16, 16, 8, 8, 16, 16>>
PngColor == <<0, 4, 0, 4, 2, 6, 2, 6>>
PngLevel == << <<120, 156>>, <<120, 1>>, <<120, 218>> >>
Samples(color) == CASE color = 0 -> 1 [] color = 4 -> 2 [] color = 2 -> 3 [] OTHER -> 4
PngForm(r) == [depth |-> PngDepth[r.color + 1], color |-> PngColor[r.color + 1], zlib |-> PngLevel[r.compression + 1], filter |-> r.filter]
\* ---- BMP: an alpha channel only with colours
BmpForm(r) == [bits |-> <<8, 8, 24, 32>>[r.color + 1]]
\* ---- WebP: the quantiser of a quality when nothing adapts it to the image
Presets == <<"default", "picture", "photo", "drawing", "icon", "text", "lossless">>
Cube(x) == x * x * x
\* 127 * (1 - third root of c), rounded down, where c is 2q/300 up to 74 and 2q/100 - 1 above
Quantiser(q) ==
    LET k == ClampI(0, q, 100)
        n == IF k < 75 THEN 2 * k ELSE 6 * k - 300 IN
    CHOOSE t \in 0..127 : /\ Cube(127) * n <= 300 * Cube(127 - t)
                          /\ t = 127 \/ Cube(127) * n > 300 * Cube(126 - t)
Sharpness == <<0, 4, 3, 6, 0, 0>>
WebPForm(r) == [lossless |-> r.preset = 6, quant |-> IF r.preset = 6 THEN 0 ELSE Quantiser(r.q),
                sharp |-> IF r.preset = 6 THEN 0 ELSE Sharpness[r.preset + 1], adapts |-> r.preset < 4, smooths |-> r.preset < 4]
Form(r) == CASE r.fmt = "jpeg" -> JpegForm(r) [] r.fmt = "png" -> PngForm(r) [] r.fmt = "bmp" -> BmpForm(r)
             [] r.fmt = "webp" -> WebPForm(r) [] OTHER -> [fmt |-> r.fmt]

\* ---- the formats made by name or chosen by the end of a file name
JpegOf(q) == [fmt |-> "jpeg", q |-> q, progressive |-> FALSE, grey |-> FALSE, optimize |-> TRUE, sampling |-> NoFactor]
PngPlain == [fmt |-> "png", color |-> 5, compression |-> 0, filter |-> 1]
WebPOf(q, p) == [fmt |-> "webp", q |-> q, preset |-> p]
Plain(f) == [fmt |-> f, color |-> 3]
Request(n, q, p) ==
    CASE n \in {"jpeg_default", ".jpg", ".jpeg"} -> JpegOf(85)
      [] n = "jpeg_with_quality" -> JpegOf(q)
      [] n \in {"png_default", ".png"} -> PngPlain
      [] n \in {"gif_default", ".gif"} -> [fmt |-> "gif"]
      [] n \in {"bmp_default", ".bmp"} -> Plain("bmp")
      [] n \in {"ico_default", ".ico"} -> Plain("ico")
      [] n \in {"webp_default", ".webp"} -> WebPOf(90, 0)
      [] n = "webp_with_quality" -> WebPOf(q, 0)
      [] n = "webp_with_preset" -> WebPOf(q, p)
================================================================================
