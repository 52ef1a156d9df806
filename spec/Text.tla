---------------------------------- MODULE Text ----------------------------------
(* Equality, classification and text forms of colours, and the names of the modes.         *)
(* Channel values are integers, scaled by Q; 4 of them are the tolerance 1/32768.          *)
EXTENDS Img
Q == 131072
Eps == 4
SameColor(a, b) == \A i \in 1..4 : AbsI(a[i] - b[i]) <= Eps
Transparent(c) == AbsI(Q - c[4]) > Eps
AnyTransparent(px) == \E i \in DOMAIN px : Transparent(px[i])
\* grey up to the tolerance; colours whose channels differ by about it may be seen either way
Spread(c) == LET lo == Min2(c[1], Min2(c[2], c[3]))
                 hi == Max2(c[1], Max2(c[2], c[3])) IN hi - lo
SurelyGrey(c) == Spread(c) < Eps
SurelyColored(c) == Spread(c) > 2 * Eps
GreyMayBe(px, v) == IF v THEN \A i \in DOMAIN px : ~SurelyColored(px[i])
                    ELSE \E i \in DOMAIN px : ~SurelyGrey(px[i])

--------------------------------------------------------------------------------
\* the numbers of ten-thousandths a channel may be rounded to (two only at a tie)
Rounded(q) == LET n == (q \div 8192) * 625 + ((q % 8192) * 625) \div 8192
                  far(k) == AbsI((k - (q \div 8192) * 625) * 8192 - (q % 8192) * 625) IN
              {k \in {n, n + 1} : far(k) <= 4096 + 8 + AbsI(q) \div 20000}
Trim(k) == IF k % 10 # 0 THEN 4 ELSE IF k % 100 # 0 THEN 3 ELSE IF k % 1000 # 0 THEN 2 ELSE 1
Pow10(n) == CASE n = 0 -> 1 [] n = 1 -> 10 [] n = 2 -> 100 [] n = 3 -> 1000 [] n = 4 -> 10000
Zeros(n) == CASE n = 0 -> "" [] n = 1 -> "0" [] n = 2 -> "00" [] n = 3 -> "000"
Digits(v) == IF v < 10 THEN 1 ELSE IF v < 100 THEN 2 ELSE IF v < 1000 THEN 3 ELSE 4
Decimal(k) == LET a == AbsI(k)
                  f == a % 10000
                  d == Trim(f)
                  fr == f \div Pow10(4 - d) IN
              (IF k < 0 THEN "-" ELSE "") \o ToString(a \div 10000) \o "." \o Zeros(d - Digits(fr)) \o ToString(fr)
\* a small negative number may keep its sign
Texts(q) == {Decimal(k) : k \in Rounded(q)} \cup (IF q < 0 /\ 0 \in Rounded(q) THEN {"-0.0"} ELSE {})
Printed(name, c) ==
    LET t == Transparent(c)
        body == {a \o ", " \o b \o ", " \o d : a \in Texts(c[1]), b \in Texts(c[2]), d \in Texts(c[3])} IN
    IF t THEN {name \o "a(" \o x \o ", " \o y \o ")" : x \in body, y \in Texts(c[4])}
    ELSE {name \o "(" \o x \o ")" : x \in body}

--------------------------------------------------------------------------------
\* the names of the colour models
Models == {<<m>> : m \in {"rgb", "srgb", "hsl", "hsv", "yuv", "xyz"}} \cup ({"lab", "lch"} \X {"D50", "D65", "E"} \X {"O2", "O10"})
ModelName(m) == IF m[1] \in {"lab", "lch"} THEN m[1] \o "<" \o m[2] \o "," \o m[3] \o ">" ELSE m[1]

\* the text of (0, 1/2, 1), with alpha 1/2 or none, where channel i has the text t
Around(m, i, clear, t) ==
    LET n == ModelName(m)
        c(k, d) == IF k = i THEN t ELSE d IN
    (IF clear THEN n \o "a(" ELSE n \o "(") \o c(1, "0.0") \o ", " \o c(2, "0.5") \o ", " \o c(3, "1.0")
    \o (IF clear THEN ", " \o c(4, "0.5") ELSE "") \o ")"

\* for every option its names and the mode each stands for
Modes ==
  [Intensity |-> <<<<"average", "Average">>, <<"rec601luma", "Rec601Luma">>, <<"rec709luma", "Rec709Luma">>, <<"default", "Rec709Luma">>,
      <<"brightness", "Brightness">>, <<"lightness", "Lightness">>, <<"saturation", "Saturation">>, <<"red", "Red">>, <<"green", "Green">>, <<"blue", "Blue">>>>,
   DrawingMode |-> <<<<"gray", "Gray">>, <<"colored", "Colored">>, <<"default", "Colored">>, <<"reduced_colors", "ReducedColors">>>>,
   EdgeDetection |-> <<<<"sobel", "Sobel">>, <<"default", "Sobel">>, <<"laplace", "Laplace">>>>,
   EqualizeMode |-> <<<<"rgb", "Rgb">>, <<"srgb", "Srgb">>, <<"saturation", "Saturation">>, <<"lightness", "Lightness">>, <<"saturation_lightness", "SaturationLightness">>>>,
   BalanceMode |-> <<<<"rgb", "Rgb">>, <<"srgb", "Srgb">>, <<"hsv", "Hsv">>, <<"hsl", "Hsl">>, <<"lch", "Lch">>>>,
   FilterMode |-> <<<<"nearest", "Nearest">>, <<"bilinear", "Bilinear">>, <<"bicubic", "Bicubic">>, <<"lanczos3", "Lanczos3">>, <<"Lanczos", "Lanczos3">>,
      <<"auto", "Auto">>, <<"default", "Auto">>>>,
   SaturationMode |-> <<<<"hsl", "Hsl">>, <<"default", "Hsl">>, <<"hsv", "Hsv">>, <<"lch", "Lch">>>>,
   BlendOp |-> <<<<"normal", "Normal">>, <<"addition", "Addition">>, <<"subtract", "Subtract">>, <<"darken", "Darken">>, <<"lighten", "Lighten">>,
      <<"hsl_darken", "HslDarken">>, <<"hsl_lighten", "HslLighten">>, <<"lch_darken", "LchDarken">>, <<"lch_lighten", "LchLighten">>, <<"lch_hue", "LchHue">>,
      <<"lch_saturation", "LchSaturation">>, <<"lch_color", "LchColor">>>>,
   PngColorType |-> <<<<"l8", "L8">>, <<"la8", "La8">>, <<"l16", "L16">>, <<"la16", "La16">>, <<"rgb8", "Rgb8">>, <<"rgba8", "Rgba8">>, <<"rgb16", "Rgb16">>, <<"rgba16", "Rgba16">>>>,
   PngFilterType |-> <<<<"no_filter", "NoFilter">>, <<"sub", "Sub">>, <<"up", "Up">>, <<"avg", "Avg">>, <<"paeth", "Paeth">>>>,
   PngCompression |-> <<<<"default", "Default">>, <<"fast", "Fast">>, <<"best", "Best">>>>,
   WebPPreset |-> <<<<"default", "Default">>, <<"picture", "Picture">>, <<"photo", "Photo">>, <<"drawing", "Drawing">>, <<"icon", "Icon">>, <<"text", "Text">>, <<"lossless", "Lossless">>>>,
   JpegSamplingFactor |-> <<<<"1x1", "F_1_1">>, <<"1x2", "F_1_2">>, <<"2x1", "F_2_1">>, <<"2x2", "F_2_2">>, <<"4x1", "F_4_1">>, <<"4x2", "F_4_2">>, <<"1x4", "F_1_4">>, <<"2x4", "F_2_4">>,
      <<"4:4:4", "R_4_4_4">>, <<"4:4:0", "R_4_4_0">>, <<"4:4:1", "R_4_4_1">>, <<"4:2:2", "R_4_2_2">>, <<"4:2:0", "R_4_2_0">>, <<"4:2:1", "R_4_2_1">>, <<"4:1:1", "R_4_1_1">>, <<"4:1:0", "R_4_1_0">>>>,
   BmpColorType |-> <<<<"l8", "L8">>, <<"la8", "La8">>, <<"rgb8", "Rgb8">>, <<"rgba8", "Rgba8">>>>,
   IcoColorType |-> <<<<"l8", "L8">>, <<"la8", "La8">>, <<"rgb8", "Rgb8">>, <<"rgba8", "Rgba8">>>>]
Options == DOMAIN Modes
Named(opt, name) == {Modes[opt][i][2] : i \in {j \in DOMAIN Modes[opt] : Modes[opt][j][1] = name}}
\* the outcome of parsing: <<TRUE, mode>>, or <<FALSE, what the error says>>
Parsed(opt, name) == IF Named(opt, name) # {} THEN <<TRUE, CHOOSE m \in Named(opt, name) : TRUE>>
                     ELSE <<FALSE, "Unknown value for " \o opt \o ": " \o name>>
================================================================================
