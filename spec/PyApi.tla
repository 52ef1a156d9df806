---------------------------------- MODULE PyApi ----------------------------------
(* The Python module as a caller of the library.  Programs hold images under names; a call   *)
(* takes images and argument texts ("" is an argument left out).  What the library does with *)
(* a complete call is a fact (recorded from it); the module adds the defaults, stores what   *)
(* comes back and, for the few calls that edit in place, replaces the first image.           *)
EXTENDS Noise, Sequences, TLC
One0 == "x3f800000"
Half0 == "x3f000000"
Zero0 == "x00000000"
Clear == "x00000000,x00000000,x00000000,x00000000"
\* required arguments and the defaults of the others
Table == [
  new |-> <<2, <<"none">>>>, from_list |-> <<3, <<>>>>, open |-> <<1, <<>>>>,
  width |-> <<0, <<>>>>, height |-> <<0, <<>>>>, len |-> <<0, <<>>>>, has_transparency |-> <<0, <<>>>>, is_grayscale |-> <<0, <<>>>>,
  is_in_image |-> <<2, <<>>>>, get_pixel |-> <<2, <<>>>>, getitem |-> <<2, <<>>>>, get_pixel_clamped |-> <<2, <<>>>>,
  put_pixel |-> <<3, <<>>>>, setitem |-> <<3, <<>>>>,
  mod_colors |-> <<1, <<>>>>, mod_colors_enumerated |-> <<1, <<>>>>, map_colors |-> <<1, <<>>>>, map_colors_enumerated |-> <<1, <<>>>>,
  crop |-> <<4, <<>>>>, flip_horizontal |-> <<0, <<>>>>, flip_vertical |-> <<0, <<>>>>,
  rotate90 |-> <<0, <<>>>>, rotate180 |-> <<0, <<>>>>, rotate270 |-> <<0, <<>>>>,
  rotate |-> <<1, <<"bilinear">>>>, resize |-> <<2, <<"bilinear">>>>, resize_pct |-> <<1, <<"bilinear">>>>,
  edge_detection |-> <<0, <<"sobel">>>>, with_jpeg_quality |-> <<1, <<"true">>>>,
  gaussian_blur |-> <<1, <<"none">>>>, unsharp |-> <<1, <<One0, "none">>>>, drawing |-> <<1, <<"default">>>>, interlace |-> <<1, <<>>>>,
  apply_palette |-> <<0, <<>>>>, apply_palette_in_place |-> <<0, <<>>>>,
  despeckle |-> <<0, <<"x3dcccccd", "1">>>>, symmetric_nearest_neighbor |-> <<0, <<"4", "true">>>>,
  compose |-> <<1, <<Clear>>>>, blend |-> <<0, <<"normal", One0>>>>,
  stretch_contrast |-> <<0, <<Half0>>>>, optimize_saturation |-> <<0, <<One0, "hsl">>>>,
  change_color_temperature |-> <<2, <<Zero0>>>>, optimize_color_temperature |-> <<1, <<Zero0>>>>, optimize_lightness |-> <<1, <<>>>>,
  white_balance |-> <<0, <<Half0>>>>, balance |-> <<0, <<"rgb", Half0>>>>, equalize |-> <<0, <<"srgb">>>>,
  save |-> <<1, <<>>>>,
  save_jpeg |-> <<1, <<"85", "false", "none", "false", "true">>>>, save_png |-> <<1, <<"rgba8", "default", "sub">>>>,
  save_gif |-> <<1, <<>>>>, save_bmp |-> <<1, <<"rgba8">>>>, save_ico |-> <<1, <<"rgba8">>>>, save_webp |-> <<1, <<"90", "default">>>> ]
Names == DOMAIN Table
InPlace == {"put_pixel", "setitem", "mod_colors", "mod_colors_enumerated", "apply_palette_in_place"}
\* calls made without an image, and with more than one
Makers == {"new", "from_list", "open"}
Inputs(f) == IF f \in Makers THEN {0} ELSE IF f \in {"apply_palette", "apply_palette_in_place", "blend"} THEN {2}
             ELSE IF f = "compose" THEN {1, 2, 3} ELSE {1}
Saved == [save |-> "none", save_jpeg |-> "jpeg", save_png |-> "png", save_gif |-> "gif", save_bmp |-> "bmp", save_ico |-> "ico", save_webp |-> "webp"]
Req(f) == Table[f][1]
Defaults(f) == Table[f][2]
Arity(f) == Req(f) + Len(Defaults(f))
Filled(f, given) == [i \in 1..Arity(f) |-> IF given[i] # "" \/ i <= Req(f) THEN given[i] ELSE Defaults(f)[i - Req(f)]]
\* the complete call of the library
LibName(f) == IF f \in DOMAIN Saved THEN "save" ELSE f
LibArgs(f, given) == IF f \in DOMAIN Saved THEN <<Saved[f]>> \o Filled(f, given) ELSE Filled(f, given)

\* slots: what the names hold
Set(m, s, d) == [x \in DOMAIN m \union {s} |-> IF x = s THEN d ELSE m[x]]
Held(m, ins) == [i \in DOMAIN ins |-> m[ins[i]]]
\* r: the library's outcome [k, img, val, self]
AfterCall(m, f, ins, dst, r) ==
    LET a == IF f \in InPlace THEN Set(m, ins[1], r.self) ELSE m IN
    IF dst # "" /\ r.k = "ok" /\ r.img # "" THEN Set(a, dst, r.img) ELSE a

\* colours: type and channel texts
Space(kind, ill, obs) ==
    IF ill \in {"D65", "D50", "E"} /\ obs \in {"2", "10"} THEN kind \o ill \o "O" \o obs ELSE "unknown"
Or(a, d) == IF a = "" THEN d ELSE a
Plain == {"Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz"}
Conversions == [to_rgb |-> "Rgb", to_srgb |-> "Srgb", to_hsl |-> "Hsl", to_hsv |-> "Hsv", to_yuv |-> "Yuv", to_xyz |-> "Xyz"]
\* the library's name and arguments for a method of a colour; t: its type
ColorCall(t, m, a) ==
    CASE m \in DOMAIN Conversions -> [t |-> t, m |-> "to", a |-> <<Conversions[m]>>]
      [] m = "to_lab" -> [t |-> t, m |-> "to", a |-> <<Space("Lab", Or(a[1], "D65"), Or(a[2], "2"))>>]
      [] m = "to_lch" -> [t |-> t, m |-> "to", a |-> <<Space("Lch", Or(a[1], "D65"), Or(a[2], "2"))>>]
      [] m = "to_gray" -> [t |-> t, m |-> m, a |-> <<Or(a[1], "none")>>]
      [] m \in {"str", "repr"} -> [t |-> t, m |-> "str", a |-> a]
      [] OTHER -> [t |-> t, m |-> m, a |-> a]
\* making one: kind, and for Lab and Lch the white point
MadeType(kind, ill, obs) == IF kind \in {"Lab", "Lch"} THEN Space(kind, Or(ill, "D65"), Or(obs, "2")) ELSE kind
MadeAlpha(a) == Or(a, One0)
================================================================================
