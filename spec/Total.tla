----------------------------------- MODULE Total -----------------------------------
(* Totality: for every operation the size of its result and what becomes of alpha, as a  *)
(* transition system over (width, height, alpha of every pixel).                          *)
EXTENDS Real
Tones == {"tone_gray", "tone_invert", "tone_gamma", "tone_gamma_opt", "tone_level", "tone_brightness", "tone_saturation", "tone_stretch_saturation",
          "tone_gamma_saturation", "tone_lightness", "tone_hue_rotate", "tone_contrast", "tone_brightness_contrast", "tone_vibrance",
          "tone_sepia", "tone_modulate", "tone_map_channels", "tone_gray_intensity", "tone_with_red"}
Keeps == Tones \cup {"random_noise", "rgb_noise", "gaussian_noise", "white_balance", "balance", "despeckle", "stretch_contrast", "optimize_saturation",
          "change_color_temperature", "optimize_color_temperature", "optimize_lightness", "equalize", "convert"}
Opaques == {"edge_detection", "tone_difference"}
\* sizes as a set of allowed <<w, h>>; o: the second image
Scale(n, p) == LET f(k) == Max2(1, (2 * n * p + k) \div 200) IN {f(99), f(101)}       \* rounded, ties either way
Sizes(k, q, w, h, ow, oh) ==
    CASE k = "crop" -> {<<Min2(q[3], w - q[1]), Min2(q[4], h - q[2])>>}
      [] k \in {"rotate90", "rotate270"} -> {<<h, w>>}
      [] k = "resize" -> {<<q[1], q[2]>>}
      [] k = "resize_pct" -> Scale(w, q[1]) \X Scale(h, q[1])
      [] k \in {"compose", "blend"} -> {<<Max2(w, ow), Max2(h, oh)>>}
      [] OTHER -> {<<w, h>>}
\* "keep", "opaque", "either" (kept or opaque per pixel) or "any"
Alpha(k, q) ==
    CASE k \in Keeps -> "keep"
      [] k \in Opaques -> "opaque"
      [] k = "drawing" -> IF q[1] = 1 THEN "keep" ELSE "opaque"
      [] k = "jpeg_quality" -> IF q[1] = 1 THEN "keep" ELSE "opaque"
      [] k = "salt_n_pepper_noise" -> "either"
      [] OTHER -> "any"
\* rounding of kept alphas, scaled by P
AlphaOk(rule, a, b) ==
    CASE rule = "keep" -> Close(a, b, 1)
      [] rule = "opaque" -> b = P
      [] rule = "either" -> b = a \/ b = P
      [] rule = "any" -> TRUE
AllOps == Keeps \cup Opaques \cup {"crop", "flip_horizontal", "flip_vertical", "rotate90", "rotate180", "rotate270", "rotate", "resize", "resize_pct", "jpeg_quality",
          "salt_n_pepper_noise", "gaussian_blur", "unsharp", "compose", "blend", "drawing", "interlace", "apply_palette", "symmetric_nearest_neighbor",
          "tone_alpha_blend", "apply_kernel"}
====================================================================================
