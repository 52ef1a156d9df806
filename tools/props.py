#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

prop("B01", "A pixel buffer is a row-major grid under every history of reads and writes",
 "After any sequence of creations, writes and reads, reading pixel (x, y) of a buffer returns exactly the last value written there (or its initial value), and no write changes any other pixel, the dimensions or the row-major raw data order. A plain access outside the buffer is refused and changes nothing, the optional access returns nothing exactly there, and the clamped access returns the nearest pixel inside. Only sizes that are both zero or both positive and at most MAX_BUFFER_SIZE pixels, with raw data of exactly width*height entries, can be created.",
 ["inputs", "histories"], "every buffer size, colour type, coordinate (including negative and far outside) and sequence of operations",
 "Unit tests touch one 13x7 buffer each and a handful of coordinates; they never follow a write with reads of all other cells, use no extreme coordinates and no refused accesses.",
 ["d10-core/src/pixelbuffer.rs"],
 [("index arithmetic x + y*width with both coordinates asserted", "PixelBuffer::get_pixel/put_pixel"), ("edge clamp / bounds test", "get_pixel_clamped, get_pixel_optional, is_in_image"), ("size validation", "is_valid_buffer_size, validate_size, new_from_raw")],
 [dict(name="data", meaning="width*height pixels, row-major", where="PixelBuffer.data")], ["return values of the public PixelBuffer/Image API"])

prop("B02", "Whole-buffer edits visit every pixel once, in order, and fail cleanly",
 "Every map/modify operation over a buffer calls its function exactly once per pixel, in row-major order, with that pixel's coordinates and current value, and stores each result at the same position. The mapping forms leave the source unchanged. When the function fails at some pixel, the operation returns that error without visiting later pixels; the mapping forms then produce no buffer and the in-place forms keep the results already stored and leave the failing and all later pixels unchanged.",
 ["inputs", "histories"], "every buffer size, every position at which the function fails, and sequences of such edits",
 "Tests call each helper once on one buffer with a constant function; none fails in the middle or records the visiting order.",
 ["d10-core/src/pixelbuffer.rs", "d10/src/image.rs"],
 [("in-place and mapping loops", "mod_colors, try_mod_colors, map_colors, try_map_colors and their _enumerated forms"), ("building from a function", "new_from_func, try_new_from_func")],
 [dict(name="data", meaning="pixels, modified in place by the mod_ forms", where="PixelBuffer.data")], ["closure call sequence, returned result, buffer content afterwards"])

prop("B03", "Operations returning a new image never change their inputs",
 "Every image operation that returns a new image leaves all its input images bit-for-bit unchanged, and is a function of its inputs: repeating it on equal inputs gives an equal result (noise operations excepted). An in-place form and the returning form of the same operation produce the same image, and the methods of Image give the same result as the operation they expose.",
 ["inputs", "histories"], "all operations of the public image API, arbitrary parameters and sequences of operations on shared images",
 "Tests call the free functions or the methods, never both, and never look at the inputs afterwards.",
 ["d10/src/image.rs", "d10-ops/src/lib.rs"],
 [("wrapping of operations", "impl Image"), ("in-place variants", "apply_palette_in_place, add_*_noise, mod_colors")],
 [dict(name="live images", meaning="images a program holds", where="Image.buffer")], ["input buffers before/after, results of repeated calls"])

prop("K01", "Neighbourhood windows and convolutions replicate the image edge exactly",
 "The N x N window around a position contains, at every row and column, the pixel at that offset from the position with coordinates clamped to the image, for static and dynamic window sizes alike. Applying a convolution kernel (square or rectangular, odd or even size) gives, in each of the four channels of each pixel, the sum over the kernel of weight times the clamped pixel under it (the named kernels being the gaussian of the given size and sigma, weights adding up to one, and the Sobel pair), and the static, dynamic and single-pixel forms agree.",
 ["inputs"], "all image sizes including smaller than the kernel, window sizes, positions at and beyond each edge, kernels",
 "The tests evaluate one kernel on one small image; the fast path, the clamped path and their switch-over at each edge are not enumerated.",
 ["d10-core/src/pixelbuffer.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"],
 [("fast path inside / clamped path at edges", "get_kernel, get_kernel_dyn"), ("weighted sums", "Kernel::apply_kernel, apply_kernel, apply_kernel_dyn, get_kernel_value")],
 None, ["returned windows and convolved buffers"])

prop("G01", "Flips, quarter turns, crops and interlace move pixels exactly",
 "Horizontal and vertical flips and rotations by 90, 180 and 270 degrees clockwise place every source pixel, unchanged, at its mathematically defined position, with width and height swapped exactly for 90 and 270. A crop returns exactly the part of the requested rectangle that lies inside the image (an empty 0x0 image if there is none), and interlacing shifts even rows right and odd rows left by the offset, repeating the edge pixel. This holds in every sequence of such operations.",
 ["inputs", "histories"], "every image size, pixel content, crop rectangle (also outside or overflowing the image) and sequence of operations",
 "Tests compare single operations on one fixture image; compositions, one-pixel-wide images, crops that cross an edge and big offsets are not covered.",
 ["d10-ops/src/flip.rs", "d10-ops/src/rotate_90.rs", "d10-ops/src/crop.rs", "d10-ops/src/interlace.rs", "d10/src/image.rs"],
 [("index permutations", "flip_horizontal, flip_vertical, rotate90/180/270"), ("clamped rectangle", "crop"), ("row-wise clamped shift", "interlace")],
 [dict(name="current image", meaning="image after the operations so far", where="Image.buffer")], ["result dimensions and pixels"])

prop("G02", "Rotation by any angle samples the rotated position and fills the rest",
 "Rotating an image by any angle keeps its dimensions; each result pixel is the source sampled, with the chosen filter, at the position obtained by turning it back around the image centre (positive angles clockwise), and is the background colour (transparent unless set) exactly where that position rounds to a pixel outside the image. Rotation by 0 or 360 degrees is the identity.",
 ["inputs"], "all image sizes, angles (negative, above 360, exact right angles), filters and backgrounds",
 "Tests rotate one fixture by a few angles and compare a stored result.",
 ["d10-ops/src/rotate.rs", "d10-ops/src/filters.rs"],
 [("inverse mapping around the centre", "rotate_with_fn"), ("sampling or background", "rotate_pixel_*")], None, ["result pixels"])

prop("R01", "Resizing samples the matching source position with the requested size",
 "Resizing returns exactly the requested dimensions and resizing to the same dimensions returns the same pixels. Each pixel is the source resampled at the proportionally scaled position, with edge replication: the nearest pixel to that position for Nearest, linear, cubic (Catmull-Rom) or windowed-sinc weights for the others, and Auto uses the cubic when a dimension is not reduced and the sinc window scaled to the reduction otherwise. resize_pct rounds each scaled dimension and never goes below one pixel.",
 ["inputs"], "all source and target sizes (up, down, mixed, extreme ratios), filters and pixel contents",
 "Tests resize a fixture to two sizes and compare hashes of stored images; ratios, phases and edges are not covered.",
 ["d10-ops/src/resize.rs", "d10-ops/src/filters.rs", "d10/src/image.rs"],
 [("position mapping", "resize_with_fn, resize_pixel_*"), ("filters", "get_pixel_bilinear, get_pixel_bicubic, get_pixel_lanczos, get_pixel_lanczos_dyn"), ("size rounding", "Image::resize_pct")], None, ["result dimensions and pixels"])

prop("R02", "Resampling keeps flat areas flat, opaque pixels opaque and values in range",
 "Resizing or rotating, with any filter, an image whose pixels are all in [0, 1] yields only pixels in [0, 1]. Wherever all source pixels a result depends on have the same colour the result is that colour; in particular a single-coloured image stays that colour and an opaque image stays opaque (rotation background excepted).",
 ["inputs"], "all filters, source and target sizes, ratios and angles",
 "No test resizes a constant image or looks at the alpha channel or the range after resampling.",
 ["d10-ops/src/filters.rs", "d10-ops/src/resize.rs", "d10-ops/src/rotate.rs"],
 [("weight normalisation and clamping", "get_pixel_*")], None, ["result pixels"])

prop("C01", "Composing images covers the union area with exactly the right sources",
 "Composing any number of images yields an image as wide as the widest and as high as the highest of them. The combining function is called exactly once per position in row-major order with that position and, for each image in the given order, its pixel there or the default colour where it has none; its value becomes the result pixel. A failing function stops the composition at once with its error and no image.",
 ["inputs", "histories"], "every number, order and size of images, array and slice forms, and every failing position",
 "Tests compose two equally sized images.",
 ["d10-ops/src/compose.rs", "d10/src/image.rs"],
 [("union size, default outside", "try_compose, try_compose_slice, compose, compose_slice, Image::compose*")], None, ["function call sequence, result"])

prop("C02", "Blending mixes two images per pixel by operation, intensity and alpha",
 "Blending gives an image covering both inputs; where only one input has a pixel that pixel is copied unchanged, where neither has one the result is transparent black. Elsewhere every channel is the first image's value moved towards the operation's value (normal, addition, subtract, darken, lighten, and their HSL/LCH lightness, hue, saturation and colour forms) in proportion to the intensity, weighted by the second pixel's alpha in the RGB operations, and clamped to [0, 1]. Intensity 0 leaves the first image's colour unchanged.",
 ["inputs"], "all pairs of image sizes, pixel values, alphas, operations and intensities in [0, 1]",
 "Tests blend one image pair per operation at one intensity against stored pictures, with equal sizes.",
 ["d10-ops/src/blend.rs", "d10-core/src/color/rgb.rs"],
 [("coverage cases", "blend_image_with_func"), ("channel arithmetic", "blend_color, apply_intensity, alpha_blend"), ("HSL/LCH forms", "blend_hsl_*, blend_lch_*")], None, ["result pixels"])

prop("F01", "Despeckle, symmetric-neighbour and edge filters follow their definition",
 "Despeckling replaces exactly the pixels darker than the threshold whose 3x3 neighbourhood has at most the given number of such dark pixels, by the average colour of the neighbourhood's bright pixels (unchanged if there is none), keeping alpha. The symmetric nearest neighbour filter averages, over all rings up to the radius, the one of each of the four opposite pairs closer to the centre (the one to the lower right or right on a tie), plus the centre if asked. Edge detection returns the Sobel gradient magnitude or the 8-neighbour Laplacian per channel, always opaque; all replicate image edges and give finite values for all parameters.",
 ["inputs"], "all image sizes, contents, thresholds, amounts and radii",
 "Tests run each filter once on a fixture image with one parameter set.",
 ["d10-ops/src/despeckle.rs", "d10-ops/src/symmetric_nearest_neighbor.rs", "d10-ops/src/edge_detection.rs"],
 [("dark counting and averaging", "despeckle"), ("pair selection", "symmetric_nearest_neighbor"), ("kernels", "edge_detection_sobel, edge_detection_laplace")], None, ["result pixels"])

prop("F02", "Blur and sharpening use a normalised Gaussian and stay finite",
 "A Gaussian blur replaces each pixel's channels by the average of its clamped (2r+1)x(2r+1) neighbourhood weighted by exp(-d^2/(2 sigma^2)), sigma defaulting to radius/2, with weights summing to one. Sharpening adds factor times the difference between the pixel and that blur to every channel and clamps to [0, 1]. Both keep dimensions and give finite values, whatever the radius (radius 0 or sigma 0 leaves the image unchanged).",
 ["inputs"], "all image sizes (also smaller than the kernel), radii, sigmas, factors, pixel contents",
 "Tests blur one fixture with two radii.",
 ["d10-ops/src/gaussian_blur.rs", "d10-ops/src/unsharp.rs", "d10-core/src/kernel.rs", "d10-core/src/kernel_dyn.rs"],
 [("kernel construction", "Kernel::new_gaussian, KernelDyn::new_gaussian"), ("static/dynamic choice", "gaussian_blur"), ("mask", "unsharp")], None, ["result pixels"])

prop("A01", "Image operations are total: right size, finite channels, sane alpha",
 "For every non-empty image with channels in [0, 1] and every parameter in an operation's documented range, the operation returns without crashing an image of the right dimensions in which every channel is a finite number. Colour adjustments, tone operations, HSL/HSV/LCH based operations and additive noise keep each pixel's alpha; edge detection and the drawing effect return opaque images (the coloured drawing modes keep alpha); simulated JPEG quality returns opaque pixels or, if asked, exactly the original alphas.",
 ["inputs", "histories"], "all operations, boundary parameters (zero radius, zero sigma, 0/1 thresholds, extreme factors), grey, black, white and tiny images, and sequences of operations",
 "Tests run on colourful fixtures with mid-range parameters; degenerate images and boundary parameters are where divisions by zero appear.",
 ["d10-ops/src", "d10-core/src/color", "d10/src/image.rs"],
 [("guards against empty sums and zero deltas", "despeckle, new_gaussian, to_hsv, ..."), ("alpha hand-over", "Rgb::map_channels, Hsl/Hsv/Lch conversions")], None, ["result dimensions, finiteness and alpha of every pixel"])

prop("T01", "Per-pixel adjustments compute their defined value and clamp it",
 "Grey conversion (in each of its intensity modes), invert, gamma, split gamma, level, brightness, contrast, brightness-contrast, sepia and difference compute each colour channel by their defined formula from the same pixel only, and keep alpha (difference is opaque). The adjusting ones clamp the result to [0, 1], and their neutral parameter (gamma 1, factor 1 or offset 0, level 0..1) leaves in-range pixels unchanged.",
 ["inputs"], "all pixel values and parameters, including zero, negative and extreme ones",
 "Tests check one colour with one parameter per method.",
 ["d10-core/src/color/rgb.rs"],
 [("channel maps", "Rgb::to_gray_with_intensity, invert, with_gamma, with_gamma_opt, with_level, with_brightness, with_contrast, with_brightness_contrast, with_sepia, difference"), ("clamping", "map_channels, clamp")], None, ["returned pixel"])

prop("T02", "Hue, saturation and lightness adjustments change only their own component",
 "Changing saturation, lightness or hue, stretching or gamma-adjusting saturation, vibrance and modulation act on the pixel's HSL form: the named component becomes its defined, clamped value (a hue rotation by any number of degrees moves the hue around the circle) while the other components and alpha stay as they were, and the result is converted back. The neutral parameter leaves every pixel unchanged and a grey pixel's hue rotation changes nothing.",
 ["inputs"], "all pixels (also grey, black, white and translucent) and parameters, including several turns of hue",
 "Tests adjust one colour by one value each.",
 ["d10-core/src/color/rgb.rs", "d10-core/src/color/hsl.rs", "d10-core/src/color/mod.rs"],
 [("HSL round trip with one component replaced", "with_saturation, stretch_saturation, with_gamma_saturation, with_lightness, with_hue_rotate, with_vibrance, modulate")], None, ["returned pixel"])

prop("H01", "Histogram operations map channel values by the image's own distribution",
 "Equalising maps each treated channel value to the normalised cumulative count of the image's 256-step histogram; stretching contrast maps the darkest and brightest grey steps that remain after dropping the threshold share of pixels (for thresholds below one half) to 0 and 1; balancing levels each treated channel between its own such extremes. Equal inputs give equal outputs, a larger channel value never gets a smaller result, pixel order and position do not matter, untreated components and alpha are kept.",
 ["inputs"], "all images (single-valued, two-valued, many-valued), modes and thresholds",
 "The result depends on the whole image; tests compare single fixtures with stored pictures.",
 ["d10-ops/src/equalize.rs", "d10-ops/src/stretch_contrast.rs", "d10-ops/src/balance_channels.rs"],
 [("histogram and cumulative sums", "channel_histogram, get_color_values, get_min_value, get_max_value"), ("mapping", "pick_value, level_channel, with_level")], None, ["result pixels"])

prop("H02", "Automatic corrections apply one image-derived setting to every pixel",
 "Optimising lightness applies a single gamma derived from the mean lightness, optimising saturation (for offsets of zero or more) a saturation power derived from the mean saturation in the chosen model, and changing colour temperature one factor per channel derived from the two temperatures (equal temperatures with no tint change nothing). Each result pixel depends only on its own source pixel and that image-wide value, so it does not change with the order or repetition of the image's pixels, and alpha is kept.",
 ["inputs"], "all images, factors, offsets, temperatures, tints and modes",
 "Tests compare single fixtures; the dependence on image-wide averages is never isolated.",
 ["d10-ops/src/lightness.rs", "d10-ops/src/saturation.rs", "d10-ops/src/temperature.rs"],
 [("image averages", "optimize_lightness, avg_saturation, optimize_color_temperature"), ("per-pixel application", "with_gamma, saturate_*, change_color_temperature")], None, ["result pixels"])

prop("E01", "Drawing and JPEG simulation are exactly the steps they are made of",
 "The drawing effect compares, per pixel, a sharpened and slightly contrasted copy of the lightened image (0.2 + 0.8 v) with its blur of the given radius: the smallest ratio of the two among the average and every channel above 0.8 in either gives the ink, white above 0.8 and 1.2 (ratio - 0.5), not below 0, otherwise; sharpened (radius 2, factor 1) and freed of lone pixels darker than 0.15 this is the gray drawing, gray and opaque. The colored drawing is the original with its HSL lightness limited by the gray drawing, keeping alpha; reduced colors give the gray drawing the halved HSV saturation of the original blurred by 2, its hue blurred by 3 and its value blurred by 4 as a factor, sharpened, enriched and opaque. Simulating a JPEG quality returns what encoding and decoding with that quality gives, with the original alpha if asked and opaque otherwise. All keep the size.",
 ["inputs"], "all images, radii, modes, qualities",
 "Tests run each effect once on one picture, if at all; the chain of steps is never checked.",
 ["d10-ops/src/drawing.rs", "d10-ops/src/jpeg_quality.rs"],
 [("the chain of the drawing", "drawing, merge_color, merge_color_reduced"), ("encode, decode, restore alpha", "jpeg_quality")], None, ["result pixels"])

prop("L01", "Applying a palette picks the nearest palette colour for every pixel",
 "Every result pixel is one of the palette's colours, and none of the palette's colours is closer to the source pixel in Lab distance; among equally near ones the first wins. The position in the image, the other pixels and the palette's layout do not matter, applying the same palette again changes nothing, and an empty palette gives transparent black.",
 ["inputs"], "all images, palettes (sizes, orders, duplicates, colour types) ",
 "Tests use one palette and one image.",
 ["d10-ops/src/apply_palette.rs"],
 [("argmin over palette", "get_color_from_palette")], None, ["result pixels"])

prop("N01", "Noise only ever produces its allowed outcomes",
 "Salt-and-pepper noise leaves each pixel unchanged or makes it opaque black or opaque white; RGB noise leaves it unchanged or sets exactly one colour channel to full; random and Gaussian noise mix each colour channel with noise by the given share, keep alpha and stay in [0, 1]. Share or threshold 0 changes nothing, the share of affected pixels follows the threshold independently per pixel, and the dimensions never change; in-place forms behave alike.",
 ["inputs", "histories"], "all images, thresholds and random draws",
 "The draws are random, so tests cannot compare results; they only check that calls succeed.",
 ["d10-ops/src/salt_n_pepper_noise.rs", "d10-ops/src/rgb_noise.rs", "d10-ops/src/random_noise.rs", "d10-ops/src/gaussian_noise.rs"],
 [("per-pixel draw", "salt_n_pepper, rgb_noise_for_pixel, random_noise, gaussian_noise")], None, ["result pixels"])

prop("V01", "Colour conversions agree with their definition and round-trip",
 "Converting any in-range RGB colour to sRGB, HSL, HSV, YUV, XYZ, Lab or LCh and back returns the same colour within rounding, always finite and with unchanged alpha, and conversions between two non-RGB models agree with going through RGB. The HSL, HSV, sRGB, YUV, XYZ and Lab/LCh values are the defined functions of the colour, and converting a whole buffer or iterator converts each pixel exactly so.",
 ["inputs"], "all colours (grey, black, white, saturated, near sector borders), alphas, colour-model pairs, illuminants and observers",
 "Tests convert a dozen fixed colours.",
 ["d10-core/src/color"],
 [("conversion functions", "Color::to_srgb/to_hsl/to_hsv/to_yuv/to_xyz/to_lab/to_lch, */to_rgb"), ("bulk conversion", "PixelBuffer::to_*, ColorIter")], None, ["converted values"])

prop("V02", "Colour equality, classification and text forms are consistent",
 "Two colours of the same model are equal exactly if all channels including alpha differ by at most 1/32768; transparency means alpha differing from one by more than that, and an image is transparent if any pixel is and grey if all are. A colour prints as its lower-case model name, with an a appended and the alpha printed only if transparent, and its channels rounded to four decimals, a number and its negation alike. Each option name parses to its own documented mode and anything else is an error naming the value.",
 ["inputs"], "all colours, models, channel differences and option names",
 "Tests check single colours and names; rounding, alpha and boundaries are not covered.",
 ["d10-core/src/color/mod.rs", "d10-core/src/color", "d10-core/src/errors.rs", "d10-ops/src", "d10-codecs/src"],
 [("tolerant equality", "PartialEq impls, has_transparency, is_grayscale"), ("printing", "format_color"), ("parsing", "FromStr impls")], None, ["comparison results, strings"])

prop("V03", "A colour is four independent channels",
 "Setting a channel of a colour of any model, alpha included, changes that channel and no other, and the accessors, the data and the colour's copies agree on every channel afterwards; the with_ forms return the same change and leave the colour alone. Constructors take the channels in order, opaque without an alpha, and limit RGB and sRGB colours to 0..1; the default colour is all zero and the named colours are what they are called. Mapping the colour channels applies the function to the three colour channels in order and never to alpha, and stops at the first failure without touching the colour. The largest and smallest channel of an RGB colour in range are just that. Converting by From and by iterators (owned or borrowed) gives the same channels as converting each colour, and iterators promise no count they do not keep.",
 ["inputs", "histories"], "all histories of calls on colours of all models, all channel values",
 "Tests set single channels of fixed colours; combinations of calls, failing maps and most From conversions are never executed.",
 ["d10-core/src/color"],
 [("channel storage", "data, get/set/with of every model, new*, Default"), ("maps", "try_map_color_channels, map_channels*, mod_color_channels"), ("bulk forms", "From impls, ColorIter, ColorIterRef")], None, ["channel values"])

prop("Q01", "A command queue runs its commands in order and stops at the first failure",
 "Running a queue applies its commands one after another, in the order they were added, to the image opened last; every save writes exactly the image as it is at that moment. The first command that fails (no image opened, unreadable input, unwritable or unsupported output) ends the run with that error: files saved before it stay, no later command has any effect. Unless silenced before, each executed command is announced with its position and the number of announced commands.",
 ["histories", "fault_sequences"], "every sequence of commands and every position of a failing command",
 "Tests only push commands and compare lengths; no queue is ever run.",
 ["d10-commands/src/queue.rs", "d10-commands/src/commands.rs", "d10-commands/src/log.rs", "d10-commands/src/errors.rs"],
 [("sequential execution with early return", "execute"), ("current image", "Context.image"), ("step numbering", "Log")],
 [dict(name="image", meaning="the current image or none", where="Context.image"), dict(name="files", meaning="what has been saved", where="file system")], ["files written, result, standard output"])

prop("Q02", "The command line runs exactly the commands it names, or nothing",
 "The command line is translated left to right into commands: a leading file name opens, any later one saves, each option takes exactly its own parameters and stands for its own operation with these values. An unknown option, a missing or malformed parameter anywhere makes the whole call fail with a message on standard error and exit status 1 before any file is read or written. Otherwise the commands run in that order, and the exit status is 0 if all succeeded and 1 with a message if one failed.",
 ["inputs", "histories"], "every argument list, including errors after valid arguments and file names that look like options",
 "There is no test of the command line tool at all.",
 ["d10-cli/src/main.rs", "d10-commands/src"],
 [("parse everything, then run", "main, Args::parse, Args::parse_arg"), ("option table", "create_args")],
 [dict(name="queue", meaning="commands parsed so far", where="Args::parse")], ["exit status, standard error, files"])

prop("X01", "The image format is recognised by content first, by extension second",
 "Reading an image file uses the format whose signature its content starts with, whatever its name; only content without a known signature falls back to the (case-insensitive) file extension, and if that is unknown too, or for in-memory data, reading fails as unknown format. Detection does not consume input, and content that is not a valid image of the chosen format is an error, never an image.",
 ["inputs", "configurations"], "all leading byte sequences (also truncated signatures), file names and combinations",
 "Tests load correctly named files only.",
 ["d10-codecs/src/lib.rs"],
 [("signature table", "Format::from_reader"), ("extension table", "Format::from_path"), ("precedence", "decode_file, decode_buffer")], None, ["which decoder result or error is returned"])

prop("X02", "Saving picks the requested format and leaves files alone when there is none",
 "Saving uses the explicitly given format, or else the one named by the file extension in any letter case, and the file then holds a complete image of that format with the same dimensions, replacing any previous content. With no format and an unknown or missing extension saving fails and an existing file keeps its content and no new file appears. Saving to a path that cannot be opened or written fails.",
 ["inputs", "fault_sequences"], "all paths, extensions, pre-existing files, formats and target failures",
 "Tests encode into memory buffers; saving to files is never tested.",
 ["d10-codecs/src/lib.rs", "d10/src/image.rs"],
 [("format decided before the file is created", "encode_to_file"), ("extension table", "EncodingFormat::from_path")],
 [dict(name="file", meaning="content of the target path", where="file system")], ["file content, result"])

prop("X03", "Lossless formats return the pixels that were saved",
 "Encoding an image losslessly (PNG in every colour type, compression and filter, BMP, ICO, lossless WebP) and decoding it again gives the same dimensions and each channel equal to the original rounded to the nearest step of the stored precision (8 or 16 bit sRGB; grey formats hold the luma, formats without alpha become opaque; fully transparent WebP pixels may lose their colour). Consequently an image decoded from such a file survives any number of further saves unchanged.",
 ["inputs", "histories", "configurations"], "all images sizes and contents, colour types and encoder settings, and repeated save/load cycles",
 "Tests decode two fixtures; no test encodes and decodes again, so quantisation, channel order and 16 bit paths are unseen.",
 ["d10-codecs/src/utils.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs"],
 [("channel conversion", "to_*_vec, as_u8, as_u16, from_u8, from_u16_be"), ("per colour type decoding", "decode_png, read_into_buffer")], None, ["decoded pixels"])

prop("X04", "Encoding reports success only if the whole file was accepted",
 "When the destination fails at any point while an image is being written or flushed, or accepts fewer bytes at once, encoding or saving either delivers exactly the bytes a fault-free destination receives, or returns an error; it never reports success for an incomplete file and never crashes. This holds for every format and for saving to a path.",
 ["fault_sequences", "inputs"], "every byte position at which the destination can fail, short and interrupted writes, every format and setting",
 "Tests only write to memory, which never fails.",
 ["d10-codecs/src/lib.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs"],
 [("error propagation", "encode_*, encode_to_file, writer_function"), ("finishing the stream", "PNG end chunk, GIF trailer, buffered writer flush")],
 [dict(name="sink", meaning="bytes accepted so far", where="the destination writer")], ["result, bytes received"])

prop("X05", "Decoding damaged data yields an error or a well-formed image",
 "Decoding arbitrary, truncated or corrupted data never crashes or hangs: it returns an error or an image whose pixel count matches its dimensions, with all channels finite and in [0, 1]. A file cut off before its image data is complete is never returned as a complete image by the PNG and lossless WebP decoders, and the PNG decoder answers any changed byte of the header or of the image data, which carry checksums, with an error. A file without any picture in it is an error in every format.",
 ["inputs", "fault_sequences"], "every truncation point and corruption of files of every format",
 "Tests decode two intact files.",
 ["d10-codecs/src"],
 [("error mapping", "decode_*"), ("size validation", "is_valid_buffer_size checks")], None, ["result"])

prop("X06", "Lossy formats keep size, respect limits and approximate the picture",
 "JPEG, GIF and lossy WebP output decodes to the same dimensions; JPEG is always opaque (grey when asked), GIF alpha is all or nothing and its colours are exact for images of at most 256 colours, and flat images keep their colour within the quality's error, in the right channels. Images too large for the format, or empty ones, are refused with an error without writing a file that claims success, and quality values outside the valid range act like the nearest valid one.",
 ["inputs", "configurations"], "all sizes (also empty and above the format limit), qualities, sampling, progressive and preset settings",
 "Tests encode one fixture with one quality.",
 ["d10-codecs/src/jpeg.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-ops/src/jpeg_quality.rs"],
 [("dimension checks", "encode_gif, encode_jpeg"), ("quality clamp", "encode_jpeg, encode_webp"), ("option mapping", "SamplingFactor conversion, presets")], None, ["decoded image, result"])

prop("X07", "Decoding reads every kind of valid file as the picture it describes",
 "A valid file, whichever program wrote it, decodes to the picture the format's definition gives: PNG of every colour type and bit depth, with palettes, transparency chunks, interlacing and split image data; BMP with 1 to 32 bits per pixel, palettes, bit fields and either row order; GIF with global or local palettes, interlacing, a transparent index and more than one frame (the first counts); ICO with BMP or PNG entries; JPEG in grey, colour and CMYK, lossless ones (8 and 16 bits) included. Sizes are right, every pixel stands at its place and each channel equals the stored value scaled to [0, 1] (within the error of JPEG compression there).",
 ["inputs", "configurations"], "all sizes, sample values, colour types, bit depths, palettes and file layouts the formats allow",
 "Tests decode one 8 bit file per format, and the library's own encoders write only a few of the kinds its decoders must read.",
 ["d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/utils.rs"],
 [("colour type branches", "decode_png, decode_jpeg, decode_gif"), ("sample scaling", "from_u8, from_u16_be, read_into_buffer")], None, ["decoded pixels"])

prop("X08", "Written files have the form that was asked for",
 "The options of a file format decide the form of the written file and nothing else does: a JPEG file has the frame type (baseline or progressive), components, sampling factors and quantisation tables which the requested mode, greyness, sampling factor (aliases included; left out: by quality) and quality stand for (qualities beyond 1..100 count as the nearest one), with standard or fitted codes; a PNG file has the requested colour type, depth, compression level and row filter; BMP and ICO the requested depth; a WebP file is lossless or has the quantiser and filter settings of its preset and quality, with an alpha part exactly when the image has transparent pixels. Sizes in the headers are the image's, lengths and checks fit the file and nothing follows its end. The formats made by name or from a file name's ending are the documented defaults. Every request names the format its file has. Saving the same image again gives the same bytes, and packing options (progressive, fitted codes, compression, filter) never change the decoded image.",
 ["inputs", "configurations"], "all images, qualities, options and their combinations",
 "Tests save with a handful of option combinations and look at nothing but the decoded image, which looks alike when an option is ignored or mixed up with another.",
 ["d10-codecs/src/lib.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/png.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/webp.rs", "d10-core/src/image.rs"],
 [("option mapping", "encode_jpeg, encode_png, encode_bmp, encode_webp, From<JpegSamplingFactor>"), ("defaults", "EncodingFormat::*_default, from_path")], None, ["bytes of written files"])

prop("Z01", "Failures name their cause",
 "A failing call reports the first thing that went wrong, and nothing else: saving without a known format reports the path (before anything is created), a missing or unwritable target the operating system's own error, a picture the format cannot hold the format and both dimensions (GIF and JPEG beyond 65535, empty BMP and GIF; before anything is written), a full disk its error. An error of the destination comes back with its own kind, code and message from the encoder of every format, wherever in the file it strikes. Opening reports a missing file, unknown content, and the declared dimensions when they exceed the limit. An unknown option word is reported with the word and the option's type. A failing command passes the underlying error on unchanged (message and source), and the command line tool prints it, or the offending argument, parameter name and value, to stderr with exit code 1 and nothing on stdout.",
 ["inputs", "fault_sequences", "configurations"], "all combinations of path, extension, requested format, target state and picture size; every byte position and kind of destination error; all words, command lines and programs",
 "Tests never look at a message and never make a call fail for two reasons at once; nor do they check that a destination's own error survives five third-party encoders.",
 ["d10-codecs/src/errors.rs", "d10-codecs/src/lib.rs", "d10-codecs/src/jpeg.rs", "d10-codecs/src/png.rs", "d10-codecs/src/gif.rs", "d10-codecs/src/bmp.rs", "d10-codecs/src/ico.rs", "d10-codecs/src/webp.rs", "d10-commands/src/errors.rs", "d10-core/src/errors.rs", "d10-cli/src/main.rs"],
 [("error mapping", "encode_error/decode_error of every codec, impl Display and source"), ("order of the stages", "encode_to_file"), ("option words", "ParseEnumError"), ("argument messages", "d10-cli Args::parse")], None, ["error kind, code, message", "stderr and exit code"])

prop("Y01", "The Python module behaves exactly like the Rust library",
 "Every operation, colour conversion and option offered by the Python module returns the same image, colour, value or kind of failure (an OSError with the library's message) as the Rust library does for the same arguments and defaults; read-only operations leave their Python arguments unchanged.",
 ["inputs", "histories"], "all methods, argument combinations and defaults, sequences of operations",
 "Python tests check single calls against stored files; several method wrappers are never called.",
 ["d10-python/src/image.rs", "d10-python/src/color.rs"],
 [("argument mapping", "pymethods of Image and the colour classes")], None, ["values returned to Python"])

prop("Y02", "Images survive the trip through numpy arrays in every layout",
 "Exporting an image to a numpy array in any colour space, channel layout and number type and importing it back with the same settings gives the same image up to the precision of the number type (grey and alpha-less layouts lose exactly what they do not store; integer types hold only components in [0, 1], bool one bit of them: true from one half up), whatever the memory layout of the array; arrays and images never share data. Array shape is (height, width[, channels]), element [y, x] belongs to pixel (x, y), and unsupported shapes, types or colour spaces raise an error.",
 ["inputs", "configurations"], "all image sizes (non-square in particular), colour spaces, channel counts and number types",
 "Python tests round-trip one fixture in few combinations.",
 ["d10-python/src/image.rs"],
 [("conversion tables", "to_np_array, from_np_array")], None, ["arrays and images"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
