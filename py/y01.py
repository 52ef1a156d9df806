"""Y01: programs using the Python module, next to the library's answers."""
import os
import d10
from d10t import *

S = os.path.join
FILTERS = ["nearest", "bilinear", "bicubic", "lanczos3", "auto", "default", "Lanczos", "cubic"]
BLENDS = ["normal", "addition", "subtract", "darken", "lighten", "hsl_darken", "hsl_lighten", "lch_darken", "lch_lighten",
          "lch_hue", "lch_saturation", "lch_color", "multiply"]
WORDS = {
    "filter": FILTERS, "blend": BLENDS, "edge": ["sobel", "laplace", "default", "canny"],
    "drawing": ["gray", "colored", "default", "reduced_colors", "grey"], "sat": ["hsl", "hsv", "lch", "default", "rgb"],
    "balance": ["rgb", "srgb", "hsv", "hsl", "lch", "xyz"], "equalize": ["rgb", "srgb", "saturation", "lightness", "saturation_lightness", "hsl"],
    "intensity": ["average", "rec601luma", "rec709luma", "default", "brightness", "lightness", "saturation", "red", "green", "blue", "luma"],
    "png": ["l8", "la8", "l16", "la16", "rgb8", "rgba8", "rgb16", "rgba16", "rgb"], "comp": ["default", "fast", "best", "none"],
    "pngf": ["no_filter", "sub", "up", "avg", "paeth", "auto"], "bmp": ["l8", "la8", "rgb8", "rgba8", "l16"],
    "preset": ["default", "picture", "photo", "drawing", "icon", "text", "lossless", "best"],
    "sampling": ["1x1", "1x2", "2x1", "2x2", "4x1", "4x2", "1x4", "2x4", "4:4:4", "4:4:0", "4:2:2", "4:2:0", "3x3"],
    "bool": ["true", "false"], "cfunc": ["invert", "swap", "pos"], "vfunc": ["half", "neg"],
}
RANGES = {"angle": (-7, 7), "pct": (0.3, 2.4), "sigma": (0.4, 3), "factor": (0, 2), "unit": (0, 1), "thr": (0, 0.49), "temp": (1500, 9000),
          "tint": (-0.5, 0.5), "pos01": (0.05, 0.9)}
# the kinds of the arguments of every call
ARGS = {
    "new": ["size", "size", "color"], "from_list": ["size", "size", "list"], "open": ["file"],
    "width": [], "height": [], "len": [], "has_transparency": [], "is_grayscale": [],
    "is_in_image": ["pos", "pos"], "get_pixel": ["pos", "pos"], "getitem": ["pos", "pos"], "get_pixel_clamped": ["pos", "pos"],
    "put_pixel": ["x", "y", "color"], "setitem": ["x", "y", "color"],
    "mod_colors": ["cfunc"], "mod_colors_enumerated": ["cfunc"], "map_colors": ["cfunc"], "map_colors_enumerated": ["cfunc"],
    "crop": ["x", "y", "cw", "ch"], "flip_horizontal": [], "flip_vertical": [], "rotate90": [], "rotate180": [], "rotate270": [],
    "rotate": ["angle", "filter"], "resize": ["size", "size", "filter"], "resize_pct": ["pct", "filter"],
    "edge_detection": ["edge"], "with_jpeg_quality": ["quality", "bool"], "gaussian_blur": ["radius", "sigma"],
    "unsharp": ["radius", "factor", "sigma"], "drawing": ["radius", "drawing"], "interlace": ["small"],
    "apply_palette": [], "apply_palette_in_place": [], "despeckle": ["unit", "small"], "symmetric_nearest_neighbor": ["radius", "bool"],
    "compose": ["cfunc", "color"], "blend": ["blend", "unit"], "stretch_contrast": ["thr"], "optimize_saturation": ["factor", "sat"],
    "change_color_temperature": ["temp", "temp", "tint"], "optimize_color_temperature": ["factor", "tint"], "optimize_lightness": ["factor"],
    "white_balance": ["thr"], "balance": ["balance", "thr"], "equalize": ["equalize"],
    "save": ["path"], "save_jpeg": ["path", "quality", "bool", "sampling", "bool", "bool"], "save_png": ["path", "png", "comp", "pngf"],
    "save_gif": ["path"], "save_bmp": ["path", "bmp"], "save_ico": ["path", "bmp"], "save_webp": ["path", "quality", "preset"],
}
# what is left out, as PyApi says it is filled in (the specification compares)
FILL = {"new": ["none"], "rotate": ["bilinear"], "resize": ["bilinear"], "resize_pct": ["bilinear"], "edge_detection": ["sobel"],
        "with_jpeg_quality": ["true"], "gaussian_blur": ["none"], "unsharp": ["x3f800000", "none"], "drawing": ["default"],
        "despeckle": ["x3dcccccd", "1"], "symmetric_nearest_neighbor": ["4", "true"], "compose": [",".join(["x00000000"] * 4)],
        "blend": ["normal", "x3f800000"], "stretch_contrast": ["x3f000000"], "optimize_saturation": ["x3f800000", "hsl"],
        "change_color_temperature": ["x00000000"], "optimize_color_temperature": ["x00000000"], "white_balance": ["x3f000000"],
        "balance": ["rgb", "x3f000000"], "equalize": ["srgb"], "save_jpeg": ["85", "false", "none", "false", "true"],
        "save_png": ["rgba8", "default", "sub"], "save_bmp": ["rgba8"], "save_ico": ["rgba8"], "save_webp": ["90", "default"]}
SAVES = {"save": "none", "save_jpeg": "jpeg", "save_png": "png", "save_gif": "gif", "save_bmp": "bmp", "save_ico": "ico", "save_webp": "webp"}
INTS = {"size", "pos", "x", "y", "cw", "ch", "quality", "radius", "small"}


class Stop(Exception):
    pass


class Func:
    """a function a program passes in; fails at call number `left`"""

    def __init__(self, text, greedy=False):
        k, _, n = text.partition(":")
        self.k, self.left, self.greedy = k, int(n or 1000000), greedy

    def tick(self):
        self.left -= 1
        if self.left < 0:
            raise Stop("enough")

    def color(self, c, x=0, y=0):
        self.tick()
        r = {"swap": lambda: d10.Rgb(c.blue, c.red, c.green, c.alpha), "pos": lambda: d10.Rgb(x / 16.0, y / 16.0, c.red, c.alpha),
             "first": lambda: c}.get(self.k, c.invert)()
        if self.greedy:
            # the colour handed out is the program's own
            if r is not c:
                c.red, c.alpha = 0.125, 0.25
        return r

    def value(self, v):
        self.tick()
        return {"half": v * 0.5, "neg": 1.0 - v}.get(self.k, v)


class Program:
    def __init__(self, ctx, lib):
        self.ctx, self.lib, self.r = ctx, lib, ctx.rng
        self.s = {}
        self.known = set()
        ctx.session()
        lib.ask(q="forget")

    def after(self):
        return [[k, digest(v)] for k, v in sorted(self.s.items())]

    def unit(self):
        r = self.r
        return r.choice([0.0, 1.0, 0.5, r.random(), r.random(), r.randrange(256) / 255.0])

    def color(self):
        g = self.unit()
        v = [g, g, g] if self.r.random() < 0.2 else [self.unit() for _ in range(3)]
        return d10.Rgb(*v, self.r.choice([1.0, 1.0, 0.0, self.unit()]))

    def image(self, w=None, h=None):
        w, h = w or self.r.randint(1, 6), h or self.r.randint(1, 6)
        few = [self.color() for _ in range(self.r.randint(1, 5))]
        gray = self.r.random() < 0.15
        px = [self.r.choice(few) if self.r.random() < 0.4 else self.color() for _ in range(w * h)]
        if gray:
            px = [d10.Rgb(c.red, c.red, c.red) for c in px]
        return w, h, px

    def rich(self, k):
        """pictures on which small changes of an argument show"""
        r = self.r
        w, h = r.randint(28, 40), r.randint(28, 40)
        px = []
        for i in range(w * h):
            if k == 0:      # bright, with specks of every dark level
                v = [r.uniform(0, 0.3)] * 3 if r.random() < 0.12 else [r.uniform(0.45, 0.95) for _ in range(3)]
            elif k == 1:    # long tails
                v = [min(1.0, max(0.0, r.gauss(0.5, 0.07) if r.random() < 0.995 else r.random())) for _ in range(3)]
            else:           # dull colours on a ramp
                g = 0.2 + 0.5 * (i % w) / w
                v = [g + r.uniform(0, 0.05), g, g - r.uniform(0, 0.1)]
            px.append(d10.Rgb(*v, 1.0 if r.random() < 0.9 else r.random()))
        return w, h, px

    def make(self, name):
        w, h, px = self.image()
        self.call("from_list", [], name, {2: px, 0: str(w), 1: str(h)})

    def arg(self, kind, size):
        r, (w, h) = self.r, size
        if kind == "color":
            return ctext(self.color())
        if kind in RANGES:
            a, b = RANGES[kind]
            return hexf(f32(r.choice([a, b, r.uniform(a, b), r.uniform(a, b)])))
        if kind == "size":
            return str(r.choice([r.randint(1, 7), r.randint(1, 7), r.randint(1, 7), 0, 1]))
        if kind == "pos":
            return str(r.choice([r.randint(-2, 7), r.randint(0, 5), -2147483648, 2147483647]) if r.random() < 0.3 else r.randint(0, 4))
        if kind == "x":
            return str(r.randrange(w) if r.random() < 0.93 else w + r.randrange(2))
        if kind == "y":
            return str(r.randrange(h) if r.random() < 0.93 else h + r.randrange(2))
        if kind in ("cw", "ch"):
            return str(r.randint(1, 3))
        if kind == "quality":
            return str(r.choice([0, 1, 50, 85, 90, 100, r.randint(0, 100), r.randint(0, 255)]))
        if kind == "radius":
            return str(r.randint(1, 4))
        if kind == "small":
            return str(r.randint(0, 4))
        if kind == "cfunc":
            return r.choice(WORDS[kind]) + (":%d" % r.randint(0, w * h + 1) if r.random() < 0.25 else "")
        if kind == "path":
            return S(self.ctx.out, "f", r.choice(["a.png", "b.jpg", "c.bmp", "d.gif", "e.ICO", "f.webp", "g.dat", "nowhere/x.png"]))
        if kind == "file":
            return S(self.ctx.out, "f", r.choice(["a.png", "b.jpg", "c.bmp", "d.gif", "e.ICO", "f.webp", "missing.png"]))
        return r.choice(WORDS[kind])

    def value(self, kind, text):
        """the Python argument"""
        if text == "":
            return None
        if kind == "color":
            return rgb(text)
        if kind in RANGES:
            return struct.unpack("<f", struct.pack("<I", int(text[1:], 16)))[0]
        if kind in INTS:
            return int(text)
        if kind == "bool":
            return text == "true"
        return text

    def call(self, f, ins, dst, fixed=(), mask=None):
        """mask: which arguments are given"""
        fixed = dict(fixed)
        ctx, kinds, s = self.ctx, ARGS[f], self.s
        me = s[ins[0]] if ins else None
        size = (me.width, me.height) if me is not None else (1, 1)
        req = len(kinds) - len(FILL.get(f, []))
        given, pyargs = [], []
        for i, k in enumerate(kinds):
            give = i < req or (mask[i] if mask else self.r.random() < 0.6)
            if k == "list":
                px = fixed.get(i)
                if px is None:
                    w, h = int(given[0]), int(given[1])
                    n = w * h + (self.r.choice([-1, 1]) if self.r.random() < 0.1 else 0)
                    px = [self.color() for _ in range(max(0, n))]
                given.append(";".join(ctext(c) for c in px))
                pyargs.append(px)
                continue
            if i in fixed:
                t = fixed[i]
            else:
                t = self.arg(k, size) if give else ""
            given.append(t)
            pyargs.append(Func(t, self.r.random() < 0.5) if k == "cfunc" else self.value(k, t))
        full = [t if t != "" or i < req else FILL[f][i - req] for i, t in enumerate(given)]
        full = ([SAVES[f]] + full) if f in SAVES else full
        dig = [digest(s[x]) for x in ins]
        e = {"op": "call", "f": f, "given": given, "ins": list(ins), "dst": dst}
        ctx.mark(e)
        for x, d in zip(ins, dig):
            if d not in self.known:
                learn(self, s[x])
        fact = self.lib.ask(q="call", f="save" if f in SAVES else f, a=full, ins=dig)
        self.known |= {fact["img"], fact["self"]}
        fact.update(f="save" if f in SAVES else f, a=full, ins=dig)
        k, res, exc = guard(lambda: self.run(f, [s[x] for x in ins], pyargs))
        if isinstance(exc, Stop) and any(a == "cfunc" for a in kinds):
            k = "err"
        img = val = ""
        if k == "ok":
            if isinstance(res, d10.Image):
                img = digest(res)
            else:
                val = self.text(res)
                if f in SAVES:
                    val = self.file(given[0])
        e.update(fact=fact, py={"k": k, "img": img, "val": val, "why": str(exc) if k == "err" else ""})
        if img and dst:
            s[dst] = res
        else:
            e["dst"] = ""
        if f in SAVES and k != "ok" and os.path.exists(given[0]):
            os.remove(given[0])
        e["after"] = self.after()
        if k != fact["k"]:
            e["why"] = repr(exc)[:200]
        ctx.emit(e)

    def file(self, path):
        b = open(path, "rb").read()
        h = 0xcbf29ce484222325
        return self.ctx.fnv(b)

    def text(self, v):
        if v is None:
            return "none"
        if v is True or v is False:
            return "true" if v else "false"
        if isinstance(v, int):
            return str(v)
        if isinstance(v, float):
            return hexf(v)
        if kind(v) in CH:
            return ctext(v)
        return str(v)

    def run(self, f, ins, a):
        if f == "new":
            return d10.Image(*trim(a))
        if f == "from_list":
            return d10.Image.from_list(*a)
        if f == "open":
            return d10.Image.open(a[0])
        me = ins[0]
        if f in ("width", "height"):
            return getattr(me, f)
        if f == "len":
            return len(me)
        if f == "getitem":
            return me[a[0], a[1]]
        if f == "setitem":
            me[a[0], a[1]] = a[2]
            return None
        if f in ("mod_colors", "map_colors"):
            g = a[0]
            return getattr(me, f)(lambda c: g.color(c))
        if f in ("mod_colors_enumerated", "map_colors_enumerated"):
            g = a[0]
            return getattr(me, f)(lambda x, y, c: g.color(c, x, y))
        if f == "compose":
            g = a[0]
            return d10.Image.compose(ins, lambda x, y, cs: g.color(cs[(x + 2 * y) % len(cs)], x, y), *trim(a[1:]))
        if f in ("apply_palette", "apply_palette_in_place", "blend"):
            return getattr(me, f)(ins[1], *trim(a))
        if f in SAVES:
            if f == "save":
                return me.save(a[0])
            fmt = getattr(d10.EncodingFormat, SAVES[f])(*trim(a[1:]))
            return me.save(a[0], fmt)
        return getattr(me, f)(*trim(a))


def trim(a):
    """trailing arguments that are left out are not passed at all"""
    a = list(a)
    while a and a[-1] is None:
        a.pop()
    return a


NOIN = {"new", "from_list", "open"}
TWO = {"apply_palette", "apply_palette_in_place", "blend"}


def pick_ins(p, f):
    names = sorted(p.s)
    if f in NOIN:
        return []
    if f in TWO:
        x = p.r.choice(names)
        o = [n for n in names if n != x] if f == "apply_palette_in_place" else names
        return [x, p.r.choice(o)]
    if f == "compose":
        return [p.r.choice(names) for _ in range(p.r.randint(1, 3))]
    return [p.r.choice(names)]


def poke(p):
    """changing a colour that came from an image, or went into one, does not change the image"""
    n = p.r.choice(sorted(p.s))
    i = p.s[n]
    how = p.r.randrange(5)
    c = None
    if how == 0:
        c = i.get_pixel(0, 0)
    elif how == 1:
        c = i[0, 0]
    elif how == 2:
        c = i.to_list()[-1]
    elif how == 3:
        c = i.get_pixel_clamped(-3, 99)
    else:
        c = i.get_pixel(0, 0)
        i.put_pixel(0, 0, c)
    c.red, c.green, c.blue, c.alpha = 0.25, 0.5, 0.75, 0.125
    p.ctx.emit({"op": "poke", "slot": n, "how": how, "after": p.after()})


def listing(p):
    n = p.r.choice(sorted(p.s))
    i = p.s[n]
    d = digest(i)
    if d not in p.known:
        learn(p, i)
    px = [ctext(i[k % i.width, k // i.width]) for k in range(len(i))]
    p.ctx.emit({"op": "list", "slot": n, "img": d, "px": px, "fact": p.lib.ask(q="pixels", a=[d])["px"]})


P20 = 1 << 20
NOISES = ["salt_n_pepper", "rgb", "random", "gaussian"]


def scaled(i):
    return [[round(v * P20) for v in chans(c)] for c in i.to_list()]


def learn(p, i):
    p.known.add(p.lib.ask(q="learn", a=[str(i.width), str(i.height)] + [ctext(c) for c in i.to_list()])["img"])


def noise(p):
    n = p.r.choice(sorted(p.s))
    k = p.r.choice(NOISES)
    t = p.r.choice([0, 1, 8, 16, 24, 32])
    i = p.s[n]
    if i.width * i.height > 64 or any(not 0 <= v <= 1 for c in i.to_list() for v in chans(c)):
        return
    e = {"op": "noise", "k": k, "t": t, "slot": n, "w": i.width, "h": i.height, "px": scaled(i), "inplace": p.r.random() < 0.5}
    p.ctx.mark(e)
    if e["inplace"]:
        kk, r, x = guard(lambda: getattr(i, "add_%s_noise" % k)(t / 64.0))
        r = i
    else:
        kk, r, x = guard(lambda: getattr(i, "%s_noise" % k)(t / 64.0))
    e["ok"] = kk == "ok"
    if kk == "ok":
        e.update(qx=scaled(r), nw=r.width, nh=r.height, result=digest(r))
        learn(p, r)
    e["after"] = p.after()
    p.ctx.emit(e)


def stat(ctx, k, t, inplace):
    w, n = 96, 96 * 96
    mix = k in ("random", "gaussian")
    q = 0.25 if mix else t / 64.0
    i = d10.Image(w, w, d10.Rgb(0.5, 0.5, 0.5))

    def one():
        if inplace:
            j = i.flip_vertical()
            getattr(j, "add_%s_noise" % k)(q)
        else:
            j = getattr(i, "%s_noise" % k)(q)
        return [chans(c) for c in j.to_list()]
    e = {"op": "stat", "k": k, "t": t, "inplace": inplace}
    ctx.mark(e)
    kk, a, x = guard(one)
    e["ok"] = kk == "ok" and len(a) == n
    if e["ok"]:
        cs, other = [], 0
        if mix:
            sd = 0.125 if k == "random" else 0.25
            for c in range(3):
                z = [(v[c] - 0.375) / sd for v in a]
                cs.append(["q1", sum(1 for v in z if v <= -1), n])
                cs.append(["q2", sum(1 for v in z if -1 < v <= 0), n])
                cs.append(["q3", sum(1 for v in z if 0 < v <= 1), n])
                cs.append(["q4", sum(1 for v in z if v > 1), n])
        else:
            names = [("red", [1, .5, .5, 1]), ("green", [.5, 1, .5, 1]), ("blue", [.5, .5, 1, 1])] if k == "rgb" else \
                [("black", [0, 0, 0, 1]), ("white", [1, 1, 1, 1])]
            hit = sum(1 for v in a if v != [.5, .5, .5, 1])
            cs.append(["any", hit, n])
            other = hit
            for nm, x in names:
                m = sum(1 for v in a if v == x)
                other -= m
                cs.append([nm, m, n])
        e.update(counts=cs, other=other)
    ctx.session(False)
    ctx.emit(e)


# colours
RGBONLY = {"is_grayscale": [], "max": [], "min": [], "to_gray": ["intensity"], "invert": [], "difference": ["color"], "alpha_blend": ["color"],
           "with_gamma": ["g"], "with_gamma_opt": ["g"], "with_level": ["b", "w", "g"], "with_brightness": ["g"], "with_saturation": ["g"],
           "stretch_saturation": ["g"], "with_gamma_saturation": ["g"], "with_lightness": ["g"], "with_hue_rotate": ["g"], "with_contrast": ["g"],
           "with_brightness_contrast": ["g", "h"], "with_vibrance": ["v"], "with_sepia": [], "modulate": ["g", "g", "h"]}
COMMON = ["get", "set", "with", "has_transparency", "type_name", "str", "repr", "eq", "map_color_channels",
          "to_rgb", "to_srgb", "to_hsl", "to_hsv", "to_yuv", "to_xyz", "to_lab", "to_lch"]
SPACES = [(i, o) for i in ("", "D65", "D50", "E") for o in ("", "2", "10")] + [("D55", ""), ("", "5"), ("d65", "2"), ("2", "D65")]


def ctor(t):
    if t[:3] in ("Lab", "Lch"):
        ill, obs = t[3:].split("O")
        return lambda *v: getattr(d10, t[:3])(*v, ill, obs)
    return getattr(d10, t)


def cval(r):
    return f32(r.choice([0.0, 1.0, 0.5, r.random(), r.random(), r.random()]))


def color(ctx, lib, t, m, a=None):
    r = ctx.rng
    v = [cval(r) for _ in range(4)]
    if t[:3] in ("Lab", "Lch") and r.random() < 0.8:
        v = [f32(x * s) for x, s in zip(v, (100, 60, 60 if t[:3] == "Lab" else 6, 1))]
    c = ctor(t)(*v)
    rng = {"g": (0.1, 2.5), "b": (0, 0.4), "w": (0.6, 1), "h": (-1, 1.5), "v": (-1, 1)}
    texts, args = [], []
    if m in ("get", "set", "with"):
        texts = [str(r.randrange(4))] if a is None else [str(a)]
        if m != "get":
            texts.append(hexf(cval(r)))
    elif m in ("to_lab", "to_lch"):
        texts = list(a if a is not None else r.choice(SPACES))
    elif m == "eq":
        o = [x if r.random() < 0.85 else cval(r) for x in v]
        texts = [",".join(hexf(x) for x in o)]
    elif m == "map_color_channels":
        texts = [r.choice(WORDS["vfunc"]) + r.choice(["", "", ":0", ":1", ":2", ":3", ":4"])]
    elif m in RGBONLY:
        for k in RGBONLY[m]:
            if k == "intensity":
                texts.append(r.choice(WORDS[k] + ["", ""]))
            elif k == "color":
                texts.append(",".join(hexf(cval(r)) for _ in range(4)))
            else:
                texts.append(hexf(f32(r.uniform(*rng[k]))))
    fl = lambda s: struct.unpack("<f", struct.pack("<I", int(s[1:], 16)))[0]
    names = CH[t] + ("alpha",)

    def run():
        if m == "get":
            return getattr(c, names[int(texts[0])])
        if m == "set":
            setattr(c, names[int(texts[0])], fl(texts[1]))
            return None
        if m == "with":
            return getattr(c, "with_" + names[int(texts[0])])(fl(texts[1]))
        if m == "type_name":
            return c.type_name
        if m == "str":
            return str(c)
        if m == "repr":
            return repr(c)
        if m == "eq":
            return c == ctor(t)(*[fl(x) for x in texts[0].split(",")])
        if m == "map_color_channels":
            g = Func(texts[0])
            return c.map_color_channels(lambda x: g.value(x))
        if m in RGBONLY:
            args = [(rgb(x) if k == "color" else None if x == "" else x if k == "intensity" else fl(x)) for k, x in zip(RGBONLY[m], texts)]
            return getattr(c, m)(*trim(args))
        return getattr(c, m)(*trim([x or None for x in texts]))

    before = ",".join(hexf(x) for x in v)
    e = {"op": "color", "t": t, "v": before, "m": m, "a": texts}
    ctx.mark(e)
    k, res, exc = guard(run)
    if isinstance(exc, Stop):
        k = "err"
    rt, val = "val", ""
    if k == "ok":
        if kind(res) in CH:
            rt, val = kind(res), ctext(res)
        else:
            val = Program.text(None, res)
    e["py"] = {"k": k, "t": rt if k == "ok" else "", "val": val, "self": ctext(c), "why": str(exc) if k == "err" else ""}
    # the library's own
    conv = {"to_rgb": "Rgb", "to_srgb": "Srgb", "to_hsl": "Hsl", "to_hsv": "Hsv", "to_yuv": "Yuv", "to_xyz": "Xyz"}
    fm, fa = m, list(texts)
    if m in conv:
        fm, fa = "to", [conv[m]]
    elif m in ("to_lab", "to_lch"):
        ill, obs = texts[0] or "D65", texts[1] or "2"
        if ill not in ("D65", "D50", "E") or obs not in ("2", "10"):
            ctx.session(False)
            return ctx.emit(e)
        fm, fa = "to", ["%s%sO%s" % ("Lab" if m == "to_lab" else "Lch", ill, obs)]
    elif m == "to_gray":
        fa = [texts[0] or "none"]
    elif m == "repr":
        fm = "str"
    e["fact"] = {"t": t, "m": fm, "a": fa, "v": before}
    e["r"] = lib.ask(q="color", **e["fact"])
    ctx.session(False)
    ctx.emit(e)


def make_color(ctx, k, ill="", obs="", alpha=True):
    r = ctx.rng
    v = [cval(r) for _ in range(3)]
    al = hexf(cval(r)) if alpha else ""
    fl = lambda s: struct.unpack("<f", struct.pack("<I", int(s[1:], 16)))[0]
    e = {"op": "make", "kind": k, "ill": ill, "obs": obs, "c": [hexf(x) for x in v], "alpha": al}
    ctx.mark(e)
    args = v + [fl(al) if al else None] + ([ill or None, obs or None] if k in ("Lab", "Lch") else [])
    kk, c, x = guard(lambda: getattr(d10, k)(*trim(args)))
    e["py"] = {"k": kk, "t": kind(c) if kk == "ok" else "", "val": ctext(c) if kk == "ok" else ""}
    ctx.session(False)
    ctx.emit(e)


def y01():
    ctx = Ctx()
    os.mkdir(S(ctx.out, "f"))
    lib = Lib()

    def fnv(b):
        return lib.ask(q="hash", a=[b.hex()])["h"]
    ctx.fnv = fnv
    cases = ctx.lines()
    single = [c for c in cases if len(c) == 1]
    pairs = [c for c in cases if len(c) != 1]
    ctx.rng.shuffle(pairs)
    p = None
    for i, c in enumerate(single + pairs[:ctx.n(1500, 40000)]):
        p = Program(ctx, lib)
        p.make("a")
        p.make("b")
        for s in c:
            if all(x in p.s for x in s["ins"]):
                p.call(s["f"], s["ins"], s["dst"], mask=s["given"])
    # what is left out, on larger pictures
    for k in range(ctx.n(6, 40)):
        p = Program(ctx, lib)
        for n in "ab":
            w, h, px = p.rich((k + (n == "b")) % 3)
            p.call("from_list", [], n, {2: px, 0: str(w), 1: str(h)})
        for f in sorted(FILL):
            if f not in ("new", "compose", "gaussian_blur") and f not in SAVES:
                m = len(ARGS[f])
                for i in [m] + list(range(m - len(FILL[f]), m)):
                    p.call(f, ["a", "b"][:2 if f in TWO else 1], "c", mask=[j == i for j in range(m)])
    # longer programs
    names = sorted(ARGS)
    for _ in range(ctx.n(220, 4000)):
        p = Program(ctx, lib)
        for x in "abc"[:ctx.rng.randint(2, 3)]:
            p.make(x)
        for _ in range(ctx.rng.randint(4, 14)):
            k = ctx.rng.random()
            if k < 0.06:
                poke(p)
            elif k < 0.1:
                listing(p)
            elif k < 0.18:
                noise(p)
            else:
                f = ctx.rng.choice(names)
                if f in SAVES and ctx.rng.random() < 0.5:
                    f = ctx.rng.choice(names)
                p.call(f, pick_ins(p, f), ctx.rng.choice("abc"))
                # keep pictures small
                for n in list(p.s):
                    if len(p.s[n]) > 100 or len(p.s[n]) == 0:
                        p.call("new", [], n, {0: "3", 1: "2"})
    for k in NOISES:
        for ip in (False, True):
            for t in ([5, 20] if ctx.tier == "quick" else [1, 5, 16, 31, 32]):
                stat(ctx, k, t, ip)
    # colours
    for t in sorted(CH):
        for m in COMMON:
            for _ in range(ctx.n(3, 60)):
                color(ctx, lib, t, m)
            if m in ("get", "set", "with"):
                for ch in range(4):
                    color(ctx, lib, t, m, ch)
            if m in ("to_lab", "to_lch"):
                for s in SPACES:
                    color(ctx, lib, t, m, s)
    for m in sorted(RGBONLY):
        for _ in range(ctx.n(8, 200)):
            color(ctx, lib, "Rgb", m)
    for k in ("Rgb", "Srgb", "Hsl", "Hsv", "Yuv", "Xyz"):
        make_color(ctx, k)
        make_color(ctx, k, alpha=False)
    for k in ("Lab", "Lch"):
        for s in SPACES:
            make_color(ctx, k, *s)
            make_color(ctx, k, *s, alpha=False)
    ctx.done()


main(y01)
