"""Y02: images and numpy arrays."""
import d10
import numpy as np
from d10t import *

BASES = ["rgb", "srgb", "hsl", "hsv", "yuv", "xyz", "lab", "lch"]
SPACES = BASES + [b + "a" for b in BASES] + ["gray"]
TYPES = ["float32", "float64", "uint8", "uint16", "uint32", "bool"]
CLS = {"float32": np.float32, "float64": np.float64, "uint8": np.uint8, "uint16": np.uint16, "uint32": np.uint32, "bool": np.bool_}
LAYOUTS = ["c", "fortran", "rows_reversed", "columns_reversed", "transposed", "every_second", "cut_out"]
M = 1000000
ODD = 7777777
TRIPS = ([(s, t) for s in SPACES for t in ("float32", "float64")] +
         [(s, t) for s in ("rgb", "rgba", "srgb", "srgba", "gray") for t in ("uint8", "uint16", "uint32")])


def channels(s):
    return 1 if s == "gray" else 3 if s in BASES else 4


def fl(s):
    return struct.unpack("<f", struct.pack("<I", int(s[1:], 16)))[0]


def mil(v):
    v = float(v)
    return ODD if v != v else int(max(-2e9, min(2e9, round(v * M))))


def comp(v):
    """as mil, but one half is kept apart from its neighbours"""
    n = mil(v)
    return n if n != M // 2 or v == 0.5 else n - 1 if v < 0.5 else n + 1


def units(t, v):
    """an element in the specification's units"""
    if t in ("uint8", "uint16", "bool"):
        return int(v)
    if t == "uint32":
        return mil(float(v) / 4294967295.0)
    return mil(v)


def unit(r):
    return r.choice([0.0, 1.0, 0.5, r.random(), r.random(), r.random(), r.randrange(256) / 255.0])


def image(r, w, h, soft=False):
    """soft: no components where spaces have no well defined ones"""
    px = []
    for _ in range(w * h):
        if soft:
            px.append(d10.Rgb(*[f32(0.08 + 0.8 * r.random()) for _ in range(3)], f32(r.random())))
        elif r.random() < 0.15:
            g = unit(r)
            px.append(d10.Rgb(g, g, g, unit(r)))
        else:
            px.append(d10.Rgb(unit(r), unit(r), unit(r), unit(r)))
    return d10.Image.from_list(w, h, px)


def colors(i):
    return [ctext(c) for c in i.to_list()]


def any_error(f):
    k, v, x = guard(f)
    return ("ok" if k == "ok" else "panic" if k == "panic" else "error"), v, x


def place(a, lay):
    """the same array in another layout"""
    h, w, n = a.shape
    if lay == "c":
        return np.ascontiguousarray(a)
    if lay == "fortran":
        return np.asfortranarray(a)
    if lay == "rows_reversed":
        return np.ascontiguousarray(a[::-1])[::-1]
    if lay == "columns_reversed":
        return np.ascontiguousarray(a[:, ::-1])[:, ::-1]
    if lay == "transposed":
        return np.ascontiguousarray(a.transpose(1, 0, 2)).transpose(1, 0, 2)
    if lay == "every_second":
        b = np.full((2 * h, 2 * w, n), 1, a.dtype)
        b[::2, ::2] = a
        return b[::2, ::2]
    b = np.full((h + 2, w + 2, n), 1, a.dtype)
    b[1:-1, 1:-1] = a
    return b[1:-1, 1:-1]


def numbers(r, t, shape):
    """an array of random numbers of a type"""
    n = int(np.prod(shape))
    if t == "bool":
        v = [r.random() < 0.5 for _ in range(n)]
    elif t == "uint8":
        v = [r.choice([0, 255, r.randrange(256)]) for _ in range(n)]
    elif t == "uint16":
        v = [r.choice([0, 65535, r.randrange(65536)]) for _ in range(n)]
    elif t == "uint32":
        v = [r.choice([0, 4294967295, r.randrange(1 << 32)]) for _ in range(n)]
    else:
        v = [unit(r) for _ in range(n)]
    return np.array(v, dtype=t).reshape(shape)


def as_floats(a):
    """what the library is given for an element"""
    t = a.dtype.name
    if t == "bool":
        return a.astype(np.float32)
    if t.startswith("uint"):
        return a.astype(np.float32) / np.float32({"uint8": 255, "uint16": 65535, "uint32": 4294967295}[t])
    return a.astype(np.float32)


def export(ctx, lib, w, h, space, ty, via):
    r = ctx.rng
    i = image(r, w, h) if w else d10.Image(0, 0)
    d = digest(i)
    arg = {"text": ty or None, "class": CLS.get(ty), "builtin": bool if ty == "bool" else ty}[via] if ty else None
    e = {"op": "export", "w": w, "h": h, "space": space, "type": ty, "via": via}
    ctx.mark(e)
    args = [space or None, arg]
    while args and args[-1] is None:
        args.pop()
    k, a, x = any_error(lambda: i.to_np_array(*args))
    e["k"] = k
    e["same"] = digest(i) == d
    if k == "ok":
        sp = space or "rgba"
        e["shape"] = list(a.shape)
        e["dtype"] = a.dtype.name
        n = channels(sp)
        e["arr"] = [[[units(a.dtype.name, a[y, x, c]) for c in range(a.shape[2])] for x in range(a.shape[1])] for y in range(a.shape[0])] if a.ndim == 3 else []
        if sp in SPACES:
            e["comps"] = [[comp(fl(v)) for v in q.split(",")][:n] for q in lib.ask(q="comps", space=sp, a=colors(i))["v"]]
    ctx.session(False)
    ctx.emit(e)
    return i, (a if k == "ok" else None)


def imports(ctx, lib, a, space, ty, extra=None, kw=False):
    """ty: the type's name as the specification knows it"""
    e = {"op": "import", "shape": list(a.shape), "space": space, "type": ty}
    e.update(extra or {})
    ctx.mark(e)
    copy = a.copy()
    k, i, x = any_error(lambda: d10.Image.from_np_array(a, space) if space else d10.Image.from_np_array(a))
    e["k"] = k
    e["same"] = bool((copy == a).all() or (copy != copy).any()) and copy.shape == a.shape
    if k != "ok":
        e["why"] = repr(x)[:100]
    else:
        e["w"], e["h"] = i.width, i.height
        e["px"] = [[mil(v) for v in chans(c)] for c in i.to_list()]
        n = 1 if a.ndim == 2 else a.shape[2] if a.ndim == 3 else 0
        base = (space or "auto")
        reading = {1: "gray", 3: "rgb", 4: "rgba"}.get(n, "") if base == "auto" else \
            (base if n != 4 or base.endswith("a") else base + "a")
        e["reading"] = reading
        if n in (1, 3, 4) and a.ndim in (2, 3) and a.size and reading in SPACES:
            f = as_floats(a).reshape(a.shape[0], a.shape[1], n)
            t = [",".join(hexf(float(f[y, x, c])) for c in range(n)) for y in range(a.shape[0]) for x in range(a.shape[1])]
            v = [[mil(fl(q)) for q in p.split(",")] for p in lib.ask(q="conv", space=reading, a=t)["v"]]
            e["conv"] = [v[y * a.shape[1]:(y + 1) * a.shape[1]] for y in range(a.shape[0])]
        else:
            e["conv"] = []
    ctx.session(False)
    ctx.emit(e)
    return i if k == "ok" else None


def trip(ctx, lib, space, ty, w, h, lay):
    i = image(ctx.rng, w, h, True)
    e = {"op": "trip", "space": space, "type": ty, "w": w, "h": h, "lay": lay}
    ctx.mark(e)
    k, b, x = any_error(lambda: d10.Image.from_np_array(place(i.to_np_array(space, ty), lay), space))
    e["k"] = k
    if k == "ok":
        e.update(nw=b.width, nh=b.height, px=[[mil(v) for v in chans(c)] for c in i.to_list()],
                 back=[[mil(v) for v in chans(c)] for c in b.to_list()],
                 gray=[mil(fl(v)) for v in lib.ask(q="comps", space="gray", a=colors(i))["v"]])
    ctx.session(False)
    ctx.emit(e)


def steps(ctx, ty, w, h, space):
    top = {"uint8": 255, "uint16": 65535}[ty]
    r = ctx.rng
    v = [[r.choice([0, top, r.randrange(top + 1)]) for _ in range(4)] for _ in range(w * h)]
    a = np.array(v, dtype=ty).reshape(h, w, 4)
    e = {"op": "steps", "type": ty, "w": w, "h": h, "steps": v}
    ctx.mark(e)
    k, b, x = any_error(lambda: d10.Image.from_np_array(a, space).to_np_array(space, ty))
    e["k"] = k
    if k == "ok":
        e["arr"] = b.tolist()
    else:
        e["why"] = repr(x)[:100]
    ctx.session(False)
    ctx.emit(e)


def alias(ctx, ty, lay):
    r = ctx.rng
    a = place(numbers(r, ty, (3, 2, 4)), lay)
    k, i, x = any_error(lambda: d10.Image.from_np_array(a, "rgba"))
    e = {"op": "alias", "type": ty, "lay": lay, "before": "", "after": k}
    if k == "ok":
        e["before"] = digest(i)
        a[:] = 0
        a[1, 1, 2] = 1
        e["after"] = digest(i)
    ctx.session(False)
    ctx.emit(e)
    i = image(r, 3, 2)
    a = i.to_np_array("rgba", ty)
    d = digest(i)
    c = a.copy()
    if a.flags.writeable:
        a[:] = 0
        a[1, 2, 3] = 1
    ctx.emit({"op": "alias", "how": "array", "before": d, "after": digest(i)})
    a = i.to_np_array("rgba", ty)
    i.mod_colors(lambda c: d10.Rgb(0.25, 0.5, 0.75, 0.0))
    ctx.emit({"op": "alias", "how": "image", "before": c.tobytes().hex(), "after": a.tobytes().hex()})


def refuse(ctx, what, f):
    e = {"op": "refuse", "what": what}
    ctx.mark(e)
    k, v, x = any_error(f)
    e["k"] = k
    e["why"] = repr(x)[:100]
    ctx.session(False)
    ctx.emit(e)


def y02():
    ctx = Ctx()
    r = ctx.rng
    lib = Lib()
    for c in ctx.lines():
        sp, ty = c["space"], c["type"]
        if ctx.tier == "quick" and r.random() < 0.62:
            continue
        n = channels(sp)
        a = place(numbers(r, ty, (c["h"], c["w"], n)), c["lay"])
        imports(ctx, lib, a, r.choice([sp, sp, sp, ""]), ty, {"lay": c["lay"]})
        if r.random() < 0.25:
            export(ctx, lib, c["w"], c["h"], sp, ty, r.choice(["text", "text", "class", "builtin"]))
        if (sp, ty) in TRIPS and r.random() < 0.3:
            trip(ctx, lib, sp, ty, c["w"], c["h"], c["lay"])
    for sp in SPACES + ["", "cmyk", "RGB", "auto", "graya"]:
        for ty in TYPES + ["", "int8", "float16", "int32", "float", "u1"]:
            for via in ("text", "class"):
                if via == "class" and ty not in CLS:
                    continue
                export(ctx, lib, r.randint(1, 4), r.randint(1, 4), sp, ty, via)
        export(ctx, lib, 0, 0, sp, r.choice(TYPES), "text")
    # shapes and spaces that do or do not fit
    shapes = [(2, 3), (1, 1), (3, 2, 1), (2, 3, 3), (3, 2, 4), (2, 3, 2), (2, 3, 5), (2, 3, 0), (4,), (), (1,), (2, 2, 3, 1), (1, 2, 3, 4),
              (0, 3, 4), (3, 0, 4), (0, 0, 4), (0, 0, 3), (0, 0), (0, 4), (4, 0), (0,), (3, 0, 1), (0, 0, 1)]
    for sh in shapes:
        for sp in SPACES + ["", "auto", "cmyk", "graya", "RGB"]:
            for ty in (TYPES if ctx.tier != "quick" else [r.choice(TYPES)]):
                imports(ctx, lib, numbers(r, ty, sh), sp, ty)
    for _ in range(ctx.n(150, 6000)):
        ty, sp = r.choice(TYPES), r.choice(SPACES)
        n = channels(sp)
        sh = (r.randint(1, 7), r.randint(1, 7), n)
        a = place(numbers(r, ty, sh), r.choice(LAYOUTS))
        k = r.randrange(6)
        if k == 0:
            a.flags.writeable = False
        elif k == 1:
            a = np.broadcast_to(numbers(r, ty, (1, sh[1], n)), sh)
        elif k == 2 and n == 1:
            a = a.reshape(sh[:2])
        elif k == 3 and ty in ("float32", "float64"):
            # components of other spaces leave [0, 1]
            a = (a * 60).astype(ty)
        elif k == 4 and ty in ("float32", "float64", "uint16", "uint32"):
            # not aligned in memory
            b = np.zeros(a.nbytes + 1, np.uint8)
            b[1:] = np.frombuffer(a.tobytes(), np.uint8)
            a = np.frombuffer(b.data, dtype=ty, offset=1).reshape(sh)
        imports(ctx, lib, a, sp, ty, {"how": k})
    for sp, ty in TRIPS:
        for _ in range(ctx.n(2, 60)):
            trip(ctx, lib, sp, ty, r.randint(1, 6), r.randint(1, 6), r.choice(LAYOUTS))
    for ty in ("uint8", "uint16"):
        for sp in ("rgba", "rgb"):
            for _ in range(ctx.n(4, 60)):
                steps(ctx, ty, r.randint(1, 6), r.randint(1, 6), "rgba")
    # all 8 bit steps
    for lo in range(0, 256, 64):
        v = [[x, 255 - x, (x * 7) % 256, (x * 5) % 256] for x in range(lo, lo + 64)]
        a = np.array(v, np.uint8).reshape(8, 8, 4)
        k, b, x = any_error(lambda: d10.Image.from_np_array(a, "rgba").to_np_array("rgba", "uint8"))
        ctx.session(False)
        ctx.emit({"op": "steps", "type": "uint8", "w": 8, "h": 8, "steps": v, "k": k, "arr": b.tolist() if k == "ok" else []})
    for ty in TYPES:
        for lay in LAYOUTS:
            alias(ctx, ty, lay)
    one = np.ones((2, 3, 4))
    for t in ("int8", "int16", "int32", "int64", "uint64", "float16", "complex64", ">f4", ">u2", ">f8", ">u4", "S1", "U1", "O", "M8[s]"):
        refuse(ctx, t, lambda: d10.Image.from_np_array(np.zeros((2, 3, 4), t), "rgba"))
        refuse(ctx, t, lambda: d10.Image.from_np_array(np.zeros((2, 3, 4), t)))
    rec = np.zeros((2, 3, 4), [("r", "f4")])
    for what, v in (("list", [[[1.0, 0.0, 0.0]]]), ("none", None), ("int", 3), ("str", "abc"), ("bytes", b"abc"), ("tuple", (1, 2)), ("image", d10.Image(2, 2)),
                    ("record", rec), ("scalar", np.float32(1)), ("bytearray", bytearray(16)), ("type", np.float32)):
        refuse(ctx, what, lambda: d10.Image.from_np_array(v))
        refuse(ctx, what, lambda: d10.Image.from_np_array(v, "rgb"))
    i = d10.Image(2, 2)
    for what, v in (("int", 3), ("list", []), ("int8", np.int8), ("half", np.float16), ("other", object), ("int", int), ("image", i)):
        refuse(ctx, what, lambda: i.to_np_array("rgba", v))
    ctx.done()


main(y02)
