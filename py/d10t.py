"""What the Python drivers share: recording, the library as a reference, text forms of values."""
import ctypes, json, os, random, struct, subprocess, sys
import d10

M64 = (1 << 64) - 1


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def hexf(v):
    if v != v:
        return "x7fc00000"
    return "x%08x" % struct.unpack("<I", struct.pack("<f", v))[0]


CH = {"Rgb": ("red", "green", "blue"), "Srgb": ("red", "green", "blue"), "Hsl": ("hue", "saturation", "lightness"),
      "Hsv": ("hue", "saturation", "value"), "Yuv": ("y", "u", "v"), "Xyz": ("x", "y", "z")}
for _w in ("D65", "D50", "E"):
    for _o in ("2", "10"):
        CH["Lab%sO%s" % (_w, _o)] = ("l", "a", "b")
        CH["Lch%sO%s" % (_w, _o)] = ("l", "c", "h")


def kind(c):
    return type(c).__name__


def chans(c):
    return [getattr(c, n) for n in CH[kind(c)]] + [c.alpha]


def ctext(c):
    return ",".join(hexf(v) for v in chans(c))


def rgb(text):
    v = [struct.unpack("<f", struct.pack("<I", int(x[1:], 16)))[0] for x in text.split(",")]
    return d10.Rgb(*v)


def digest(img):
    """as harness/src/pyref.rs"""
    w, h = img.width, img.height
    words = [w, h]
    for c in img.to_list():
        words += [int(hexf(v)[1:], 16) for v in (c.red, c.green, c.blue, c.alpha)]
    s = 0xcbf29ce484222325
    for x in words:
        s = ((s ^ x) * 0x9E3779B97F4A7C15) & M64
        s ^= s >> 29
    return "%016x.%dx%d" % (s, w, h)


class Lib:
    def __init__(self):
        p = os.path.join(os.environ["D10_BUILD"], "target/debug/d10-harness")
        self.p = subprocess.Popen([p, "pyref"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(os.path.join(sys.argv[3], "reference.txt"), "w"),
                                  text=True, bufsize=1)

    def ask(self, **q):
        self.p.stdin.write(json.dumps(q) + "\n")
        self.p.stdin.flush()
        a = self.p.stdout.readline()
        if not a:
            print("the reference ended on %s" % json.dumps(q)[:500], file=sys.stderr)
            sys.exit(3)
        return json.loads(a)


class Ctx:
    def __init__(self):
        self.seed, self.tier, self.out, self.shards, self.cases = sys.argv[1:6]
        self.seed, self.shards = int(self.seed), int(self.shards)
        self.rng = random.Random(self.seed * 7919 + 17)
        self.files = [open(os.path.join(self.out, "s%d.ndjson" % i), "w") for i in range(self.shards)]
        self.cur = 0
        self.sessions = self.events = 0

    def n(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def session(self, reset=True):
        self.cur = (self.cur + 1) % self.shards
        self.sessions += 1
        if reset:
            self.emit({"op": "reset"})

    def emit(self, e):
        self.events += 1
        self.files[self.cur].write(json.dumps(e, separators=(",", ":"), sort_keys=True) + "\n")

    def mark(self, what):
        with open(os.path.join(self.out, "current"), "w") as f:
            f.write(json.dumps(what)[:2000])

    def lines(self):
        return [json.loads(x) for x in open(self.cases)]

    def done(self):
        for f in self.files:
            f.close()
        cur = os.path.join(self.out, "current")
        if os.path.exists(cur):
            os.remove(cur)
        print(json.dumps({"sessions": self.sessions, "events": self.events}))
        sys.stdout.flush()


def guard(f):
    """-> (kind, value, exception): ok, err (as the library's errors are reported), panic, or the exception's name"""
    try:
        return "ok", f(), None
    except OSError as x:
        return "err", None, x
    except BaseException as x:
        if type(x).__name__ == "PanicException":
            return "panic", None, x
        if isinstance(x, (KeyboardInterrupt, SystemExit)):
            raise
        return type(x).__name__, None, x


def main(f):
    import traceback
    os.dup2(os.open(os.path.join(sys.argv[3], "stderr"), os.O_CREAT | os.O_WRONLY), 2) if False else None
    try:
        f()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        # once steps are under way, what they rely on held: the module broke it
        sys.exit(4 if os.path.exists(os.path.join(sys.argv[3], "current")) else 3)
