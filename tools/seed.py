#!/usr/bin/env python3
"""Make planted bugs:  tools/seed.py FILE.py   (FILE defines BUGS = [dict(id, property, file, old, new, needs, breaks, demo | sh)])
Each is tried in a scratch copy of /repo: it must build, pass the stable tests, and its demonstration must pass
without and fail with it.  Kept ones are written to /verif/seeded/<id>/."""
import json, os, shutil, subprocess, sys
V, W = "/verif", "/tmp/seedwt"
DEMO = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
rustc --edition 2021 -A warnings %s -L dependency=target/debug/deps "$d/demo.rs" -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
'''
EXT = " ".join("--extern %s=target/debug/lib%s.rlib" % (x, x) for x in ("d10", "d10_core", "d10_ops", "d10_codecs", "d10_commands"))
PRE = "#![allow(unused)]\nuse d10::*;\nuse d10_ops::*;\nuse d10_codecs::*;\n"
def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
ENV = ". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; cd %s; " % (W, W)
def build():
    return sh("bash -c '%s cargo build --workspace --offline && cargo test --workspace --no-run --offline'" % ENV, W)
def tests():
    r = sh("bash -c '%s timeout 600 cargo test --workspace --no-fail-fast --offline -- --test-threads 8'" % ENV, W)
    py = sh("bash -c '%s mkdir -p /tmp/seedpy && cp target/debug/libd10.so /tmp/seedpy/d10.so && cd d10-python/python-tests && PYTHONPATH=/tmp/seedpy timeout 200 $PYO3_PYTHON -m pytest -q -p no:cacheprovider .'" % ENV, W)
    bad = sorted(l.split(" - ")[0] for l in py.stdout.splitlines() if l.startswith(("FAILED", "ERROR")))
    base = W + ".base"
    if not os.path.exists(base): open(base, "w").write("\n".join(bad))
    ok = bad == open(base).read().split("\n")
    return r.returncode == 0 and ok, (r.stdout[-1500:] + py.stdout[-1500:])
def demo(d):
    # in the scratch copy: env.sh changes to /repo, so point it at the copy
    s = open(d + "/demo.sh").read().replace(". /opt/vp/env.sh", ENV)
    open("/tmp/seeddemo.sh", "w").write(s.replace('$(dirname "$0")', d))
    r = sh("bash /tmp/seeddemo.sh", W, timeout=400)
    return r.returncode, r.stdout[-600:]
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    if not os.path.isdir(W):
        sh("cp -a /repo %s" % W, "/")
    sh("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq", W)
    r = build()
    if r.returncode: sys.exit(r.stdout[-2000:])
    if not os.path.exists(W + '.base'): print('clean tests', tests()[0])
    bugs = [b for b in ns["BUGS"] if len(sys.argv) < 3 or b["id"] in sys.argv[2:]]
    clean = {}
    for b in bugs:
        d = "/tmp/seednew/" + b["id"]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if "demo" in b:
            open(d + "/demo.rs", "w").write(PRE + b["demo"]); open(d + "/demo.sh", "w").write(DEMO % EXT)
        else:
            open(d + "/demo.sh", "w").write(b["sh"])
        for n, t in b.get("files", {}).items():
            open(d + "/" + n, "w").write(t)
        os.chmod(d + "/demo.sh", 0o755)
        clean[b["id"]] = demo(d)
    for b in bugs:
        d = "/tmp/seednew/" + b["id"]
        if clean[b["id"]][0] != 0:
            print(b["id"], "DEMO FAILS ON CLEAN", clean[b["id"]]); continue
        sh("git checkout -q -f .", W)
        ok = True
        for f, old, new in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            s = open(W + "/" + f).read()
            if s.count(old) != 1:
                print(b["id"], f, "OLD TEXT OCCURS", s.count(old)); ok = False; break
            open(W + "/" + f, "w").write(s.replace(old, new))
        if not ok: continue
        diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, text=True).stdout
        r = build()
        if r.returncode: print(b["id"], "BUILD", r.stdout[-1500:]); continue
        t, o = tests()
        if not t: print(b["id"], "TESTS CATCH IT", [l for l in o.splitlines() if "FAILED" in l or "panicked" in l][:4]); continue
        rc, o = demo(d)
        if rc == 0: print(b["id"], "DEMO PASSES WITH BUG"); continue
        open(d + "/patch.diff", "w").write(diff)
        json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
        t = V + "/seeded/" + b["id"]
        shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        print(b["id"], "kept; demo:", rc, o.strip().splitlines()[-3:][0][:150] if o.strip() else "")
    sh("git checkout -q -f .", W)
main()
