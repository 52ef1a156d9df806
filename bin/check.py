#!/usr/bin/env python3
"""Decide one property:  bin/check.py <property id>

 1. build the drivers from /repo's working tree
 2. TLC explores the property's model(s) exhaustively (small scope); models marked "emit" print
    every explored history as a JSON case
 3. the driver runs these cases and seeded random ones on the real code and records traces
 4. TLC validates every trace against the property's trace specification
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed."""
import json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("D10_REPO", "/repo")
BUILD = os.path.join(V, ".build")
SPEC = os.path.join(V, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN  # noqa

SHARDS = 8
T0 = time.time()


class Broken(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=os.path.join(BUILD, "target"),
             PYO3_PYTHON="/opt/vp/venv/bin/python", PYTHONDONTWRITEBYTECODE="1", CARGO_INCREMENTAL="1",
             LANG=os.environ.get("LANG", "C.UTF-8"))
    e["PATH"] = "/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def build(what):
    """what: subset of harness, cli, python"""
    os.makedirs(BUILD, exist_ok=True)
    lock = os.path.join(REPO, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy("/opt/vp/Cargo.lock", lock)      # git-ignored there, as build.sh does
    cmds = []
    if "harness" in what:
        cmds.append((["cargo", "build", "--offline", "--locked"], os.path.join(V, "harness")))
    for w, p in (("cli", "d10-cli"), ("python", "d10-python")):
        if w in what:
            cmds.append((["cargo", "build", "--offline", "-p", p], REPO))
    for c, d in cmds:
        r = subprocess.run(c, cwd=d, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout[-4000:])
            raise Broken("build failed: %s in %s" % (" ".join(c), d))
    if "python" in what:
        d = os.path.join(BUILD, "pymod")
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(BUILD, "target/debug/libd10.so"), os.path.join(d, "d10.so.new"))
        os.replace(os.path.join(d, "d10.so.new"), os.path.join(d, "d10.so"))


def tlc(spec, cfg, meta, workers, heap, trace=None, timeout=850, extra=()):
    e = env()
    if trace:
        e["TRACE"] = trace
    gc = "-XX:+UseSerialGC" if str(workers) == "1" else "-XX:+UseParallelGC"
    cmd = ["timeout", "-k", "5", str(timeout), "java", gc, "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", *extra, "-config", cfg + ".cfg", spec + ".tla"]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def stats(out):
    m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    return gen, dist, int(d[-1]) if d else 0


def model(name, cfg, emit, work, tier, casefile):
    t = cfg + "_t"
    use = t if tier == "thorough" and os.path.exists(os.path.join(SPEC, t + ".cfg")) else cfg
    rc, out = tlc(name, use, os.path.join(work, "meta-" + cfg), 1 if emit else "auto", "8g",
                  timeout=850 if tier == "quick" else 3000)
    if "Model checking completed. No error has been found." not in out:
        open(os.path.join(work, "model.out"), "w").write(out)
        print(out[-1500:])
        raise Broken("model %s/%s did not pass (rc %d)" % (name, use, rc))
    n = 0
    if emit:
        with open(casefile, "a") as f:
            for line in out.splitlines():
                if line.startswith('"[') or line.startswith('"{'):
                    f.write(json.loads(line) + "\n")
                    n += 1
        if n == 0:
            raise Broken("model %s/%s emitted no cases" % (name, use))
    gen, dist, depth = stats(out)
    return dict(model=use, states=dist, transitions=gen, depth=depth, cases=n)


def validate(spec, path, work, timeout):
    """-> (ok, accepted lines, stats, output)"""
    total = sum(1 for _ in open(path))
    if total == 0:
        return True, 0, (0, 0), ""
    rc, out = tlc(spec, spec, os.path.join(work, "meta-" + os.path.basename(path)), 1, "3g", trace=path, timeout=timeout)
    gen, dist, depth = stats(out)
    ok = "Model checking completed. No error has been found." in out and depth - 1 == total
    if ok:
        return True, total, (gen, dist), out
    # rejected: either the next line is no step of the specification or an invariant fails
    if "Accepted" in out and depth and depth - 1 < total:
        return False, depth - 1, (gen, dist), out
    m = re.search(r"Invariant (\w+) is violated", out)
    if m:
        return False, max(0, len(re.findall(r"^State \d+:", out, re.M)) - 1), (gen, dist), out
    # TLC could not evaluate the step (e.g. a recorded value of an impossible shape)
    m = re.search(r"Error: (Evaluating|Attempted|TLC|The|Overflow)", out)
    if rc not in (124, 137) and m and re.search(r"^State \d+:|behavior up to this point", out, re.M):
        n = max(0, len(re.findall(r"^State \d+:", out, re.M)) - 1)
        return None, n, (gen, dist), out
    print(out[-1500:])
    raise Broken("TLC failed on %s (rc %d)" % (path, rc))


def main():
    pid = sys.argv[1]
    p = PLAN[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = os.path.join(BUILD, "work-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return run(pid, p, tier, seed, work)
    finally:
        if not os.environ.get("D10_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


def violation(pid, what, data):
    d = os.path.join(BUILD, "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % pid)
    with open(path, "w") as f:
        json.dump(data, f, indent=1)
    print(what)
    print("VIOLATION property=%s replay=%s" % (pid, path))


def run(pid, p, tier, seed, work):
    build(set(["harness"]) | set(p.get("build", ())))
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], drivers=[],
               events_by_kind={}, evaluations=0)
    casefile = os.path.join(work, "cases.ndjson")
    open(casefile, "w").close()
    with ThreadPoolExecutor(4) as ex:
        # models run in parallel; emitting ones write their own case files first
        futs = []
        for i, m in enumerate(p.get("models", ())):
            cf = os.path.join(work, "cases-%d" % i)
            open(cf, "w").close()
            futs.append((cf, m, ex.submit(model, m[0], m[1], m[2], work, tier, cf)))
        for cf, m, f in futs:
            r = f.result()
            cov["models"].append(r)
            cov["states"] += r["states"]
            cov["transitions"] += r["transitions"]
            with open(casefile, "a") as o:
                o.write(open(cf).read())
    bad = None
    for drv in p["drivers"]:
        bad = drive(pid, drv, tier, seed, work, casefile, cov) or bad
        if bad:
            break
    ev = dict(property=pid, tier=tier, seed=seed, level=p.get("level", "model_checking"), coverage=cov,
              assumptions=p.get("assumptions", []), wall_s=round(time.time() - T0, 2), violations=1 if bad else 0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        violation(pid, *bad)
        return 1
    print("%s held: %d model states, %d recorded steps validated, %.1f s" %
          (pid, cov["states"], cov["evaluations"], time.time() - T0))
    return 0


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def findings(pid):
    """listed findings: (recorded step, text); a step which is exactly as listed raises no alarm"""
    res = []
    for x in open(os.path.join(V, "known-findings.txt")):
        if x.startswith("finding: property=%s {" % pid):
            e, n = json.JSONDecoder().raw_decode(x[x.index("{"):])
            res.append((e, x[x.index("{") + n:].strip()))
    return res


def listed(pid, paths):
    """take the listed steps out of what is going to be validated"""
    known = findings(pid)
    hit = set()
    for q in paths if known else []:
        keep = []
        for x in open(q):
            try:
                e = json.loads(x)
            except ValueError:
                e = None
            k = [i for i, f in enumerate(known) if e == f[0]]
            hit |= set(k)
            if not k:
                keep.append(x)
        open(q, "w").writelines(keep)
    for i in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[i][1]))
    return len(hit)


def drive(pid, drv, tier, seed, work, casefile, cov):
    name, spec = drv["run"], drv["spec"]
    out = os.path.join(work, name)
    os.makedirs(out)
    t = 600 if tier == "quick" else 3000
    if drv.get("lang") == "py":
        cmd = ["/opt/vp/venv/bin/python", os.path.join(V, "py", name + ".py")]
    else:
        cmd = [os.path.join(BUILD, "target/debug/d10-harness"), name]
    cmd += [str(seed), tier, out, str(SHARDS), casefile]
    e = env()
    e["D10_BUILD"] = BUILD
    e["PYTHONPATH"] = os.path.join(BUILD, "pymod")
    try:
        r = subprocess.run(cmd, cwd=out, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=t, preexec_fn=limits)
        rc, err = r.returncode, r.stderr
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    if rc != 0:
        cur = os.path.join(out, "current")
        if rc == 3 or not os.path.exists(cur):
            print(err[-3000:])
            raise Broken("driver %s failed (rc %s)" % (name, rc))
        op = open(cur).read()
        return ("the code under test %s during %s" % ("hung" if rc == "timeout" else "ended the process (status %s)" % rc, op[:400]),
                dict(driver=name, seed=seed, tier=tier, operation=op, status=str(rc), stderr=err[-2000:]))
    paths = sorted(os.path.join(out, f) for f in os.listdir(out) if f.endswith(".ndjson"))
    listed(pid, paths)
    kinds = cov["events_by_kind"]
    nsamp = 0
    for q in paths:
        with open(q) as f:
            for i, line in enumerate(f):
                k = re.search(r'"op":"([^"]*)"', line)
                k = k.group(1) if k else "?"
                kinds[k] = kinds.get(k, 0) + 1
                if nsamp < 4 and k != "reset" and i % 7 == 3 and len(line) < 1500:
                    cov["samples"].append(json.loads(line))
                    nsamp += 1
    with ThreadPoolExecutor(SHARDS) as ex:
        res = list(ex.map(lambda q: (q,) + validate(spec, q, work, t), paths))
    nonempty = 0
    for q, ok, n, st, o in res:
        cov["states"] += st[1]
        cov["transitions"] += st[0]
        cov["evaluations"] += n
        nonempty += 1 if n else 0
    sess = 0
    if r.stdout.strip():
        try:
            sess = json.loads(r.stdout.strip().splitlines()[-1]).get("sessions", 0)
        except ValueError:
            pass
    cov["traces_validated_against_impl"] += sess or nonempty
    cov["drivers"].append(dict(driver=name, spec=spec, sessions=sess, events=sum(x[2] for x in res)))
    for q, ok, n, st, o in res:
        if ok is True:
            continue
        lines = open(q).read().splitlines()
        n = min(n, len(lines) - 1)
        start = max([i for i in range(n + 1) if '"op":"reset"' in lines[i]] or [n])
        keep = [json.loads(x) for x in lines[start:n + 1]]
        evt = lines[n]
        inv = re.findall(r"Error: (.*)", o)
        return ("%s: recorded step is not a step of %s (%s line %d): %s" % (pid, spec, os.path.basename(q), n + 1, evt[:700]),
                dict(driver=name, spec=spec, seed=seed, tier=tier, rejected=json.loads(evt), session=keep[-200:], tlc=inv[:5]))
    return None


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as b:
        print("CHECK ERROR: %s" % b)
        sys.exit(2)
