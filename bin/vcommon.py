"""Common machinery of the checks: build the conformance driver from /repo's working tree, run it,
let TLC judge the recorded histories against the TLA+ specifications, write evidence."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPECS = os.path.join(VERIF, "specs")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
START = time.time()


class CheckError(Exception):
    """the check itself could not decide (exit 2)"""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def log(*a):
    print("[%6.1fs]" % (time.time() - START), *a, flush=True)


def goenv():
    e = dict(os.environ)
    for line in open("/opt/vp/env.sh"):
        m = re.match(r"\s*export\s+(\w+)=(.*)", line)
        if m:
            v = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; printf %s \"$" + m.group(1) + "\""],
                               stdout=subprocess.PIPE, text=True).stdout
            e[m.group(1)] = v
    e.setdefault("HOME", "/root")
    return e


_env = None


def env():
    global _env
    if _env is None:
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
        _env = dict(kv.split("=", 1) for kv in out.decode().split("\0") if "=" in kv)
    return _env


class Work:
    """a scratch directory, removed at the end"""

    def __init__(self, prop):
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, race=False):
    """compile the driver inside the willow module, from the current working tree of /repo"""
    ov = {"Replace": {}}
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.go"))):
        ov["Replace"]["%s/internal/verifharness/%s" % (REPO, os.path.basename(f))] = f
    ovp = work.path("overlay.json")
    json.dump(ov, open(ovp, "w"))
    out = work.path("vh")
    cmd = ["go", "build", "-overlay", ovp, "-o", out]
    if race:
        cmd.insert(2, "-race")
    r = subprocess.run(cmd + ["./internal/verifharness"], cwd=REPO, env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("the driver does not build against /repo:\n" + r.stdout[-4000:])
    log("driver built from /repo")
    return out


CRASH = re.compile(r"^(panic: |fatal error: )", re.M)


def run_driver(work, binary, driver, workload, n, seed, tier, budget=400, infile=None, extra=()):
    out = work.path("%s-%s-%d.ndjson" % (driver, workload, seed))
    cmd = [binary, "-driver", driver, "-prop", workload, "-n", str(n), "-seed", str(seed), "-tier", tier,
           "-out", out, "-budget", str(budget)] + list(extra)
    if infile:
        cmd += ["-in", infile]
    t = time.time()
    e = dict(env())
    e["GOTRACEBACK"] = "all"
    e["GORACE"] = "exitcode=0"
    e["TMPDIR"] = work.dir
    try:
        r = subprocess.run(cmd, cwd=work.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=budget + 120)
    except subprocess.TimeoutExpired:
        raise CheckError("driver %s/%s exceeded its time" % (driver, workload))
    stats = None
    m = re.search(r"^DRIVER-DONE (.*)$", r.stdout, re.M)
    if r.returncode == 0 and m:
        stats = json.loads(m.group(1))
        log("driver %s/%s seed %d: %s (%.1fs)" % (driver, workload, seed, m.group(1), time.time() - t))
        return out, stats
    err = r.stderr
    if "HARNESS-ERROR" in err:
        raise CheckError("driver failed:\n" + err[-3000:])
    # the service code brought the process down: an unrecovered panic, a fatal error or a fatal log line
    crash = CRASH.search(err)
    if crash:
        top = err[crash.start():crash.start() + 6000]
        first = top.split("\n\ngoroutine ")[0] if "\n\ngoroutine " in top[20:] else top
        # whose code is it?  the innermost frame of the first goroutine that is not the Go runtime or library
        gor = re.split(r"\n\n", top[top.find("goroutine "):])[0]
        frames = [f for f in re.findall(r"^(github\.com/DanLavine/\S+|main\.\S+)\(", gor, re.M)]
        ours = [f for f in frames if f.startswith("github.com/DanLavine/")]
        if ours and not frames[0].startswith("main."):
            rp = save_replay(work.prop, "crash", {"driver": driver, "workload": workload, "seed": seed, "stderr": top})
            raise Violation("the service process crashed: " + top.split("\n")[0][:200], rp)
        raise CheckError("driver crashed outside the code under test:\n" + top)
    if '"level":"fatal"' in err:
        line = [x for x in err.split("\n") if '"level":"fatal"' in x][-1]
        rp = save_replay(work.prop, "fatal", {"driver": driver, "workload": workload, "seed": seed, "stderr": err[-4000:]})
        raise Violation("the service process terminated itself: " + line[:300], rp)
    raise CheckError("driver %s/%s exit %d\n%s" % (driver, workload, r.returncode, err[-3000:]))


def save_replay(prop, name, obj):
    d = os.path.join(VERIF, "out", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, re.sub(r"[^\w.-]", "_", name) + ".json")
    with open(p, "w") as f:
        json.dump(obj, f, indent=1)
    return p


STATES = re.compile(r"^([\d,]+) states generated, ([\d,]+) distinct states found", re.M)


def tlc(work, module, cfg, trace=None, workers=1, extra=(), timeout=800, mem="3g", tag=""):
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work.dir)
    e = dict(env())
    if trace:
        e["TRACE"] = trace
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPECS, cfg)] + list(extra) + \
          [os.path.join(SPECS, module)]
    try:
        r = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s (%s)" % (module, tag))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = STATES.findall(r.stdout)
    st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return r.returncode, r.stdout, st


NOT_ASCII = re.compile(r"\\\\|[^\x00-\x7e]|\\u(?!00[0-7])[0-9a-fA-F]{4}")


def ascii_only(line):
    """TLC damages other characters in states that it moves to disk, so they are spelled out"""
    def spell(m):
        x = m.group(0)
        return x if x == "\\\\" else "~%x~" % (ord(x) if len(x) == 1 else int(x[2:], 16))
    return NOT_ASCII.sub(spell, line)


def chunks(path, k, work):
    lines = [ascii_only(l) for l in open(path, encoding="utf-8", errors="surrogateescape") if l.strip()]
    lines.sort(key=len, reverse=True)
    parts = [[] for _ in range(min(k, max(1, len(lines))))]
    for i, l in enumerate(lines):
        parts[i % len(parts)].append(l)
    out = []
    for i, p in enumerate(parts):
        if not p:
            continue
        f = "%s.%d" % (path, i)
        open(f, "w").writelines(p)
        out.append(f)
    return out


def validate(work, module, path, jobs=8, timeout=800, cfg=None):
    """TLC decides, history by history, whether the specification explains what the code did."""
    cfg = cfg or module.replace(".tla", ".cfg")
    t = time.time()
    parts = chunks(path, jobs, work)
    checked, rej, gen, dist = 0, [], 0, 0

    def one(f):
        return tlc(work, module, cfg, trace=f, timeout=timeout)

    with cf.ThreadPoolExecutor(jobs) as ex:
        for rc, out, st in ex.map(one, parts):
            m = re.search(r'<<"CHECKED", (\d+), "REJECTED", (\d+)>>', out)
            if not m or rc != 0:
                at = out.find("Error:")
                raise CheckError("TLC failed on %s (rc %d):\n%s" % (module, rc, out[at:at + 1500] if at >= 0 else out[-2500:]))
            checked += int(m.group(1))
            rs = re.findall(r'<<"REJECT", "([^"]*)", "at", (\d+), "of", (\d+)>>', out)
            if len(rs) != int(m.group(2)):
                raise CheckError("TLC verdict could not be parsed:\n" + out[-2000:])
            rej += [(a, int(b), int(c)) for a, b, c in rs]
            gen += st[0]
            dist += st[1]
    log("%s: %d histories, %d rejected, %d states (%.1fs)" % (module, checked, len(rej), dist, time.time() - t))
    return checked, rej, gen, dist


def explain(path, name, at):
    """the part of a history around the event that no behaviour of the specification explains"""
    for line in open(path):
        h = json.loads(line)
        if h["name"] == name:
            ev, ops = h["ev"], h["ops"]
            i = min(at, len(ev)) - 1
            e = ev[i] if ev else {}
            o = ops[e["o"] - 1] if e.get("o") else {}
            return h, e, o
    return None, {}, {}


def model(work, module, cfg, timeout=800, workers=8, extra=(), mem="8g", violates=None):
    rc, out, st = tlc(work, module, cfg, workers=workers, timeout=timeout, extra=extra, mem=mem, tag=cfg)
    if violates:  # a deliberately broken variant: the property must be refuted, or it says nothing
        if violates not in out or "is violated" not in out:
            raise CheckError("the broken variant %s/%s is not refuted:\n%s" % (module, cfg, out[-2500:]))
        log("model %s/%s: refuted, as it must be" % (module, cfg))
        return st
    if rc != 0 or "No error has been found" not in out:
        raise CheckError("the specification %s/%s does not satisfy its properties:\n%s" % (module, cfg, out[-3500:]))
    log("model %s/%s: %d states generated, %d distinct" % (module, cfg, st[0], st[1]))
    return st


def generate(work, gen, n, seed):
    """behaviours of the specification, produced by TLC's simulator, for the driver to replay in the real code"""
    out = work.path("gen-%d.ndjson" % seed)
    e = {"GEN_OUT": out}
    os.environ.update(e)
    _e = env()
    _e.update(e)
    rc, txt, st = tlc(work, gen["module"], gen["cfg"], workers=1, timeout=300,
                      extra=["-simulate", "num=%d" % n, "-depth", str(gen.get("depth", 40)), "-seed", str(seed)], tag="generate")
    lines = re.findall(r'^"?GEN (\{.*?\})"?$', txt, re.M)
    if not lines:
        raise CheckError("TLC generated no behaviours:\n" + txt[-2500:])
    with open(out, "w") as f:
        for l in lines[:n]:
            f.write(l.replace('\\"', '"') + "\n")
    log("TLC generated %d behaviours of %s" % (min(n, len(lines)), gen["module"]))
    return out


def mutation_selftest(work, module, path, seed, k=60):
    """The binding must not be vacuous: corrupt recorded histories (swap the answers of two operations of the same
    kind, or drop one answer's effect) and count how many of the corrupted ones TLC refuses."""
    import random
    rnd = random.Random(seed)
    hs = [json.loads(l) for l in open(path) if l.strip()]
    rnd.shuffle(hs)
    out = []
    for h in hs:
        if len(out) >= k:
            break
        ops = h["ops"]
        done = [i for i, o in enumerate(ops) if o.get("tres") is not None]
        rnd.shuffle(done)
        for i in done:
            others = [j for j in done if ops[j]["op"] == ops[i]["op"] and
                      ops[j]["r"] != ops[i]["r"]]
            if not others:
                continue
            ops[i]["r"] = ops[rnd.choice(others)]["r"]
            h["name"] = "corrupt-" + h["name"]
            out.append(h)
            break
    if not out:
        return 0, 0
    p = path + ".mut"
    with open(p, "w") as f:
        for h in out:
            f.write(json.dumps(h) + "\n")
    checked, rej, _, _ = validate(work, module, p)
    log("corrupted histories: %d of %d refused" % (len(rej), checked))
    if checked >= 10 and not rej:
        raise CheckError("%s accepts every corrupted history: the binding is vacuous" % module)
    return checked, len(rej)
