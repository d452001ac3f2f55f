"""Conformance runner: builds the driver against /repo's working tree, records
calls of the real code, and lets TLC judge the recording with the TLA+
specification in /verif/spec.

usage: vf.py check ID | setup | replay FILE"""

import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
DRIVER = os.path.join(VERIF, "driver")
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar"
COMM = "/opt/veriftools/tla/CommunityModules-deps.jar"

VALUE, SPECIAL, ACC, PREC, ALL = '{"value"}', '{"special"}', '{"acc"}', '{"prec"}', '{"value", "acc", "prec"}'


class Error(Exception):
    """The check itself failed: no answer about the property."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# -- properties ---------------------------------------------------------------

ENC = ["binary16", "float80x86", "binary128", "float128ppc"]


def kinds(ops, names):
    return [o + "." + n for o in ops.split() for n in names]


# calls enumerated by TLC from the specification (CallGen), per property
GEN = {
    "C02": kinds("dec", ["binary128"]),
    "C03": kinds("dec", ["float80x86"]),
    "C04": kinds("dec", ["float128ppc"]),
    "C05": kinds("enc far", ["binary16"]),
    "C06": kinds("enc far", ["binary128"]),
    "C07": kinds("enc far", ["float80x86"]),
    "C08": kinds("enc far", ["float128ppc"]),
    "C09": kinds("enc", ENC[:3]) + kinds("far", ENC) + kinds("n64 n32", ENC[1:3]),
    "C10": kinds("e64 e32", ENC),
    "C11": kinds("n64 n32", ENC[1:]),
    "C12": kinds("rt", ENC[1:]),
    "C13": kinds("spc", ENC + ["bfloat16"]) + kinds("enz", ENC),
    "C14": kinds("fld", ["float80x86", "binary128"]) + kinds("bits", ENC[1:]),
    "C17": kinds("isx", ["binary16", "float32", "float64"]) + kinds("far", ["float32", "float64"]),
    "C21": kinds("sym ord", ENC) + kinds("dord", ENC + ["bfloat16"]) + kinds("eo64 eo32", ENC) + kinds("no64 no32", ENC[1:]),
    "C22": kinds("mig", ENC + ["bfloat16"]),
    "C23": kinds("dec", ENC + ["bfloat16"]),
}

# texts enumerated by TLC from the specification (TextGen), per property


def texts(names, sizes=("16", "32", "64")):
    return [k + "." + n for k in names.split() for n in sizes]


TEXT = {
    "C16": texts("spec wide over app") + ["int.0"],
    "C17": texts("isx"),
    "C18": texts("pow dec edge over close"),
    "C19": texts("tie thr wide spec over shift half") + texts("cut", ("32", "64")),
    "C20": texts("app") + ["int.0", "appint.0"],
    "C24": texts("letter") + ["size.0", "base.0"],
}


# aspects checked, models checked along, and sizes: (events judged by TLC, further
# calls screened) for the quick and the thorough tier
P = {
    "C01": dict(asp=VALUE, mct=["bignat"], mc=["fields16"], q=(0, 0), t=(0, 0)),
    "C02": dict(asp=VALUE, q=(12000, 3000000), t=(300000, 150000000)),
    "C03": dict(asp=VALUE, q=(12000, 3000000), t=(300000, 150000000)),
    "C04": dict(asp=VALUE, q=(10000, 3000000), t=(300000, 150000000)),
    "C05": dict(asp=VALUE, mct=["roundfull", "encodefull", "encodetwice", "encodeedge"], mc=["fields16", "roundtoy", "encode"], q=(12000, 4000000), t=(300000, 150000000)),
    "C06": dict(asp=VALUE, mct=["roundfull", "encodefull", "encodeedge"], mc=["roundtoy", "encode"], q=(12000, 3000000), t=(300000, 150000000)),
    "C07": dict(asp=VALUE, mct=["roundfull", "encodefull", "encodeedge"], mc=["roundtoy", "encode"], q=(12000, 3000000), t=(300000, 150000000)),
    "C08": dict(asp=VALUE, mct=["ddfull", "splitfull", "splitloose"], mc=["ddtoy", "split"], q=(10000, 3000000), t=(300000, 100000000)),
    "C09": dict(asp=ACC, mct=["roundfull", "encodefull"], mc=["roundtoy", "encode"], q=(12000, 4000000), t=(300000, 150000000)),
    "C10": dict(asp=VALUE, mct=["roundfull"], q=(12000, 4000000), t=(300000, 150000000)),
    "C11": dict(asp=VALUE, mct=["roundfull"], mc=["roundtoy"], q=(12000, 4000000), t=(300000, 150000000)),
    "C12": dict(asp=VALUE, mct=["ddfull", "splitfull"], mc=["ddtoy", "split"], q=(12000, 3000000), t=(300000, 100000000)),
    "C13": dict(asp=SPECIAL, q=(12000, 3000000), t=(300000, 100000000)),
    "C14": dict(asp=VALUE, q=(12000, 3000000), t=(100000, 100000000)),
    "C15": dict(asp=ALL, hist=True, mct=["clients"], mc=["clientsscratch", "clientscache", "clientsborrow"]),
    "C16": dict(asp="{}", q=(10000, 3000000), t=(100000, 200000000)),
    "C17": dict(asp=VALUE, mct=["dectoy13", "dectoy23", "dectoy43"], mc=["dectoy"], q=(10000, 1500000), t=(200000, 60000000)),
    "C18": dict(asp=VALUE, mct=["dectoy13", "dectoy23", "dectoy43", "shortfull", "shortold", "grisufull", "grisutight", "grisuzero"], mc=["dectoy", "shortwalk", "grisu"], q=(10000, 4000000), t=(200000, 150000000)),
    "C19": dict(asp=VALUE, mct=["dectoy43", "shiftfull", "shiftwide", "shiftcut", "grisufull", "grisutight", "grisuzerofix"], mc=["dectoy", "shift", "grisu"], q=(10000, 4000000), t=(200000, 150000000)),
    "C20": dict(asp=VALUE, mct=["itoafull", "itoaroom"], mc=["itoa"], q=(16000, 5000000), t=(200000, 200000000)),
    "C21": dict(asp=VALUE, mct=["roundfull", "ddfull"], mc=["roundtoy"], q=(10000, 2000000), t=(200000, 60000000)),
    "C22": dict(asp=VALUE, mct=["roundfull"], q=(8000, 1500000), t=(200000, 50000000)),
    "C24": dict(asp=VALUE, q=(8000, 3000000), t=(150000, 100000000)),
    "C23": dict(asp=PREC, q=(12000, 3000000), t=(200000, 100000000)),
}

# -- tools --------------------------------------------------------------------


def goenv(**kw):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, check=True).stdout
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.decode().split("=", 1)
            e[k] = v
    e.update(kw)
    return e


def build(work, name="driver", race=False, arch=None):
    files = sorted(f for f in os.listdir(DRIVER) if f.endswith(".go"))
    ov = os.path.join(work, "overlay-%s.json" % name)
    with open(ov, "w") as f:
        json.dump({"Replace": {os.path.join(REPO, "zzverif", g): os.path.join(DRIVER, g) for g in files}}, f)
    out = os.path.join(work, name)
    cmd = ["go", "build", "-mod=readonly", "-overlay", ov, "-o", out]
    env = goenv()
    if race:
        cmd.append("-race")
        env["CGO_ENABLED"] = "1"
    if arch:
        env["GOARCH"] = arch
    r = subprocess.run(cmd + ["./zzverif"], cwd=REPO, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        raise Error("driver does not build:\n" + r.stderr[-4000:])
    return out


def compile_override(work):
    cls = os.path.join(work, "cls")
    os.makedirs(cls, exist_ok=True)
    r = subprocess.run(["javac", "-cp", TLA, "-d", cls, os.path.join(SPEC, "java/tlc2/module/BigNat.java")],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise Error("javac: " + r.stderr[-2000:])
    return cls


class TLC:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            self.generated = int(m[-1])
        self.rejected = [tuple(int(x) for x in re.findall(r"\d+", l))
                         for l in re.findall(r'<<\s*"REJECTED",([^>]*)>>', out)]
        self.ok = rc == 0 and "No error has been found" in out


def tlc(work, cls, module, cfg, name, env=None, args=(), workers=8, heap="6g", timeout=840):
    """Runs TLC on spec module with the text of a configuration."""
    d = os.path.join(work, "tlc-" + name)
    os.makedirs(d, exist_ok=True)
    c = os.path.join(d, module + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    cp = ":".join(x for x in (cls, TLA, COMM) if x)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", cp,
           "-DTLA-Library=" + SPEC, "tlc2.TLC", "-workers", str(workers), "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "meta"), "-config", c, *args, os.path.join(SPEC, module + ".tla")]
    t = time.time()
    outp = os.path.join(d, "out.txt")
    with open(outp, "w") as o:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=o, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            raise Error("TLC %s: timeout" % name)
    with open(outp, errors="replace") as o:
        out = o.read()
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    res = TLC(rc, out, time.time() - t)
    log("  tlc %-14s %6.1fs  %d states" % (name, res.wall, res.distinct))
    return res


def tail(s, n=3000):
    """The end of a text, and of TLC's output what went wrong."""
    i = s.find("Error:")
    return (s[i:i + n] + " ... " if 0 <= i < len(s) - n else "") + s[-n:]


def build32(work):
    """The driver for a platform with 32-bit words, or None where that does not run."""
    drv = build(work, "driver32", arch="386")
    try:
        r = subprocess.run([drv, "-replay", os.devnull], capture_output=True, timeout=60)
    except OSError:
        return None
    return drv if r.returncode == 0 else None


def limit():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def limit_mem():
    limit()
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))


def run_driver(drv, args, timeout, env=None, mem=True, quiet=False, late=None):
    """late: what to return instead of an error when the time runs out."""
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run([drv] + [str(a) for a in args], capture_output=True, text=True, errors="replace",
                           timeout=timeout, env=e, preexec_fn=limit_mem if mem else limit)
    except subprocess.TimeoutExpired:
        if late:
            log("  driver %ds, stopped: %s" % (timeout, " ".join(str(a) for a in args[:4])))
            return late
        raise Error("driver: timeout: " + " ".join(map(str, args)))
    if not quiet:
        log("  driver %.1fs %s" % (time.time() - t, " ".join(str(a) for a in args[:4])))
    return r


# -- known findings -----------------------------------------------------------


def known(prop):
    """Open findings: 'finding: property=<id> match=<json of argument fields> <what>'."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    for l in open(path):
        m = re.match(r"finding: property=(\w+) match=(\{.*?\}) (.*)$", l.strip())
        if m and m.group(1) == prop:
            out.append((json.loads(m.group(2)), m.group(3)))
    return out


def matches(ev, m):
    return all(ev.get(k) == v for k, v in m.items())


# -- trace validation ---------------------------------------------------------


def call_cfg(asp):
    return ("SPECIFICATION Spec\nCONSTANT Aspects = %s\nINVARIANT TypeOK\n"
            "POSTCONDITION Accepted\nCHECK_DEADLOCK FALSE\n" % asp)


def judge_calls(work, cls, trace, asp, name="trace"):
    """TLC's verdict on a trace of calls: (TLC, lines rejected)."""
    with open(trace) as f:
        lines = f.read().splitlines()
    if not lines:
        raise Error("empty trace")
    chunk = max(1, (len(lines) + 63) // 64)
    r = tlc(work, cls, "CallTrace", call_cfg(asp), name, {"TRACE": trace, "CHUNK": str(chunk)})
    bad = [lines[i[0] - 1] for i in sorted(set(r.rejected))]
    if not r.ok and not bad:
        raise Error("TLC on %s:\n%s" % (name, tail(r.out)))
    return r, bad, len(lines)


def judge_hists(work, cls, trace, asp, name="hist"):
    with open(trace) as f:
        lines = f.read().splitlines()
    if not lines:
        raise Error("empty trace")
    cfg = call_cfg(asp)
    r = tlc(work, cls, "HistTrace", cfg, name, {"TRACE": trace})
    bad = []
    for h in sorted(set(r.rejected)):
        d = json.loads(lines[h[0] - 1])
        d["ev"] = d["ev"][:h[1]]
        bad.append(json.dumps(d, separators=(",", ":")))
    if not r.ok and not bad:
        raise Error("TLC on %s:\n%s" % (name, tail(r.out)))
    return r, bad, len(lines)


def with_outcome(call, outcome, why=""):
    d = json.loads(call)
    d["o"] = outcome
    if why:
        d["why"] = why
    return json.dumps(d, separators=(",", ":"))


def isolate(work, drv, call):
    """Makes one call on its own: 'ok', 'hang' or 'crash'."""
    p = os.path.join(work, "one.nd")
    with open(p, "w") as f:
        f.write(call + "\n")
    r = run_driver(drv, ["-replay", p, "-out", os.path.join(work, "one.out"), "-hang", "45s"], 120)
    if r.returncode == 0:
        return "ok", ""
    if r.returncode == 3:
        return "hang", ""
    if r.returncode == 4:
        raise Error("driver: " + tail(r.stderr))
    return "crash", r.stderr[:600]


def record(work, drv, args, out):
    """Runs the driver; calls that hang or crash the process are confirmed on
    their own and logged with that outcome. Returns whether one was confirmed."""
    base = ["-repo", REPO, "-out", out]
    r = run_driver(drv, args + base, 800)
    if r.returncode == 0:
        return False
    if r.returncode == 4:
        raise Error("driver: " + tail(r.stderr))
    suspects = []
    if r.returncode == 3:
        suspects = [l for l in r.stdout.splitlines() if l.startswith("{")]
    else:
        log("  driver died (%d): %s" % (r.returncode, r.stderr[:300]))
        care = os.path.join(work, "careful")
        os.makedirs(care, exist_ok=True)
        r2 = run_driver(drv, args + base + ["-careful", care], 800)
        if r2.returncode == 3:
            suspects = [l for l in r2.stdout.splitlines() if l.startswith("{")]
        elif r2.returncode != 0:
            for f in sorted(os.listdir(care)):
                suspects.append(open(os.path.join(care, f)).read().strip())
    confirmed = []
    for c in suspects:
        o, why = isolate(work, drv, c)
        if o != "ok":
            confirmed.append(with_outcome(c, o, why))
    if confirmed:
        with open(out, "w") as f:
            f.write("\n".join(confirmed) + "\n")
        return True
    gave_up = subprocess.CompletedProcess([], 0, "", "")
    if "C16" in args:   # is it reproduced among concurrent calls?
        found = []
        for _ in range(2):
            if not found and r.returncode != 0:
                care = tempfile.mkdtemp(prefix="careful", dir=work)
                # a crash needs to know the calls under way; writing them down slows the calls down
                r = run_driver(drv, args + base + ["-hang", "45s"] + (["-careful", care] if r.returncode != 3 else []), 200,
                               late=gave_up)
                if r.returncode not in (0, 3, 4) and not os.listdir(care):
                    continue
                if r.returncode == 3:
                    found = [with_outcome(l, "hang", "among concurrent calls") for l in r.stdout.splitlines() if l.startswith("{")]
                elif r.returncode not in (0, 4):
                    found = [with_outcome(open(os.path.join(care, f)).read().strip(), "crash", "among concurrent calls; " + r.stderr[:600])
                             for f in sorted(os.listdir(care))]
        if found:
            with open(out, "w") as f:
                f.write("\n".join(found) + "\n")
            return True
    # no single call: is it what was called before, or the concurrency of the driver?
    care = os.path.join(work, "careful1")
    os.makedirs(care, exist_ok=True)
    r3 = run_driver(drv, args + base + ["-workers", "1", "-hang", "45s", "-careful", care], 300, late=gave_up)
    if r3.returncode == 0:
        open(out, "a").close()
        return False
    found = [with_outcome(l, "hang", "after other calls") for l in r3.stdout.splitlines()
             if l.startswith("{") and r3.returncode == 3]
    if r3.returncode not in (3, 4):
        for f in sorted(os.listdir(care)):
            found.append(with_outcome(open(os.path.join(care, f)).read().strip(), "crash", r3.stderr[:600]))
    if not found:
        raise Error("driver died (%d) and no single call explains it:\n%s" % (r.returncode, r.stderr[:2000]))
    with open(out, "w") as f:
        f.write("\n".join(found) + "\n")
    return True


# -- models -------------------------------------------------------------------

MODELS = {}
_mods = os.path.join(SPEC, "models.json")
if os.path.exists(_mods):
    MODELS = json.load(open(_mods))


def run_model(work, cls, name, workers=2):
    m = MODELS[name]
    r = tlc(work, None if m.get("pure") else cls, m["module"], m["cfg"], "mc-" + name, m.get("env"),
            workers=workers, heap=m.get("heap", "3g"))
    bad = m.get("refute")   # a design that is known to be wrong: TLC has to find out
    if bad:
        if not re.search(r"(Invariant|property) %s (is|was) violated" % bad, r.out):
            raise Error("model %s: TLC does not refute %s:\n%s" % (name, bad, tail(r.out)))
    elif not r.ok:
        raise Error("model %s:\n%s" % (name, tail(r.out)))
    return r


# -- checks -------------------------------------------------------------------


class Result:
    def __init__(self):
        self.bad = []          # rejected events (text), kind
        self.states = self.transitions = self.traces = 0
        self.cov = {}
        self.samples = []

    def add(self, r):
        self.states += r.distinct
        self.transitions += r.generated


def specgen(work, cls, module, kinds, tier, seed, res):
    """Calls enumerated by TLC from the specification, made by the driver."""
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Aspects = %s\n  Kinds = {%s}\n  Full = %s\n%s"
           "INVARIANTS SpecOK Printed\nCHECK_DEADLOCK FALSE\n"
           % (ALL, ", ".join('"%s"' % n for n in kinds), "TRUE" if tier == "thorough" else "FALSE",
              "  Phase = %d\n" % (seed % 1000)))
    r = tlc(work, cls, module, cfg, "gen-" + module, workers=4)
    if not r.ok:
        i = r.out.find("Error:")
        raise Error("%s:\n%s" % (module, r.out[i:i + 3000]))
    calls = [json.loads(l) for l in r.out.splitlines() if l.startswith('"{')]
    p = os.path.join(work, "gen-%s.nd" % module)
    with open(p, "w") as f:
        for c in calls:
            f.write(c + "\n")
    res.add(r)
    res.cov.setdefault("calls_generated_by_tlc", {})[module] = len(calls)
    return p


def submit_models(ex, work, cls, conf, tier):
    names = conf.get("mc", []) + (conf.get("mct", []) if tier == "thorough" else [])
    return [(m, ex.submit(run_model, work, cls, m)) for m in names if m in MODELS]


def models_done(models, res):
    for m, f in models:
        r = f.result()
        res.add(r)
        res.cov.setdefault("models", {})[m] = {"states": r.distinct, "transitions": r.generated}


def check_calls(prop, conf, tier, seed, work, res):
    n, screen = conf["q" if tier == "quick" else "t"]
    stats = os.path.join(work, "stats.json")
    trace = os.path.join(work, "trace.nd")
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build, work)
        fb32 = ex.submit(build32, work)
        fc = ex.submit(compile_override, work)
        cls = fc.result()
        models = submit_models(ex, work, cls, conf, tier)
        fg = [ex.submit(specgen, work, cls, m, k[prop], tier, seed, res)
              for m, k in (("CallGen", GEN), ("TextGen", TEXT)) if prop in k]
        drv = fb.result()
        died = record(work, drv, ["-prop", prop, "-seed", seed, "-sample", n, "-screen", screen, "-stats", stats,
                           "-seconds", 60 if tier == "quick" else 600], trace)
        # the same on 32-bit words
        drv32 = fb32.result()
        if died and prop == "C16":   # that is enough
            drv32, fg = None, [g for g in fg if g.result() and False]
        w32 = {"calls": 0, "calls_generated_by_tlc": 0} if drv32 else "does not run here"
        if drv32:
            t32, s32 = os.path.join(work, "trace32.nd"), os.path.join(work, "stats32.json")
            record(work, drv32, ["-prop", prop, "-seed", seed + 32, "-sample", n // 10, "-screen", screen // 20,
                                 "-stride", 40 if tier == "quick" else 4, "-stats", s32,
                                 "-seconds", 10 if tier == "quick" else 100], t32)
            with open(trace, "a") as f, open(t32) as g:
                shutil.copyfileobj(g, f)
            if os.path.exists(s32):
                w32["calls"] = json.load(open(s32))["calls"]
        for g in fg:
            gen = g.result()
            out = gen + ".out"
            r = run_driver(drv, ["-replay", gen, "-out", out], 300)
            if r.returncode != 0:
                record_single(work, drv, gen, out)
            with open(trace, "a") as f, open(out) as g:
                shutil.copyfileobj(g, f)
            if drv32:   # what came out the same has the same verdict
                r = run_driver(drv32, ["-replay", gen, "-out", gen + ".out32"], 300)
                if r.returncode != 0:
                    record_single(work, drv32, gen, gen + ".out32")
                with open(trace, "a") as f, open(out) as a, open(gen + ".out32") as b:
                    la = set(a.read().splitlines())
                    for l in b:
                        w32["calls_generated_by_tlc"] += 1
                        if l.replace('"arch":"386",', "").rstrip("\n") not in la:
                            f.write(l)
        res.cov["on_32_bit_words"] = w32
        models_done(models, res)
    findings = known(prop)
    if findings:
        split_known(work, cls, trace, prop, conf, findings, res)
    r, bad, lines = judge_calls(work, cls, trace, conf["asp"])
    res.add(r)
    res.bad += [("call", b) for b in bad]
    res.traces += lines
    if os.path.exists(stats):
        st = json.load(open(stats))
        res.cov.update(calls_made=st["calls"], calls_screened_only=max(0, st["calls"] - lines),
                       screening_flags=st["flagged"], enumerated=st["enumerated"] + st["grid"],
                       calls_by_operation=st["by_operation"])
    pick_samples(trace, res)


def record_single(work, drv, gen, out):
    """Makes the calls of a file again after a crash or a hang: which call is it,
    alone or after the others?"""
    care = gen + ".careful"
    os.makedirs(care, exist_ok=True)
    r = run_driver(drv, ["-replay", gen, "-out", out, "-hang", "45s", "-careful", care], 800)
    if r.returncode == 0:
        return
    if r.returncode == 4:
        raise Error("driver: " + tail(r.stderr))
    if r.returncode == 3:
        found = [l for l in r.stdout.splitlines() if l.startswith("{")]
    else:
        found = [open(os.path.join(care, f)).read().strip() for f in os.listdir(care)]
    if not found:
        raise Error("driver died replaying generated calls:\n" + tail(r.stderr))
    with open(out, "w") as o:
        for l in found:
            k, why = isolate(work, drv, l)
            if k == "ok":
                k, why = "hang" if r.returncode == 3 else "crash", "after other calls; " + r.stderr[:600]
            o.write(with_outcome(l, k, why) + "\n")


def pick_samples(trace, res, n=4):
    with open(trace) as f:
        lines = f.read().splitlines()
    for k in range(n):
        l = lines[(2 * k + 1) * len(lines) // (2 * n)]
        if len(l) < 3000:
            res.samples.append(json.loads(l))


def split_known(work, cls, trace, prop, conf, findings, res):
    lines = open(trace).read().splitlines()
    keep, hit = [], {}
    for l in lines:
        ev = json.loads(l)
        for k, (m, what) in enumerate(findings):
            if matches(ev, m):
                hit.setdefault(k, []).append(l)
                break
        else:
            keep.append(l)
    with open(trace, "w") as f:
        f.write("\n".join(keep) + "\n")
    for k, ls in hit.items():
        p = os.path.join(work, "known-%d.nd" % k)
        with open(p, "w") as f:
            f.write("\n".join(ls) + "\n")
        r, bad, _ = judge_calls(work, cls, p, conf["asp"], "known-%d" % k)
        if bad:
            print("KNOWN-FINDING: property=%s %s" % (prop, findings[k][1]))


def hist_scripts(work, cls, fmt, depth, num, seed, res, cells=2):
    """Behaviours of LibGen: enumerated (num = 0) or simulated."""
    cfg = ("SPECIFICATION Spec\nCONSTANTS\n  Aspects = %s\n  NR = %d\n  NV = %d\n  NT = %d\n  Depth = %d\n"
           "INVARIANTS TypeOK RoundTrip Representables Printed\nPROPERTY OneCell\nCHECK_DEADLOCK FALSE\n" % (ALL, cells, cells, 2 if num else 1, depth))
    args = []
    if num:
        cfg = cfg.replace("PROPERTY OneCell\n", "")
        args = ["-simulate", "num=%d" % num, "-depth", str(depth + 1), "-seed", str(seed)]
    r = tlc(work, cls, "LibGen", cfg, "gen-%s-%d-%d" % (fmt, depth, cells), {"GEN_FMT": fmt, "GEN_EMIT": "1", "GEN_TEXT": "1" if num else "0"}, args, workers=4)
    if "Error:" in r.out or (not num and not r.ok):
        raise Error("LibGen %s:\n%s" % (fmt, tail(r.out)))
    res.add(r)
    s = [json.loads(l) for l in r.out.splitlines() if l.startswith('"[')]
    return s[:num] if num else s


FMTS = ["binary16", "bfloat16", "float80x86", "binary128", "float128ppc"]


def elsewhere(work, drv, iso, tw):
    """Makes calls again in other processes and in another order, and adds the
    pairs of outcomes to the trace tw: a result must not depend on the past."""
    with open(iso) as f:
        evs = [l for l in f.read().splitlines() if l]
    n = 0
    with open(tw, "a") as out:
        for k in range(4):
            part = evs[k::4][::-1]
            if not part:
                continue
            p = os.path.join(work, "iso-%d.nd" % k)
            with open(p, "w") as f:
                f.write("\n".join(part) + "\n")
            r = run_driver(drv, ["-replay", p, "-out", p + ".out"], 300)
            if r.returncode != 0:
                raise Error("driver: replay of single calls: " + tail(r.stderr))
            with open(p + ".out") as f:
                again = f.read().splitlines()
            for a, b in zip(part, again):
                out.write('{"op":"twice","o":"ok","c1":%s,"c2":%s}\n' % (a, b))
                n += 1
    return n


def functional(work, drv, hist, k):
    """Is the rejected last step of a history nothing but a wrong result that the
    same call gives on its own, too, with no effect beside its result?"""
    h = json.loads(hist)
    if not h["ev"]:
        return False
    e = h["ev"][-1]
    st = h["ev"][-2] if len(h["ev"]) > 1 else h["st"]
    a = e["a"]
    if e["o"] != "ok":
        if a != "call" or e.get("c") is None:
            return False
        call, got = e["c"], {"o": e["o"]}
    elif a == "dec":
        v = st["val"][e["v"] - 1]
        n = e["reg"][e["r"] - 1]
        call = {"op": "dec", "f": v["f"], "w": v["w"]}
        got = {"x": n["x"], "p": n["p"], "md": n["md"], "nan": e["nan"]}
    elif a in ("enc", "isx"):
        x = st["reg"][e["r"] - 1]
        call = {"op": a, "f": e.get("f", ""), "n": e.get("n", 0), "x": x["x"], "xp": x["p"], "xm": x["md"], "xa": x.get("ac", 0)}
        got = {"r": e["q"]} if a == "isx" else {"w": e["val"][e["v"] - 1]["w"], "acc": e["acc"]}
    elif a in ("e64", "e32"):
        call = {"op": a, "f": e["f"], "i": e["i"]}
        got = {"w": e["val"][e["v"] - 1]["w"], "acc": e["acc"]}
    elif a in ("n64", "n32"):
        v = st["val"][e["v"] - 1]
        call = {"op": a, "f": v["f"], "w": v["w"]}
        got = {"r": e["q"], "acc": e["acc"]}
    elif a in ("ff", "fi", "appf", "appi"):
        call = dict(e["c"], pre=[], spare=0)
        if a[:3] == "app":
            call["pre"] = st["txt"][e["sr"] - 1]
        got = {"t": e["txt"][e["d"] - 1]}
    elif a == "call":
        call, got = e["c"], e["c"]
    else:
        return False
    if a in ("call", "appf", "appi") and e["c"].get("spoilt"):   # an effect beside the result
        return False
    # nothing but the cell of the result has changed
    reg, val, txt = list(st["reg"]), list(st["val"]), list(st["txt"])
    if a == "dec":
        reg[e["r"] - 1] = e["reg"][e["r"] - 1]
    if a in ("enc", "e64", "e32"):
        val[e["v"] - 1] = {"f": e["f"], "w": e["val"][e["v"] - 1]["w"]}
    if a in ("ff", "fi", "appf", "appi"):
        txt[e["d"] - 1] = e["txt"][e["d"] - 1]
    if reg != e["reg"] or val != e["val"] or txt != e["txt"]:
        return False
    p = os.path.join(work, "alone-%d.nd" % k)
    with open(p, "w") as f:
        f.write(json.dumps(call) + "\n")
    r = run_driver(drv, ["-replay", p, "-out", p + ".out"], 120, quiet=True)
    if r.returncode != 0:
        return False
    with open(p + ".out") as f:
        b = json.loads(f.read())
    return all(b.get(k) == v for k, v in got.items())


def check_hist(prop, conf, tier, seed, work, res):
    quick = tier == "quick"
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build, work)
        fr = ex.submit(build, work, "driver-race", True)
        f32 = ex.submit(build32, work)
        cls = ex.submit(compile_override, work).result()
        models = submit_models(ex, work, cls, conf, tier)
        # behaviours enumerated from the specification
        if quick:
            enum = ex.submit(hist_scripts, work, cls, FMTS[seed % 5], 2, 0, seed, res)
            texts_ = ex.submit(hist_scripts, work, cls, "text", 3, 0, seed, res)
            sim = ex.submit(hist_scripts, work, cls, "all", 8, 150, seed, res)
            single = ex.submit(hist_scripts, work, cls, "all", 3, 0, seed, res, 1)
        else:
            enum = ex.submit(hist_scripts, work, cls, "all", 3, 0, seed, res)
            texts_ = ex.submit(hist_scripts, work, cls, "text", 4, 0, seed, res)
            sim = ex.submit(hist_scripts, work, cls, "all", 20, 3000, seed, res)
            single = ex.submit(hist_scripts, work, cls, "all", 4, 0, seed, res, 1)
        drv, race, drv32 = fb.result(), fr.result(), f32.result()
        scripts = enum.result() + sim.result()
        alone = single.result() + texts_.result()
        models_done(models, res)
    sp = os.path.join(work, "scripts.nd")
    with open(sp, "w") as f:
        f.write("\n".join(scripts) + "\n")
    # one client at a time: what it does twice in a row, nobody comes between
    sa = os.path.join(work, "alone.nd")
    with open(sa, "w") as f:
        f.write("\n".join(alone) + "\n")
    res.cov["behaviours_enumerated_from_spec"] = len(scripts) + len(alone)
    hista = os.path.join(work, "hista.nd")
    rnda = os.path.join(work, "rnda.nd")
    hist = os.path.join(work, "hist.nd")
    rnd = os.path.join(work, "rnd.nd")
    tw = os.path.join(work, "twice.nd")
    nh, nt, ns = (400, 500, 4000) if quick else (6000, 40000, 60000)
    died = []

    def drive(args, out, binary=drv, env=None):
        if len(died) > 1:   # that is enough
            return False
        r = run_driver(binary, args + ["-repo", REPO, "-out", out], 800, env, mem=binary is not race)
        if r.returncode == 4:
            raise Error("driver: " + tail(r.stderr))
        if r.returncode == 3:   # a loaded machine, or a deadlock?
            r = run_driver(binary, args + ["-repo", REPO, "-out", out, "-hang", "60s"], 800, env, mem=binary is not race)
        if r.returncode != 0:
            died.append((r.returncode, args, r.stdout[:2000] + r.stderr[:3000]))
            return False
        return True
    got = []
    if drive(["-hist", sp], hist):
        got.append(("hist", hist, len(scripts)))
    if drive(["-hist", "random", "-n", nh, "-seed", seed], rnd):
        got.append(("hist", rnd, nh))
    if drive(["-hist", sa, "-workers", 1], hista):
        got.append(("hist", hista, len(alone)))
    if drive(["-hist", "random", "-n", nh // 2, "-seed", seed + 64, "-workers", 1], rnda):
        got.append(("hist", rnda, nh // 2))
    iso = os.path.join(work, "iso.nd")
    def append(name):
        """Results found changed, long after the call that returned them, join the trace tw."""
        if not any(k == "call" for k, _, _ in got):
            got.append(("call", tw, 0))
        with open(os.path.join(work, name)) as f, open(tw, "a") as g:
            shutil.copyfileobj(f, g)
    late = lambda n: ["-keep", n, "-late", os.path.join(work, "late.nd")]
    if drive(["-twice", "-n", nt, "-sample", ns, "-seed", seed, "-stats", os.path.join(work, "tw.json"), "-iso", iso] + late(2048), tw):
        append("late.nd")
        res.cov["outcomes_compared_with_another_process"] = elsewhere(work, drv, iso, tw)
    # very many calls of each operation, and a crowd of clients: what looks wrong is made again elsewhere
    for name, args in (("mass", ["-prop", "C15", "-sample", 0, "-screen", 6000000 if quick else 80000000, "-stride", 3 if quick else 1]),
                       ("crowd", ["-twice", "-workers", 120, "-n", 40 if quick else 600, "-sample", ns // 8, "-iso", iso + "2"])):
        o, st = (os.path.join(work, name + e) for e in (".nd", ".json"))
        if drive(args + ["-seed", seed + 7, "-stats", st] + late(4096 if name == "mass" else 256), o):
            if name == "crowd":
                append(name + ".nd")
                o = iso + "2"
            append("late.nd")
            elsewhere(work, drv, o, tw)
            res.cov[name] = {"calls": json.load(open(st))["calls"]}
    # the same on 32-bit words
    if drv32:
        h32, t32, i32 = (os.path.join(work, n) for n in ("hist32.nd", "twice32.nd", "iso32.nd"))
        n32 = nh // 5
        if drive(["-hist", "random", "-n", n32, "-seed", seed + 32], h32, drv32):
            got.append(("hist", h32, n32))
        if drive(["-twice", "-n", nt // 20, "-sample", ns // 10, "-seed", seed + 32, "-iso", i32] + late(1024), t32, drv32):
            elsewhere(work, drv32, i32, t32)
            append("twice32.nd")
            append("late.nd")
        res.cov["on_32_bit_words"] = {"histories": n32}
    # the same under the race detector
    rlog = os.path.join(work, "race")
    os.makedirs(rlog, exist_ok=True)
    renv = {"GORACE": "log_path=%s/r halt_on_error=0 exitcode=0 history_size=3" % rlog}
    nr = 200 if quick else 3000
    rr = drive(["-hist", "random", "-n", nr, "-seed", seed + 1], os.path.join(work, "rr.nd"), race, renv)
    rt = drive(["-twice", "-n", 30 if quick else 2000, "-sample", 500, "-seed", seed + 1], os.path.join(work, "rt.nd"), race, renv)
    if rr:
        got.append(("hist", os.path.join(work, "rr.nd"), nr))
    reports = ""
    for f in sorted(os.listdir(rlog)):
        reports += open(os.path.join(rlog, f), errors="replace").read()
    res.cov["race_detector"] = {"histories": nr if rr else 0, "reports": reports.count("WARNING: DATA RACE")}
    # TLC decides
    hists = os.path.join(work, "hists.nd")
    with open(hists, "w") as f:
        for kind, p, _ in got:
            if kind == "hist":
                f.write(open(p).read())
                pick_samples(p, res, 1)
    with cf.ThreadPoolExecutor(2) as ex:
        jobs = []
        if any(k == "hist" for k, _, _ in got):
            jobs.append(("hist", ex.submit(judge_hists, work, cls, hists, conf["asp"], "hists")))
        if any(k == "call" for k, _, _ in got):
            jobs.append(("call", ex.submit(judge_calls, work, cls, tw, conf["asp"], "twice")))
        for kind, job in jobs:
            r, bad, lines = job.result()
            res.add(r)
            res.traces += lines
            if kind == "hist":
                with cf.ThreadPoolExecutor(8) as pool:
                    alone = list(pool.map(lambda k: functional(work, drv32 if '"arch":"386"' in bad[k][:40] else drv, bad[k], k),
                                          range(len(bad))))
                n = sum(alone)
                if os.environ.get("VERIF_DEBUG"):
                    open("/tmp/fbad.nd", "w").write("\n".join(bad))
                bad = [b for b, a in zip(bad, alone) if not a]
                if n:
                    print("note: %d wrong results that do not depend on the history (no matter of this property)" % n)
            res.bad += [(kind, b) for b in bad]
    extra = []
    if reports:
        extra.append({"op": "concurrent", "o": "race", "why": reports[:6000]})
    for rc, args, err in died:
        extra.append({"op": "concurrent", "o": "hang" if rc == 3 else "crash", "args": [str(a) for a in args], "why": err})
    if extra:
        p = os.path.join(work, "extra.nd")
        with open(p, "w") as f:
            for e in extra:
                f.write(json.dumps(e) + "\n")
        r, bad, _ = judge_calls(work, cls, p, conf["asp"], "extra")
        res.add(r)
        res.bad += [("run", b) for b in bad]
    if os.path.exists(os.path.join(work, "tw.json")):
        st = json.load(open(os.path.join(work, "tw.json")))
        res.cov.update(calls_made_concurrently=st["calls"], repeated_calls_differing=st["flagged"],
                       calls_by_operation=st["by_operation"])


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = P[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    res = Result()
    try:
        log("%s %s seed %d" % (prop, tier, seed))
        (check_hist if conf.get("hist") else check_calls)(prop, conf, tier, seed, work, res)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    rep = None
    if res.bad:
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        rep = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        kinds = {}
        for k, b in res.bad:
            kinds.setdefault(k, []).append(json.loads(b))
        with open(rep, "w") as f:
            json.dump({"property": prop, "aspects": conf["asp"], "tier": tier, "seed": seed, "rejected": kinds}, f, indent=1)
            f.write("\n")
        for k, b in res.bad[:5]:
            print("rejected by the specification:", b[:1500])
        print("VIOLATION property=%s replay=%s" % (prop, rep))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": dict(states=res.states, transitions=res.transitions,
                         traces_validated_against_impl=res.traces, samples=res.samples[:6] or ["none"], **res.cov),
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(res.bad),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: %d events of the implementation validated, %d states, %d rejected, %.1f s" %
          (prop, tier, res.traces, res.states, len(res.bad), time.time() - t0))
    return 1 if res.bad else 0


ASSUME = [
    "the driver's projection of big.Float (sign, mantissa, exponent, precision, mode) is faithful",
    "TLC and the BigInteger override of BigNat evaluate the specification correctly (override checked against the TLA+ definitions)",
    "screened-only calls are judged by a Go reference first; only calls it disputes, and the sample, are judged by TLC",
]


def setup():
    work = tempfile.mkdtemp(prefix="vf-setup-")
    try:
        build(work)
        build32(work)
        build(work, "driver-race", True)
        cls = compile_override(work)
        with cf.ThreadPoolExecutor(4) as ex:
            for m, f in [(m, ex.submit(run_model, work, cls, m)) for m in MODELS if not MODELS[m].get("slow")]:
                f.result()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("setup ok")
    return 0


def replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="vf-replay-")
    bad = 0
    try:
        drvs = {}
        cls = compile_override(work)
        for e in d["rejected"].get("call", []):
            for c in ([e["c1"], e["c2"]] if e["op"] == "twice" else [e]):
                p = os.path.join(work, "one.nd")
                with open(p, "w") as f:
                    f.write(json.dumps(c) + "\n")
                o = os.path.join(work, "one.out")
                a = c.get("arch")
                if a not in drvs:
                    drvs[a] = build(work, "driver-%s" % a, arch=a)
                drv = drvs[a]
                r = run_driver(drv, ["-replay", p, "-out", o], 120)
                if r.returncode != 0:
                    print("outcome", r.returncode, json.dumps(c)[:800])
                    bad += 1
                    continue
                _, b, _ = judge_calls(work, cls, o, d["aspects"])
                print("REJECTED" if b else "accepted", open(o).read().strip()[:1500])
                bad += len(b)
        for k in ("hist", "run"):
            for e in d["rejected"].get(k, []):
                print(k, json.dumps(e)[:3000])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0


def main():
    cmd = sys.argv[1]
    try:
        if cmd == "check":
            rc = check(sys.argv[2])
        elif cmd == "setup":
            rc = setup()
        elif cmd == "replay":
            rc = replay(sys.argv[2])
        else:
            raise Error("unknown command " + cmd)
    except Error as e:
        print("ERROR:", e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == "__main__":
    main()
