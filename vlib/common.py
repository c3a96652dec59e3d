"""Shared machinery: building /repo, running the driver, running TLC, evidence.

Nothing in here judges a result; the TLA+ modules in ../spec do.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CLAMP = 1000000000


class CheckError(Exception):
    """The check itself could not do its work (never a verdict)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what = what
        self.replay = replay


# --------------------------------------------------------------------- build

WRAPS = ["malloc", "calloc", "realloc", "free",
         "_Z17ell_solve_cgpd_2DP10ell_solverP10ell_matrixiiiPdS3_",
         "_Z21ell_solve_cgpd_structP10ell_solverP10ell_matrixiiiPdS3_"]

VARIANTS = {
    "plain": dict(cxx="g++", flags=["-O1", "-g"], count=True),
    "pattern": dict(cxx="g++", flags=["-O0", "-g", "-ftrivial-auto-var-init=pattern"], count=False),
    "zero": dict(cxx="g++", flags=["-O0", "-g", "-ftrivial-auto-var-init=zero"], count=False),
    "asan": dict(cxx="g++", flags=["-O1", "-g", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"], count=False),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(out, variant="plain", driver="driver"):
    """Compile /repo's current sources and link them with a driver."""
    v = VARIANTS[variant]
    d = os.path.join(out, "obj-" + variant)
    os.makedirs(d, exist_ok=True)
    srcs = sorted(os.path.join(REPO, "src", f) for f in os.listdir(os.path.join(REPO, "src"))
                  if f.endswith(".cpp"))
    inc = ["-I" + os.path.join(REPO, "include")]
    base = [v["cxx"], "-std=gnu++11", "-w"] + v["flags"] + inc
    defs = ["-DCOUNT_ALLOC", "-DCOUNT_SOLVES"] if v["count"] else []
    jobs = []
    objs = []
    for s in srcs:
        o = os.path.join(d, os.path.basename(s) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append(base + ["-c", s, "-o", o])
    drv = os.path.join(d, driver + ".drv.o")
    jobs.append(base + defs + ["-c", os.path.join(HARNESS, driver + ".cpp"), "-o", drv])
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(sh, jobs):
            if r.returncode:
                raise CheckError("compilation failed:\n" + r.stdout[-3000:])
    exe = os.path.join(out, driver + "-" + variant)
    link = [v["cxx"]] + v["flags"] + [drv] + objs
    if v["count"]:
        link += ["-Wl," + ",".join("--wrap=" + w for w in (WRAPS if driver == "driver" else WRAPS[:4]))]
    r = sh(link + ["-o", exe])
    if r.returncode:
        raise CheckError("link failed:\n" + r.stdout[-3000:])
    return exe


# -------------------------------------------------------------------- driver

TIER = "thorough" if "--thorough" in sys.argv or (
    os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv) else "quick"
HANGS = []


JUNK = [None, 0x3f, 0xbf, 0x40, 0x3f]


def run_driver(exe, script, cwd, timeout=300, env=None):
    """Run one script; returns (events, end) where end is None or a description
    of how the process ended abnormally (crash, abort, hang)."""
    os.makedirs(cwd, exist_ok=True)
    # quick checks: scripts take seconds; one that hangs is a violation, and the
    # ones after it are not waited for as long
    if TIER == "quick":
        timeout = min(timeout, 150 if not HANGS else 15)
    e = dict(os.environ)
    e.update(env or {})
    # fresh memory holds nothing in particular
    j = JUNK[int(hashlib.sha1(script.encode()).hexdigest(), 16) % len(JUNK)]
    if j is not None:
        e.setdefault("JUNK", str(j))
    e.setdefault("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1")
    e.setdefault("UBSAN_OPTIONS", "print_stacktrace=0:halt_on_error=1:exitcode=98")
    end = None
    p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, cwd=cwd, env=e, errors="replace")
    try:
        out, err = p.communicate(script, timeout=timeout)
        if p.returncode != 0:
            m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*)", err)
            end = "exit %d%s" % (p.returncode, (" " + m.group(1)) if m else "")
    except subprocess.TimeoutExpired:
        p.kill()
        out, err = p.communicate()
        end = "hang"
        HANGS.append(1)
    ev = []
    for l in out.splitlines():
        try:
            ev.append(json.loads(l))
        except ValueError:
            break
    return ev, end


def num(x):
    """JSON number or the driver's nan/inf spelling."""
    if isinstance(x, str):
        return {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf")}[x]
    return float(x)


def q(x, unit):
    """Quantise a double to an integer number of `unit`s; clamped, NaN -> CLAMP."""
    x = num(x) / unit
    if x != x:
        return CLAMP
    if x >= CLAMP:
        return CLAMP
    if x <= -CLAMP:
        return -CLAMP
    return int(round(x))


def fmt(v):
    return " ".join(repr(float(x)) for x in v)


# ----------------------------------------------------------------------- TLC

class TLCResult:
    pass


def cfgtext(spec, constants=None, invariants=(), properties=(), view=None, post=None, constraint=None):
    t = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if constants:
        t += "CONSTANTS\n"
        for k, v in constants.items():
            t += "  %s %s %s\n" % (k, "<-" if isinstance(v, str) and v[:1].isalpha() and v not in ("TRUE", "FALSE")
                                  else "=", v)
    if invariants:
        t += "INVARIANTS " + " ".join(invariants) + "\n"
    if properties:
        t += "PROPERTIES " + " ".join(properties) + "\n"
    if view:
        t += "VIEW %s\n" % view
    if constraint:
        t += "CONSTRAINT %s\n" % constraint
    if post:
        t += "POSTCONDITION %s\n" % post
    return t


TRACECFG = cfgtext("TSpec", view="TView", post="Accepted")


def tlc(module, work, cfg=None, env=None, args=(), workers=1, timeout=600, heap="3g"):
    """Run TLC on spec/<module>.tla; cfg is the text of a configuration."""
    tag = module
    meta = os.path.join(work, "tlc-%s-%d" % (tag, random.SystemRandom().randrange(10**9)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", os.path.join(meta, module + ".cfg")]
    with open(os.path.join(meta, module + ".cfg"), "w") as f:
        f.write(cfg or TRACECFG)
    cmd += list(args) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           cwd=meta, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult()
    res.rc = r.returncode
    res.out = r.stdout
    res.wall = time.time() - t0
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.findall(r"The number of states generated: (\d+)", r.stdout)
    if m and not res.generated:
        res.generated = res.distinct = int(m[-1])
    m = re.search(r"depth of the complete state graph search is (\d+)", r.stdout)
    res.depth = int(m.group(1)) if m else 0
    return res


def model_check(module, work, cfg=None, **kw):
    """Exhaustively check a model; its failure is an error of the specification."""
    kw.setdefault("workers", 4)
    r = tlc(module, work, cfg, **kw)
    if r.rc != 0:
        raise CheckError("model %s (%s) fails:\n%s" % (module, cfg, r.out[-4000:]))
    return r


def validate(module, work, events, name, cfg=None, timeout=600, heap="3g"):
    """Check a recorded trace against spec/<module>.tla.  Returns a TLCResult with
    .accepted and .index (1-based index of the first event no action explains)."""
    path = os.path.join(work, name + ".ndjson")
    with open(path, "w") as f:
        for e in events:
            f.write(json.dumps(e, separators=(",", ":")) + "\n")
    r = tlc(module, work, cfg, env={"TRACE": path}, timeout=timeout, heap=heap)
    r.path = path
    done = re.search(r"TRACE-POS (\d+) OF (\d+)", r.out)
    if r.rc == 0:
        r.accepted = True
        r.index = None
        if not done or int(done.group(1)) != len(events):
            raise CheckError("trace validation accepted without consuming the trace:\n" + r.out[-2000:])
    elif done and int(done.group(1)) < len(events):
        r.accepted = False
        r.index = int(done.group(1)) + 1
    elif "recorder:" not in r.out and re.search(
            r"TLC threw an unexpected exception|evaluat|Attempted to|In applying the function", r.out) and (
            "OutOfMemory" not in r.out and "StackOverflow" not in r.out) and re.findall(r"\bl = (\d+)", r.out):
        # an event of a shape that no action can even be evaluated on
        r.accepted = False
        r.index = min(len(events), int(re.findall(r"\bl = (\d+)", r.out)[-1]))
    else:
        raise CheckError("TLC failed on trace %s (%s):\n%s" % (name, module, r.out[-4000:]))
    return r


def behaviours(module, work, cfg=None, args=(), timeout=600, workers=1, env=None):
    """Behaviours printed by a generator module as <<"BEH", json>> lines."""
    r = tlc(module, work, cfg, args=args, timeout=timeout, workers=workers, env=env)
    if r.rc != 0:
        raise CheckError("generator %s fails:\n%s" % (module, r.out[-4000:]))
    out = []
    for l in r.out.splitlines():
        if l.startswith('<<"BEH", "'):
            s = l[len('<<"BEH", '):].rstrip()
            s = s[:-2] if s.endswith(">>") else s
            b = json.loads(json.loads(s))
            if b and b[-1].get("op") == "End":
                b.pop()
            out.append(b)
    return out, r


# ------------------------------------------------------------------- verdict

class Check:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        elif "--quick" in sys.argv:
            self.tier = "quick"
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rnd = random.Random("%s-%d" % (prop, self.seed))
        self.t0 = time.time()
        self.work = os.path.join(VERIF, "build", "%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self._n = 0
        self.known = load_known(prop)
        self.known_hit = []

    # -- bookkeeping
    def add_model(self, r, label):
        self.states += r.distinct
        self.transitions += r.generated
        self.notes.setdefault("models", {})[label] = dict(
            distinct=r.distinct, generated=r.generated, depth=r.depth)

    def count(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 4:
            self.samples.append(s)

    def exe(self, variant="plain", driver="driver"):
        return build(self.work, variant, driver)

    def scratch(self):
        self._n += 1
        d = os.path.join(self.work, "run%d" % self._n)
        os.makedirs(d)
        return d

    # -- verdicts
    def replay_file(self, data):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.prop, h))
        with open(p, "w") as f:
            json.dump(data, f, indent=1, default=str)
        return p

    def judge(self, jobs, rerun=None):
        """jobs: list of (module, cfg, events, meta).  Validates all traces in
        parallel.  A rejected trace is recorded again by meta['again'] (the same
        script against the same binary) and only a repeated rejection counts."""
        def one(j):
            k, (module, cfg, events, meta) = j
            return validate(module, self.work, events, "t%d" % k, cfg)
        base = self._n
        self._n += len(jobs)
        with ThreadPoolExecutor(max(1, min(7, len(jobs) or 1))) as ex:
            rs = list(ex.map(one, [(base + i, j) for i, j in enumerate(jobs)]))
        bad = None
        for r, (module, cfg, events, meta) in zip(rs, jobs):
            self.traces += meta.get("traces", 1)
            self.events += len(events)
            self.states += r.distinct
            self.transitions += r.generated
            if not r.accepted and bad is None:
                bad = (r, module, cfg, events, meta)
        if bad:
            r, module, cfg, events, meta = bad
            again = meta.get("again")
            if again:
                ev2 = again()
                self._n += 1
                r2 = validate(module, self.work, ev2, "t%dagain" % self._n, cfg)
                if not r2.accepted:
                    r, events = r2, ev2
                elif events[r.index - 1].get("ev") == "crash":
                    raise CheckError("process failure did not repeat: %s" % events[r.index - 1])
                # otherwise the execution recorded first stays what it is: one
                # the specification does not have
            i = r.index
            raise Violation(
                "%s rejects event %d of the recorded trace: %s" % (
                    module, i, json.dumps(events[i - 1])[:600]),
                self.replay_file(dict(property=self.prop, module=module, cfg=cfg,
                                      rejected_event=i, event=events[i - 1],
                                      script=meta.get("script"), note=meta.get("note"),
                                      trace=events[max(0, i - 60):i])))

    def finish(self, violation=None):
        ev = dict(property=self.prop, tier="quick" if self.quick else "thorough", seed=self.seed,
                  level="model_checking",
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                trace_events=self.events,
                                samples=self.samples or ["none"], **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=1 if violation else 0)
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
            f.write("\n")
        shutil.rmtree(self.work, ignore_errors=True)


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                k = json.loads(l)
                if k.get("property") == prop and k.get("status") == "known":
                    out.append(k)
    return out


def main(prop, fn):
    c = Check(prop)
    try:
        fn(c)
    except Violation as v:
        print("property %s: %s" % (prop, v.what))
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        c.finish(v)
        sys.stdout.flush()
        return 1
    except (KeyError, IndexError, ValueError, TypeError, ZeroDivisionError, OverflowError) as e:
        # what the code produced cannot be read as an execution at all
        traceback.print_exc()
        p = c.replay_file(dict(property=prop, error=traceback.format_exc()))
        print("property %s: the recorded output is not of the known form: %r" % (prop, e))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        c.finish(e)
        sys.stdout.flush()
        return 1
    except Exception as e:
        if isinstance(e, CheckError):
            print("check error: %s" % e)
        else:
            traceback.print_exc()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
        return 2
    for k in c.known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    c.finish()
    print("property %s: held (%s, seed %d): %d model/trace states, %d traces, %d events, %.1f s" % (
        prop, "quick" if c.quick else "thorough", c.seed, c.states, c.traces, c.events, time.time() - c.t0))
    return 0
