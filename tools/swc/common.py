"""Building, running the code under test, running TLC, evidence."""
import contextlib
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, ".build")
TARGET = os.path.join(BUILD, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"


class ToolError(Exception):
    """Something other than the code under test went wrong."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.80.0", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, CARGO_TERM_COLOR="never",
             CARGO_PROFILE_DEV_DEBUG="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_INCREMENTAL="0")
    return e


def source_stamp():
    h = hashlib.sha256()
    roots = [REPO, os.path.join(VERIF, "driver")]
    for root in roots:
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules", ".build"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.islink(p) or not os.path.isfile(p):
                    continue
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    # (Part of the version that the programs tell.)
    h.update(subprocess.run(["git", "describe", "--always"], cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL).stdout)
    return h.hexdigest()


def _cargo(args, cwd):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    if r.returncode != 0:
        raise ToolError("cargo %s failed:\n%s" % (" ".join(args), r.stdout[-4000:]))


def build(what=("driver",)):
    """Builds the code under test from /repo's working tree. what: driver, cli, web."""
    os.makedirs(BUILD, exist_ok=True)
    stamp_file = os.path.join(BUILD, "stamp.json")
    try:
        with open(stamp_file) as fh:
            stamp = json.load(fh)
    except (OSError, ValueError):
        stamp = {}
    now = source_stamp()
    if stamp.get("stamp") != now:
        # Do not trust modification times: throw away what was built from the old sources.
        for pkg, cwd in (("subweight-core", REPO), ("subweight", REPO), ("subweight-web", REPO),
                         ("swc-driver", os.path.join(VERIF, "driver")),
                         ("subweight-core", os.path.join(VERIF, "driver"))):
            subprocess.run(["cargo", "clean", "--offline", "-p", pkg], cwd=cwd, env=cargo_env(),
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        stamp = {"stamp": now, "done": []}
        with open(stamp_file, "w") as fh:
            json.dump(stamp, fh)
    t = time.time()
    for w in what:
        if w in stamp["done"]:
            continue
        if w == "driver":
            _cargo(["build", "--offline", "--locked"], os.path.join(VERIF, "driver"))
        elif w == "cli":
            _cargo(["build", "--offline", "--locked", "-p", "subweight"], REPO)
        elif w == "web":
            _cargo(["build", "--offline", "--locked", "-p", "subweight-web"], REPO)
        stamp["done"].append(w)
        with open(stamp_file, "w") as fh:
            json.dump(stamp, fh)
    log("build: %.1fs" % (time.time() - t))


def binary(name):
    return os.path.join(TARGET, "debug", name)


@contextlib.contextmanager
def scratch(prefix="swc-"):
    d = tempfile.mkdtemp(prefix=prefix)
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def drive(ops, d, timeout=600, env=None, name="driver"):
    """Runs the driver on operations; returns their observations."""
    inp, out = os.path.join(d, name + ".in"), os.path.join(d, name + ".out")
    with open(inp, "w") as fh:
        for o in ops:
            fh.write(json.dumps(o) + "\n")
    e = dict(os.environ)
    e["RUST_LOG"] = "off"
    e.update(env or {})
    if os.path.exists(out):
        os.unlink(out)
    try:
        r = subprocess.run([binary("swc-driver"), inp, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout, env=e, cwd=d)
    except subprocess.TimeoutExpired:
        r = None
    res = []
    if os.path.exists(out):
        with open(out) as fh:
            for line in fh:
                if line.endswith("\n"):
                    res.append(json.loads(line))
    if r is not None and r.returncode == 3:
        raise ToolError("driver: " + r.stderr.decode(errors="replace")[-2000:])
    if len(res) < len(ops):
        # The process died (or hung) on an operation: that is an observation like a panic.
        why = "no answer" if r is None else "process ended with status %d" % r.returncode
        res.append({"panic": why})
        rest = ops[len(res):]
        if rest:
            res += drive(rest, d, timeout, env, name)
    return res


class TlcResult:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out or \
            ("Progress" in out and rc == 0)
        m = re.findall(r"Invariant (\w+) is violated", out)
        self.violated = m[0] if m else None
        if not m and re.search(r"Error: Deadlock reached", out):
            self.violated = "Deadlock"
        if re.search(r"Temporal propert(y|ies) .*violated|Action property (\w+) .*violated", out):
            self.violated = self.violated or "property"

    def last(self, var):
        m = re.findall(r"^/\\ %s = (.*)$" % re.escape(var), self.out, re.M)
        return m[-1] if m else None


def tlc(module, cfg, d, env=None, workers=8, timeout=800, heap="6g", extra=(), name=None):
    """Runs TLC on /verif/spec/<module>.tla with the given configuration text."""
    name = name or module
    cfgp = os.path.join(d, name + ".cfg")
    with open(cfgp, "w") as fh:
        fh.write(cfg)
    meta = tempfile.mkdtemp(prefix="tlcmeta-", dir=d)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", JARS,
           "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers), "-config", cfgp,
           *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + name)
    shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult(r.stdout.decode(errors="replace"), r.returncode, time.time() - t)
    if not res.ok and not res.violated:
        raise ToolError("TLC failed on %s (status %d):\n%s" % (name, res.rc, tail(res.out)))
    return res


def tail(s, n=3500):
    s = "\n".join(x for x in s.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting")))
    return s[-n:]


def write_trace(events, path):
    with open(path, "w") as fh:
        for e in events:
            fh.write(json.dumps(e, separators=(",", ":")) + "\n")


def known(prop, what):
    """Whether known-findings.txt lists this finding."""
    with open(os.path.join(VERIF, "known-findings.txt")) as fh:
        return "known: property=%s %s" % (prop, what) in fh.read().splitlines()


class Check:
    """Bookkeeping of one check: what was explored and what was violated."""

    def __init__(self, prop):
        self.prop, self.t0 = prop, time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.details = [], [], {}
        self.assumptions, self.known = [], []
        for p in glob.glob(os.path.join(EVIDENCE, "replay", prop + "-*.json")):
            os.unlink(p)

    def count(self, key, n=1):
        self.details[key] = self.details.get(key, 0) + n

    def sample(self, s):
        if len(self.samples) < 5:
            s = json.dumps(s) if not isinstance(s, str) else s
            self.samples.append(s[:1500])

    def add_tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def violate(self, what, replay):
        """Records a violation; replay is a JSON-able description of the failing case."""
        os.makedirs(os.path.join(EVIDENCE, "replay"), exist_ok=True)
        p = os.path.join(EVIDENCE, "replay", "%s-%d.json" % (self.prop, len(self.violations) + 1))
        with open(p, "w") as fh:
            json.dump({"property": self.prop, "what": what, "case": replay}, fh, indent=1)
        self.violations.append((what, p))

    def finish(self):
        os.makedirs(EVIDENCE, exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"]}
        cov.update(self.details)
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(EVIDENCE, self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, p in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, p))
            print("  " + what[:1000])
        print("%s: %s (%d traces, %d states, %.0fs)" % (
            self.prop, "violated" if self.violations else "held", self.traces, self.states, time.time() - self.t0))
        return 1 if self.violations else 0
