"""Whole runs of the command line program (C30)."""
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import core, enc, gen
from .common import binary

UNREADABLE = ["missing", "folder", "binary", "below"]
STRIP = ["(", "[a", "*", "(?<=a", "\\", "a{2,1}", "(?P<x", "(?<x>a)\\k<y>"]
# Expressions that give up after too many steps.
HEAVY = ["^.*(?:(a|aa|aaa)+\\1?)+!", "(?=(a+))(a|a)*(a|a)*\\1!", "(a*)*(a*)*\\1!", "(?:(a|a)*)*(?!.)!\\1"]


def named(names, text):
    return [n for n in names if re.search(r"(?<![\w.])" + re.escape(n) + r"(?![\w])", text)]


def a_file(r, i, good):
    """A file for the command line: a usable one if good."""
    n = "f%d%s" % (i, r.choice([".rs", ".rs", "", ".txt", " x.rs", "-ü.rs"]))
    if good:
        # One whose block has a function: its file has rows.
        while True:
            c = core.compare_case(r)
            fs = [f for _, f in c["old"] + c["new"]]
            if fs:
                return {"name": n, "kind": "text", "f": r.choice(fs)}
    if r.random() < 0.5:
        return {"name": n, "kind": r.choice(UNREADABLE), "f": gen.file([])}
    return {"name": n, "kind": "text", "f": core.parse_case(r)["f"]}


def options(r, e):
    """Options of a comparison, with flaws."""
    o = {"--method": r.choice(["base", "guess-worst", "asymptotic", "exact-worst", "Base"])}
    if r.random() < 0.5:
        o["--unit"] = r.choice(["time", "proof", "TIME"])
    if r.random() < 0.4:
        o["--format"] = r.choice(["human", "csv", "markdown"])
    o["--threshold"] = r.choice(["0", "0", "5", "inf", "NaN", "1e400", "-1", "-0"])
    if r.random() < 0.2:
        o["--strip-path-prefix"] = r.choice([".*/", "", "f", "(?=f)f", "(?<!x)f\\d", "\\b"])
    if r.random() < 0.2:
        o["--extrinsic"] = r.choice([".*", "", "x", "(?!a).*", "(?i)A"])
    if r.random() < 0.2:
        o["--pallet"] = r.choice([".*", "", "f", "(?!a).*"])
    for fl in e["flaws"]:
        if fl in ("method", "unit", "change", "threshold", "format"):
            o["--" + fl] = r.choice({"method": ["best", "", "guess", "base "], "unit": ["length", ""], "change": ["all", "addedd"],
                                     "threshold": ["five", "", "5%", "0x5"], "format": ["xml", ""]}[fl])
        elif fl == "unsupported":
            o["--format"] = r.choice(["json", "brief-human"])
        elif fl == "strip":
            o["--strip-path-prefix"] = r.choice(STRIP)
        elif fl == "heavy-strip":
            o["--strip-path-prefix"] = r.choice(HEAVY)
        elif fl in ("palf", "extf"):
            o["--pallet" if fl == "palf" else "--extrinsic"] = r.choice(["(", "[a", "*", "\\"])
        elif fl == "option":
            o[r.choice(["--colour", "--methods", "--json"])] = "x"
    if e["ignore"]:
        o["--ignore-errors"] = None
    for s in ("--print-terms", "--no-color"):
        if r.random() < 0.3:
            o[s] = None
    out = [["%s=%s" % (k, v)] if v is not None and (v.startswith("-") or r.random() < 0.3) else [k] + ([v] if v is not None else []) for k, v in o.items()]
    r.shuffle(out)
    return [x for p in out for x in p]


def write(p, x, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if x["kind"] == "text":
        with open(p, "w") as fh:
            fh.write(text)
    elif x["kind"] == "folder":
        os.makedirs(p)
    elif x["kind"] == "binary":
        with open(p, "wb") as fh:
            fh.write(b"impl WeightInfo { }\xff\xfe\n")


# A name on which the expressions in options() are too expensive.
LONG = "a" * 60
ENV = {"PATH": "/usr/bin:/bin", "GIT_CONFIG_NOSYSTEM": "1", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a",
       "GIT_COMMITTER_EMAIL": "a@x", "GIT_TERMINAL_PROMPT": "0", "RUST_BACKTRACE": "0", "LC_ALL": "C.UTF-8"}


def git(d, *a):
    p = subprocess.run(["git"] + list(a), cwd=d, env=dict(ENV, HOME=d), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise RuntimeError("git %r: %s" % (a, p.stderr))


def one(name, v):
    return gen.file([gen.impl([gen.fn(name, gen.call(["Weight", "from_parts"], gen.lit(v), gen.lit(v)))])])


def compare_event(r, cmd):
    e = {"cmd": cmd, "flaws": [], "ignore": r.random() < 0.4, "files": [], "refs": True, "origin": False, "rows": False}
    if r.random() < 0.6:
        more = ["repo", "norepo", "pattern", "dots"] if cmd == "commits" else []
        words = ["method", "unit", "change", "threshold", "format", "option"]
        e["flaws"] = [r.choice([r.choice(words), r.choice(["unsupported", "palf", "extf"] + more), "strip", "heavy-strip"])]
    return e


def plain(e):
    """Whether the report has to have rows, as everything else about the run is fine."""
    return e["flaws"] in (["strip"], ["heavy-strip"])


def files_case(r, d):
    """compare files: the command line of an event."""
    e = compare_event(r, "files")
    rnd = gen.Render(r)
    if plain(e):
        e["rows"] = True
        fs = [{"name": "o_%s.rs" % LONG, "kind": "text", "f": one("f", 100)}, {"name": "n_%s.rs" % LONG, "kind": "text", "f": one("g", 200)}]
    else:
        fs = [a_file(r, i, r.random() < 0.8) for i in range(r.choice([2, 2, 3, 4, 6]))]
    e["files"] = fs
    paths = []
    for x in fs:
        p = d + "/" + x["name"]
        if x["kind"] == "below":
            with open(p, "w") as fh:
                fh.write("")
            p += "/x.rs"
        else:
            write(p, x, rnd.file(x["f"]))
        paths.append(p)
    k = r.randint(1, len(paths) - 1)
    sides = [["--old"] + paths[:k], ["--new"] + paths[k:]]
    r.shuffle(sides)
    o = rows_options(r, e) if e["rows"] else options(r, e)
    cmd = ["compare", "files"] + o + sides[0] + sides[1]
    x = r.random()
    if x < 0.05:
        e["cmd"], cmd = "usage", ["compare", "files"] + o + r.choice(sides)
    elif x < 0.08 and any(c == "--method" or c.startswith("--method=") for c in cmd):
        e["cmd"] = "usage"
        i = next(i for i, c in enumerate(cmd) if c.startswith("--method"))
        del cmd[i:i + (2 if cmd[i] == "--method" else 1)]
    return e, cmd


def rows_options(r, e):
    o = ["--method", "base", "--format", r.choice(["human", "markdown"]), "--threshold", "0"] + (["--ignore-errors"] if e["ignore"] else [])
    return o + ["--strip-path-prefix=" + r.choice(STRIP if e["flaws"] == ["strip"] else HEAVY)]


def commits_case(r, d, many=0):
    """compare commits in a repository of its own, perhaps with many files."""
    e = compare_event(r, "commits")
    while many and (e["flaws"] or plain(e)):
        e = compare_event(r, "commits")
    rnd = gen.Render(r)
    repo = d + "/repo"
    os.makedirs(repo)
    git(repo, "init", "-q", "-b", r.choice(["master", "main"]))
    trees = []
    for _ in range(2):
        trees.append([a_file(r, i, r.random() < 0.85) for i in range(r.choice([0, 1, 2]))])
    if plain(e):
        trees = [[{"name": LONG, "kind": "text", "f": one("f", 100)}], [{"name": LONG, "kind": "text", "f": one("f", 200)}]]
    for j, t in enumerate(trees):
        shutil.rmtree(repo + "/w", ignore_errors=True)
        os.makedirs(repo + "/w")
        with open(repo + "/w/keep", "w") as fh:
            fh.write(str(j))
        for i, x in enumerate(t):
            if x["kind"] in ("folder", "below", "missing"):
                x["kind"] = "binary"
            x["name"] = "%d%s%s.rs" % (j, "ab"[i], LONG if e["rows"] else "")
            write(repo + "/w/" + x["name"], x, rnd.file(x["f"]))
        git(repo, "add", "-A")
        git(repo, "commit", "-qm", "c")
        git(repo, "branch", "b%d" % j)
    if plain(e):
        e["rows"] = True
    git(repo, "tag", "t0", "b0")
    names = [r.choice(["b0", "t0", "HEAD~1", "b1~"]), r.choice(["b1", "HEAD", "b1"])]
    x = r.random()
    if many:
        names = ["b0", "b1"]
    elif x < 0.12:
        names[r.randint(0, 1)] = r.choice(["nope", "b2", "HEAD~9", "w/keep", "-x", ":", "a b", "", "b0..b1", "\\", "refs/heads/", "@{u}", "b0:w"])
        e["refs"] = False
    pattern = "w/*.rs"
    where = repo
    for fl in e["flaws"]:
        if fl == "pattern":
            pattern = r.choice(["w/***.rs", "w/[", "w/*.rs,***"])
        elif fl == "dots":
            pattern = r.choice(["../w/*.rs", "w/../*", ".."])
        elif fl == "norepo":
            where = d + "/nothing"
        elif fl == "repo":
            where = r.choice([d + "/plain", repo + "/w/keep"])
            os.makedirs(d + "/plain", exist_ok=True)
    e["files"] = trees[0] + trees[1]
    for j in range(2) if many else ():
        git(repo, "checkout", "-q", "b%d" % j)
        x = {"name": "m.rs", "kind": "text", "f": one("f", 100 + j)}
        e["files"].append(x)
        text = rnd.file(x["f"])
        for i in range(many):
            with open(repo + "/w/m%d.rs" % i, "w") as fh:
                fh.write(text)
        git(repo, "add", "-A")
        git(repo, "commit", "-qm", "m")
        git(repo, "checkout", "-q", "--detach")
        git(repo, "branch", "-f", "b%d" % j)
    o = rows_options(r, e) if e["rows"] else options(r, e)
    o += ["--repo", where, "--path-pattern", pattern]
    x = r.random()
    if x < 0.15:
        o += r.choice([["--git-pull"], ["--git-pull", "--git-force"]])
        e["origin"] = True
    elif x < 0.3:
        o += r.choice([["--offline"], ["--offline", "--git-pull"]])
    cmd = ["compare", "commits"] + (o + ["--"] + names if any(n.startswith("-") for n in names) or r.random() < 0.5 else names + o)
    if r.random() < 0.05:
        e["cmd"], cmd = "usage", ["compare", "commits"] + o
    return e, cmd


def parse_case(r, d):
    e = {"cmd": "parse", "flaws": [], "ignore": False, "files": [], "refs": True, "origin": False, "rows": False}
    rnd = gen.Render(r)
    bad = r.random() < 0.4
    k = r.choice([1, 2, 3, 5, 12]) if r.random() < 0.97 else r.choice([150, 999])
    wrong = set(r.sample(range(k), r.choice([1, 1, min(2, k)]))) if bad else ()
    same = one("f", 1)
    e["files"] = [a_file(r, i, i not in wrong) if k < 50 or i in wrong else {"name": "f%d.rs" % i, "kind": "text", "f": same} for i in range(k)]
    paths = []
    for x in e["files"]:
        p = d + "/" + x["name"]
        if x["kind"] == "below":
            with open(p, "w") as fh:
                fh.write("")
            p += "/x.rs"
        else:
            write(p, x, rnd.file(x["f"]))
        paths.append(p)
    if r.random() < 0.2 and not bad and k < 50:
        # A file can be given twice.
        i = r.randrange(k)
        e["files"].append(e["files"][i])
        paths.append(paths[i])
    cmd = ["parse", "files"] + paths
    if r.random() < 0.05:
        e["flaws"], cmd = ["option"], cmd + [r.choice(["--json", "--method=base", "--threshold=5"])]
    return e, cmd


def other_case(r, d):
    e = {"cmd": r.choice(["usage", "info"]), "flaws": [], "ignore": False, "files": [], "refs": True, "origin": False, "rows": False}
    if e["cmd"] == "info":
        return e, r.choice([["--help"], ["-h"], ["--version"], ["-V"], ["help"], ["compare", "--help"], ["compare", "files", "--help"], ["compare", "commits", "-h"],
                            ["parse", "files", "--help"], ["parse", "--help"], ["help", "compare"], ["help", "parse"]])
    return e, r.choice([[], ["compare"], ["parse"], ["compare", "file"], ["frobnicate"], ["compare", "commits"], ["compare", "files"], ["--nope"], [""],
                        ["compare", "commits", "a", "b", "c", "--path-pattern", "x", "--method", "base"], ["parse", "commits"], ["files"], ["ü"]])


def run(chk, d, count):
    r0 = core.rng("C30")
    plans = [(f, r0.getrandbits(64)) for f, share in ((parse_case, 40), (files_case, 60), (commits_case, 40), (other_case, 10)) for _ in range(count * share // 150)]
    plans += [(lambda r, w, k=k: commits_case(r, w, k), r0.getrandbits(64)) for k in (1200, 6500)]

    def execute(i):
        f, seed = plans[i]
        w = "%s/command/%d" % (d, i)
        os.makedirs(w + "/home")
        try:
            r = random.Random(seed)
            e, cmd = f(r, w)
            verbose = r.random() < 0.2 and e["cmd"] in ("parse", "files", "commits")
            if verbose:
                cmd = ["--verbose"] + cmd
            try:
                p = subprocess.run([binary("subweight")] + cmd, cwd=w, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100, env=dict(ENV, HOME=w + "/home"))
                out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
                e["end"] = "ok" if p.returncode == 0 else "panic" if p.returncode < 0 or p.returncode == 101 or "panicked at" in err else "fail"
            except subprocess.TimeoutExpired:
                e["end"], out, err = "hang", "", ""
            log = [l for l in err.splitlines() if re.match(r"\[\d{4}-", l)] if verbose else []
            rest = "\n".join(l for l in err.splitlines() if l not in log)
            if e["cmd"] == "parse":
                e["said"] = [int(x) for x in re.findall(r"(\d+) files?\b", out + "\n".join(log))]
            else:
                e["said"] = []
            e["told"] = bool(rest.strip())
            e["named"] = named(sorted({x["name"] for x in e["files"]}), rest) if e["cmd"] == "parse" else []
            e["info"] = "subweight" in out
            e["op"] = "command"
            e["files"] = [{"name": x["name"], "kind": x["kind"], "f": enc.file(x["f"])} for x in e["files"]]
            return e, cmd, out[:2000], err[:2000]
        finally:
            shutil.rmtree(w, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(execute, range(len(plans))))
    ev = [x[0] for x in res]
    for e in ev:
        chk.count("runs_%s_%s" % (e["cmd"], e["end"]))
    core.validate(chk, ev, d, "command", lambda i: {"cmd": res[i][1], "stdout": res[i][2], "stderr": res[i][3],
                                                   "event": {k: v for k, v in ev[i].items() if k != "files"}}, module="AuxTrace")
    chk.sample({"cmd": res[0][1], "stdout": res[0][2], "stderr": res[0][3]})
