"""Comparisons of commits (C18, C20): histories of spec/GitMC.tla in real repositories."""
import csv
import io
import json
import os
import random
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import core
from .common import SEED, ToolError, binary, log, tlc, write_trace

GIT = "/usr/bin/git"
WRAPPER = """#!/bin/bash
# Stands in for git during a comparison: counts the calls and makes one of them fail.
d=%(dir)s
echo x >> $d/calls
n=$(wc -l < $d/calls)
read -r kind at < $d/fault
if [ "$n" = "$at" ]; then
  case $kind in
  pre) echo fired > $d/fired; echo "fatal: injected" >&2; exit 128;;
  post) echo fired > $d/fired; %(git)s "$@" >/dev/null 2>&1; echo "fatal: injected" >&2; exit 128;;
  kill) echo fired > $d/fired; kill -9 $PPID; exit 128;;
  esac
fi
exec %(git)s "$@"
"""
UPLOAD = """#!/bin/bash
# The remote's side of a fetch.
echo x >> %(dir)s/contact
if [ -e %(dir)s/unreachable ]; then echo "fatal: injected" >&2; exit 128; fi
exec %(git)s upload-pack "$@"
"""
FILES = {
    "w.rs": "impl<T> W for WeightInfo<T> { fn f() -> Weight { Weight::from_parts(%d, 0) } }\n",
    "docs/x.rs": "impl<T> W for WeightInfo<T> { fn g() -> Weight { Weight::from_parts(%d, 0) } }\n",
}
BAD_REFS = ["--detach", "-f", "main:main", "dev:main", "+main:refs/heads/dev", "a:b", ":dev", "--all", "-q", "--orphan=x", "-bx",
            "--upload-pack=true", "main:refs/heads/new"]
UNKNOWN_REFS = ["nope", "main/", "/main", "main.lock", "docs/x.rs", "", "refs", "main^9", "no/such", "0123456789abcdef0123456789abcdef01234567", "w", " ", "*", "+dev"]
PATTERNS = ["**/*.rs", "w.rs,docs/*.rs", "*.rs,*/*.rs", "*/x.rs,w*", "**/*.rs,w.rs"]


class Stuck(Exception):
    """The repository is not in a state in which the history can go on."""


class World:
    """A remote and a local repository in a folder."""

    def __init__(self, d):
        self.d = d
        os.makedirs(d + "/bin")
        os.makedirs(d + "/home")
        self.env = {"PATH": "/usr/bin:/bin", "HOME": d + "/home", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C",
                    "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x",
                    "GIT_TERMINAL_PROMPT": "0", "RUST_LOG": "off"}
        for name, text in (("git", WRAPPER), ("upload", UPLOAD)):
            p = d + "/bin/" + name
            with open(p, "w") as fh:
                fh.write(text % {"dir": d, "git": GIT})
            os.chmod(p, 0o755)
        self.write("fault", "none 0\n")
        self.remote, self.local = d + "/r.git", d + "/l"
        self.sha, self.par, self.rh, self.rt = [None], [], {}, {}
        self.git(None, "init", "-q", "--bare", "-b", "main", self.remote)
        self.git(self.remote, "config", "gc.auto", "0")
        for _ in range(2):
            self.commit(self.remote, "main", len(self.par))
        self.rh["main"] = 2
        self.git(None, "clone", "-q", self.remote, self.local)
        for k, v in (("remote.origin.uploadpack", d + "/bin/upload"), ("advice.detachedHead", "false"), ("gc.auto", "0"),
                     ("maintenance.auto", "false")):
            self.git(self.local, "config", k, v)

    def write(self, name, text):
        with open(os.path.join(self.d, name), "w") as fh:
            fh.write(text)

    def git(self, cwd, *args, inp=None, ok=True):
        r = subprocess.run([GIT, *args], cwd=cwd or self.d, env=self.env, input=inp, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        if ok and r.returncode != 0:
            raise Stuck("git %s: %s" % (args, r.stderr))
        return r.stdout

    def commit(self, repo, branch, parent):
        """A new commit as child of another one, and the branch moved to it."""
        c = len(self.par) + 1
        inp = ["commit refs/heads/%s\nmark :1\ncommitter a <a@x> %d +0000\ndata 1\nc\n" % (branch, 1600000000 + c)]
        if parent:
            inp.append("from %s\n" % self.sha[parent])
        inp.append("deleteall\n")
        fs = {"w.rs": FILES["w.rs"] % c, "docs/y.txt": "-"}
        if c % 4 == 3:
            fs["docs/x.rs"] = "impl<T> W for WeightInfo<T> { fn g() -> Weight { Weight::from_parts(\n"
        elif c % 2 == 0:
            fs["docs/x.rs"] = FILES["docs/x.rs"] % c
        for n, t in fs.items():
            inp.append("M 100644 inline %s\ndata %d\n%s\n" % (n, len(t), t))
        inp.append("\nget-mark :1\n")
        out = self.git(repo, "-c", "fastimport.unpackLimit=1000", "fast-import", "--quiet", "--force", inp="".join(inp))
        self.sha.append(out.split()[0])
        self.par.append(parent)
        return c

    def id(self, sha):
        return self.sha.index(sha) if sha in self.sha else 99

    # -- the state of the local repository
    def state(self):
        st = {"heads": [], "tags": [], "track": [], "known": [], "fetched": 0}
        where = {"refs/heads/": "heads", "refs/tags/": "tags", "refs/remotes/origin/": "track"}
        for line in self.git(self.local, "for-each-ref", "--format=%(objectname) %(refname)").splitlines():
            sha, ref = line.split(" ", 1)
            for k, v in where.items():
                if ref.startswith(k) and ref != "refs/remotes/origin/HEAD":
                    st[v].append([ref[len(k):], self.id(sha)])
                    break
            else:
                if ref != "refs/remotes/origin/HEAD":
                    st["heads"].append(["odd " + ref, self.id(sha)])
        sym = self.git(self.local, "symbolic-ref", "-q", "HEAD", ok=False).strip()
        if sym:
            b = sym[len("refs/heads/"):]
            st["head"] = {"k": "sym", "b": b, "c": 0}
            head = dict(map(tuple, st["heads"])).get(b, 99)
        else:
            head = self.id(self.git(self.local, "rev-parse", "HEAD", ok=False).strip())
            st["head"] = {"k": "det", "b": "", "c": head}
        out = self.git(self.local, "cat-file", "--batch-check", inp="\n".join(self.sha[1:]) + "\n").splitlines()
        st["known"] = [i + 1 for i, x in enumerate(out) if " commit " in x]
        st["tree"] = self.tree()
        if st["tree"] == head and self.git(self.local, "status", "--porcelain").strip():
            st["tree"] = 0
        return st

    def tree(self):
        """The commit whose files are in the working tree, 0 if they are of no commit."""
        fs = {}
        for n in FILES:
            try:
                with open(os.path.join(self.local, n)) as fh:
                    fs[n] = fh.read()
            except OSError:
                pass
        m = re.search(r"from_parts\((\d+), 0\)", fs.get("w.rs", ""))
        if not m:
            return 0
        c = int(m.group(1))
        want = {"w.rs": FILES["w.rs"] % c}
        if c % 2 == 0:
            want["docs/x.rs"] = FILES["docs/x.rs"] % c
        elif c % 4 == 3:
            want["docs/x.rs"] = fs.get("docs/x.rs")
        return c if fs == want else 0

    # -- what happens besides comparisons
    def env_step(self, e):
        op, b, c = e["op"], e["b"], e["c"]
        if op == "rcommit":
            self.rh[b] = self.commit(self.remote, b, self.rh[b])
        elif op in ("rbranch", "rforce"):
            self.git(self.remote, "update-ref", "refs/heads/" + b, self.sha[c])
            self.rh[b] = c
        elif op == "rdelete":
            self.git(self.remote, "update-ref", "-d", "refs/heads/" + b)
            del self.rh[b]
        elif op == "rtag":
            self.git(self.remote, "update-ref", "refs/tags/" + b, self.sha[c])
            self.rt[b] = c
        elif op == "lcommit":
            at = self.git(self.local, "symbolic-ref", "-q", "HEAD", ok=False).strip() == "refs/heads/" + b
            old = self.id(self.git(self.local, "rev-parse", "refs/heads/" + b).strip())
            self.commit(self.local, b, old)
            if at:
                self.git(self.local, "reset", "-q", "--hard")
        elif op == "lbranch":
            self.git(self.local, "branch", "--no-track", b, self.sha[c])
        elif op == "ltag":
            self.git(self.local, "tag", b, self.sha[c])
        elif op == "lcheckout":
            self.git(self.local, "checkout", "-q", b, "--")
        elif op == "ldetach":
            self.git(self.local, "checkout", "-q", "--detach", self.sha[c], "--")
        elif op == "ufetch":
            self.git(self.local, "fetch", "-q", "origin")
        else:
            raise ToolError("operation " + op)

    def enabled(self, e, st):
        op, b, c = e["op"], e["b"], e["c"]
        if c > len(self.par):
            return False
        remote = self.reachable()
        heads, tags = dict(map(tuple, st["heads"])), dict(map(tuple, st["tags"]))
        return {"rcommit": b in self.rh, "rbranch": b not in self.rh and c in remote,
                "rforce": b in self.rh and c in remote and self.rh.get(b) != c,
                "rdelete": b in self.rh and b != "main", "rtag": b not in self.rt and c in remote,
                "lcommit": b in heads, "lbranch": b not in heads and c in st["known"],
                "ltag": b not in tags and c in st["known"],
                "lcheckout": b in heads and st["head"]["b"] != b,
                "ldetach": c in st["known"] and st["head"] != {"k": "det", "b": "", "c": c},
                "ufetch": True}[op]

    def reachable(self):
        seen = set()
        for c in list(self.rh.values()) + list(self.rt.values()):
            while c:
                seen.add(c)
                c = self.par[c - 1]
        return seen

    # -- comparisons
    def ref(self, r, rnd):
        if r["k"] == "name":
            return r["n"]
        if r["k"] == "hash":
            return self.sha[r["c"]]
        if r["k"] == "short":
            return self.sha[r["c"]][:rnd.choice([8, 10, 12, 20])]
        if r["k"] == "head":
            k = r["c"]
            forms = ["HEAD~%d" % k, "HEAD" + "^" * k, "@~%d" % k] if k else ["HEAD"]
            return rnd.choice(forms)
        return rnd.choice(BAD_REFS if r["k"] == "bad" else UNKNOWN_REFS)

    def compare(self, e, rnd):
        """Runs a comparison; returns the event without the state."""
        p, old, new = e["p"], self.ref(e["old"], rnd), self.ref(e["new"], rnd)
        for n in ("calls", "contact"):
            self.write(n, "")
        for n in ("fired", "unreachable"):
            if os.path.exists(self.d + "/" + n):
                os.unlink(self.d + "/" + n)
        fault, lock = e["fault"], self.local + "/.git/index.lock"
        self.write("fault", "%s %d\n" % (fault, e["at"]))
        env = dict(self.env, PATH=self.d + "/bin:/usr/bin:/bin")
        if fault == "lock":
            open(lock, "w").close()
        elif fault == "remote":
            self.write("unreachable", "")
        elif fault == "nogit":
            env["PATH"] = self.d + "/home"
        cwd, repo = rnd.choice([(self.d, self.local), (self.d, "l"), (self.local, "."), (self.d, self.local + "/")])
        pattern = rnd.choice(PATTERNS)
        safe = not any(x.startswith("-") or x == "" for x in (old, new))
        alive = True
        if safe and rnd.random() < 0.25:
            cmd = [binary("subweight"), "compare", "commits", old, new, "--repo", repo, "--path-pattern", pattern, "--method", "base",
                   "--threshold", "0", "--format", "csv", "--no-color"]
            cmd += [f for k, f in (("pull", "--git-pull"), ("force", "--git-force"), ("offline", "--offline"),
                                   ("ignore", "--ignore-errors")) if p[k]]
            out = self.run(cmd, cwd, env)
            if out is None:
                res, why = [99, 99], "no answer"
            elif out.returncode != 0:
                res, why = [0, 0], out.stderr.decode(errors="replace")[-300:]
                alive = out.returncode > 0 and "panicked" not in why
            else:
                res, why = self.pair(self.csv_rows(out.stdout.decode())), out.stdout.decode()[-600:]
        else:
            op = {"op": "commits", "repo": repo, "old_ref": old, "new_ref": new, "path_pattern": pattern, "max_files": 50,
                  "method": "base", "unit": "time", "ignore_errors": p["ignore"], "git_pull": p["pull"], "git_force": p["force"],
                  "offline": p["offline"]}
            inp, outp = self.d + "/op.in", self.d + "/op.out"
            self.write("op.in", json.dumps(op) + "\n")
            if os.path.exists(outp):
                os.unlink(outp)
            cmd = [binary("swc-driver"), inp, outp]
            out = self.run(cmd, cwd, env)
            x = {}
            if os.path.exists(outp):
                with open(outp) as fh:
                    t = fh.read()
                    x = json.loads(t) if t.endswith("\n") else {}
            why = json.dumps(x)[:600]
            if "ok" in x:
                res = self.pair([(y["file"], y["name"], y.get("old_v"), y.get("new_v")) for y in x["ok"]["diff"]])
            else:
                res, alive = [0, 0], "err" in x
                if out is None or out.returncode == 3:
                    raise ToolError("driver: " + str(out))
        fired = fault in ("lock", "remote", "nogit") or os.path.exists(self.d + "/fired")
        if fault == "lock" and os.path.exists(lock):
            os.unlink(lock)
        if fault == "remote":
            os.unlink(self.d + "/unreachable")
        if not fired:
            fault = "none"
        with open(self.d + "/contact") as fh:
            contact = len(fh.read().splitlines())
        return {"t": "compare", "old": e["old"], "new": e["new"], "p": p, "fault": fault, "res": res, "contact": contact,
                "alive": alive, "refs": [old, new], "cmd": " ".join(cmd[:3]), "why": why, "at": e["at"]}

    def run(self, cmd, cwd, env):
        try:
            return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                                  start_new_session=True)
        except subprocess.TimeoutExpired:
            return None

    def csv_rows(self, text):
        lines = [x for x in csv.reader(io.StringIO(text)) if x]
        num = lambda s: None if s == "" else re.sub(r"ps$", "", s.strip())
        return [(x[0], x[1], num(x[2]), num(x[3])) for x in lines[1:]]

    def pair(self, rows):
        """The commits that these rows compare, [99, 99] if they are of no two commits."""
        val = {(f, n): (o, w) for f, n, o, w in rows}
        if len(val) != len(rows) or ("w.rs", "f") not in val:
            return [99, 99]
        try:
            o, n = (int(x) for x in val[("w.rs", "f")])
        except (TypeError, ValueError):
            return [99, 99]
        even = lambda c: str(c) if c % 2 == 0 else None
        want = {("w.rs", "f"): (str(o), str(n))}
        if o % 2 == 0 or n % 2 == 0:
            want[("docs/x.rs", "g")] = (even(o), even(n))
        return [o, n] if val == want else [99, 99]


def histories(chk, d, count, faults, seed, length=10):
    """Random histories of the specification."""
    kinds = '{"pre", "post", "kill", "lock", "remote", "nogit"}' if faults else "{}"
    cfg = """SPECIFICATION SimSpec
CONSTANTS Branches = {"main", "dev", "feat/x", "docs"}
 TagNames = {"v1", "w.rs"}
 MaxCommits = 8
 MaxLen = %d
 MaxHead = 2
 Record = TRUE
 FaultKinds = %s
 Ignores = {TRUE, FALSE}
INVARIANTS StepsOk Consistent
CHECK_DEADLOCK FALSE
""" % (length, kinds)
    res = tlc("GitMC", cfg, d, workers=1, name="GitSim", extra=("-simulate", "num=%d" % count, "-depth", str(length + 4), "-seed", str(seed)))
    if res.violated:
        raise ToolError("the specification of git is inconsistent:\n" + res.out[-3000:])
    hs = [json.loads(json.loads(x)[2:]) for x in res.out.splitlines() if x.startswith('"@@')]
    if len(hs) < count:
        raise ToolError("%d histories instead of %d" % (len(hs), count))
    return hs


def model(chk, d, commits, deep):
    """All histories of small repositories."""
    base = """SPECIFICATION Spec
CONSTANTS Branches = {"main", "dev"}
 TagNames = {"v1"}
 MaxCommits = %d
 MaxLen = 0
 MaxHead = 1
 Record = FALSE
 FaultKinds = %s
 Ignores = {TRUE}
INVARIANTS StepsOk Consistent
VIEW View
CHECK_DEADLOCK FALSE
%s"""
    for faults, text in (("{}", base % (commits, "{}", "" if deep else "CONSTRAINT Short\n")),
                         ('{"any"}', base % (commits, '{"any"}', "CONSTRAINT Short%s\n" % ("" if deep else "er")))):
        res = tlc("GitMC", text, d, timeout=880 if not deep else 3600, name="GitMC" + ("f" if faults != "{}" else ""))
        if res.violated:
            raise ToolError("the specification of git is inconsistent:\n" + res.out[-3000:])
        chk.add_tlc(res)
        chk.count("model_states", res.distinct)


def replay(h, d, seed):
    """Replays a history; returns its events."""
    rnd = random.Random(seed)
    w = World(d)
    st = w.state()
    events = [{"t": "start", "s": st}]
    try:
        for e in h:
            if e["t"] == "env":
                if not w.enabled(e["e"], st):
                    continue
                w.env_step(e["e"])
                st = w.state()
                events.append({"t": "env", "e": e["e"], "s": st})
            else:
                if any(r["k"] in ("hash", "short") and r["c"] > len(w.par) for r in (e["old"], e["new"])):
                    continue
                x = w.compare(e, rnd)
                st = w.state()
                x["s"] = st
                events.append(x)
    except Stuck as x:
        return events, str(x)
    return events, None


def run(faults):
    def go(chk, d, count):
        hs = histories(chk, d, count, faults, SEED + (1000 if faults else 0))
        os.makedirs(d + "/worlds")
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(lambda i: replay(hs[i], d + "/worlds/%d" % i, SEED * 100003 + i), range(len(hs))))
        events, stuck = [], []
        for i, (es, why) in enumerate(outs):
            if why:
                stuck.append((i, why))
            events += es
            chk.count("comparisons", sum(1 for e in es if e["t"] == "compare"))
            chk.count("successful", sum(1 for e in es if e["t"] == "compare" and e["res"] != [0, 0]))
            chk.count("with_fault", sum(1 for e in es if e["t"] == "compare" and e["fault"] != "none"))
            chk.count("changes", sum(1 for e in es if e["t"] == "env"))
        validate(chk, events, d)
        chk.traces += len(outs)
        chk.sample([{k: v for k, v in e.items() if k != "s"} for e in outs[0][0]])
        if stuck and not chk.violations:
            raise ToolError("%d histories could not be replayed: %s" % (len(stuck), stuck[0]))
    return go


def validate(chk, events, d):
    path = os.path.join(d, "git.ndjson")
    write_trace(events, path)
    cfg = 'SPECIFICATION Spec\nCONSTANT Checks = {"%s"}\nINVARIANT Accepted\n' % chk.prop
    res = tlc("GitTrace", cfg, d, env={"TRACE": path})
    chk.add_tlc(res)
    if res.violated:
        i = int(res.last("at")) - 1
        s = max(j for j in range(i + 1) if events[j]["t"] == "start")
        if res.violated != "Accepted":
            i = int(res.last("l")) - 1
            raise ToolError("event %d is not understood: %s" % (i + 1, json.dumps(events[s:i + 1])[-3000:]))
        e = events[i]
        chk.violate("comparing %s with %s (%s, fault %s %s): %s" % (*e["refs"], e["p"], e["fault"], e["at"], e["why"]), events[s:i + 1])
