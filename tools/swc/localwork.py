"""Comparisons in repositories with uncommitted work (C32)."""
import csv
import hashlib
import io
import json
import os
import re
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import core
from .common import ToolError, binary, tlc

GIT = "/usr/bin/git"
CODE = "impl<T> W for WeightInfo<T> { fn f() -> Weight { Weight::from_parts(%d, 0) } }\n"
NAMES = ["w.rs", "docs/x.rs", "docs/deep/y.rs", "a b.rs", "-n.rs", "frame/é.rs", "notes.txt", "docs/z.txt"]
# Ignored, and never in a commit.
IGNORED = ["target/t.rs", "target/log.txt"]


class Repo:
    def __init__(self, d, r):
        self.d, self.r = d, r
        os.makedirs(d + "/home")
        self.env = {"PATH": "/usr/bin:/bin", "HOME": d + "/home", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C", "RUST_LOG": "off",
                    "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x",
                    "GIT_TERMINAL_PROMPT": "0"}
        self.names = sorted(r.sample(NAMES, r.choice([2, 4, 6, 8]))) + IGNORED
        self.fresh = 100
        self.blobs = {}
        self.remote, self.local = d + "/r.git", d + "/l"
        self.git(d, "init", "-q", "--bare", "-b", "main", self.remote)
        self.sha, self.trees = [], []
        base = [0 if n in IGNORED or r.random() < 0.25 else r.randint(1, 3) for n in self.names]
        for k, (branch, parent) in enumerate([("main", None), ("main", 0), ("dev", 0), ("ahead", 1)]):
            # Most files are the same in most commits.
            t = [v if n in IGNORED or r.random() < 0.6 else r.choice([0, 1, 2, 3, 10 + k]) for n, v in zip(self.names, base)]
            if not any(t):
                t[0] = 1
            self.trees.append(t)
            self.sha.append(self.commit(branch, parent, t, k))
        self.git(d, "clone", "-q", self.remote, self.local)
        # The remote is ahead of the local branch.
        self.git(self.remote, "update-ref", "refs/heads/main", self.sha[3])
        for a in (("branch", "-q", "--no-track", "dev", self.sha[2]), ("branch", "-q", "keep", self.sha[0]), ("tag", "t1", self.sha[0])):
            self.git(self.local, *a)
        self.put(".git/info/exclude", "target/\n")
        self.git(self.local, "config", "user.note", "mine")

    def git(self, cwd, *args, inp=None, ok=True):
        p = subprocess.run([GIT, *args], cwd=cwd, env=self.env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if ok and p.returncode != 0:
            raise ToolError("git %s: %s" % (args, p.stderr))
        return p.stdout.decode()

    def text(self, i, v):
        t = CODE % v if self.names[i].endswith(".rs") else "note %d\n" % v
        b = t.encode()
        self.blobs[hashlib.sha1(b"blob %d\0" % len(b) + b).hexdigest()] = v
        return t

    def commit(self, branch, parent, tree, k):
        inp = [b"commit refs/heads/%s\nmark :1\ncommitter a <a@x> %d +0000\ndata 1\nc\n" % (branch.encode(), 1600000000 + k)]
        if parent is not None:
            inp.append(b"from %s\n" % self.sha[parent].encode())
        inp.append(b"deleteall\n")
        for i, v in enumerate(tree):
            if v:
                t, q = self.text(i, v).encode(), "".join("\\%03o" % b for b in self.names[i].encode()).encode()
                inp.append(b'M 100644 inline "%s"\ndata %d\n%s\n' % (q, len(t), t))
        inp.append(b"get-mark :1\n")
        return self.git(self.remote, "fast-import", "--quiet", "--force", inp=b"".join(inp)).split()[0]

    def put(self, name, text):
        p = os.path.join(self.local, name)
        if text is None:
            if os.path.lexists(p):
                os.unlink(p)
            return
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(text)

    def work(self):
        """What a user does without committing it."""
        r = self.r
        for i, n in enumerate(self.names):
            if r.random() > (0.8 if n in IGNORED else 0.35):
                continue
            self.fresh += 1
            # Mostly new contents, seldom those of a commit.
            v = self.fresh if r.random() < 0.85 else r.randint(1, 3)
            x = r.choice(["edit"] if n in IGNORED else ["edit", "edit", "stage", "both", "delete", "rm", "uncache"])
            if x == "delete":
                self.put(n, None)
            elif x == "rm":
                self.git(self.local, "rm", "-q", "-f", "--ignore-unmatch", "--", n)
            elif x == "uncache":
                self.git(self.local, "rm", "-q", "--cached", "-f", "--ignore-unmatch", "--", n)
            else:
                self.put(n, self.text(i, v))
                if x != "edit":
                    self.git(self.local, "add", "--", n)
                if x == "both":
                    self.fresh += 1
                    self.put(n, self.text(i, self.fresh))

    def state(self):
        idx = {}
        for e in self.git(self.local, "ls-files", "-s", "-z").split("\0"):
            if e:
                meta, n = e.split("\t", 1)
                idx[n] = self.blobs.get(meta.split()[1], 999)
        wt = []
        for i, n in enumerate(self.names):
            try:
                with open(os.path.join(self.local, n), "rb") as fh:
                    b = fh.read()
                wt.append(self.blobs.get(hashlib.sha1(b"blob %d\0" % len(b) + b).hexdigest(), 999))
            except OSError:
                wt.append(0)
        found = set()
        for base, ds, fs in os.walk(self.local):
            ds[:] = [x for x in ds if x != ".git"]
            found |= {os.path.relpath(os.path.join(base, f), self.local) for f in fs}
        extra = sorted((found | set(idx)) - set(self.names))
        return {"idx": [idx.get(n, 0) for n in self.names], "wt": wt}, extra

    def rest(self):
        refs = [x for x in self.git(self.local, "for-each-ref", "--format=%(objectname) %(refname)").splitlines()
                if not x.endswith((" refs/heads/main", " refs/heads/dev")) and " refs/remotes/" not in x]
        with open(self.local + "/.git/config") as fh:
            conf = fh.read()
        with open(self.local + "/.git/info/exclude") as fh:
            conf += fh.read()
        return refs, self.git(self.local, "stash", "list"), conf, sorted(os.listdir(self.local + "/.git/hooks"))

    def side(self, pull, force):
        """A ref, and the commits that are put in place for it."""
        r = self.r
        x = r.random()
        if pull or x < 0.5:
            n = r.choice(["main", "main", "dev"])
            rev = lambda ref: self.sha.index(self.git(self.local, "rev-parse", ref).strip()) + 1
            there = {"main": 4, "dev": 3}[n]
            if pull:
                return n, [there] if force else [rev("refs/heads/" + n), there]
            return n, [rev(("refs/remotes/origin/" if force else "refs/heads/") + n)]
        c = r.randint(1, 3)
        return r.choice([self.sha[c - 1], self.sha[c - 1][:12]] + (["t1"] if c == 1 else [])), [c]

    def step(self, k):
        r = self.r
        where = r.choice(["main", "dev", self.sha[0], self.sha[1], None])
        if where:
            self.git(self.local, "checkout", "-q", "-f", where, "--")
        if r.random() < 0.5:
            self.git(self.local, "reset", "-q", "--hard")
            self.git(self.local, "clean", "-q", "-f", "-d", "-x")
        if r.random() < 0.15:
            self.work()
            self.git(self.local, "stash", "push", "-q")
        self.work()
        pull, force = r.random() < 0.35, r.random() < 0.3
        old, oc = self.side(pull, force)
        new, nc = self.side(pull, force)
        # (Pulling a branch for the old side moves it.)
        if pull and not force and new == old:
            nc = [oc[-1]]
        head = self.sha.index(self.git(self.local, "rev-parse", "HEAD").strip()) + 1
        before, _ = self.state()
        rest = self.rest()
        e = {"trees": self.trees, "head": head, "before": before, "old": oc, "new": nc, "force": force}
        cwd, repo = r.choice([(self.d, self.local), (self.d, "l"), (self.local, ".")])
        if r.random() < 0.3 and not old.startswith("-"):
            cmd = [binary("subweight"), "compare", "commits", old, new, "--repo", repo, "--path-pattern", "**/*.rs", "--method", "base",
                   "--threshold", "0", "--format", "csv", "--no-color"] + ["--git-pull"] * pull + ["--git-force"] * force
            out = subprocess.run(cmd, cwd=cwd, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
            ok, why = out.returncode == 0, out.stderr.decode(errors="replace")[-500:]
            num = lambda s: int(s[:-2]) if re.fullmatch(r"\d+ps", s) else 0 if s == "" else 998
            rows = [(x[0], x[1], num(x[2]), num(x[3])) for x in list(csv.reader(io.StringIO(out.stdout.decode())))[1:] if x] if ok else []
        else:
            op = {"op": "commits", "repo": repo, "old_ref": old, "new_ref": new, "path_pattern": "**/*.rs", "max_files": 50, "method": "base",
                  "unit": "time", "ignore_errors": False, "git_pull": pull, "git_force": force, "offline": False}
            with open(self.d + "/in", "w") as fh:
                fh.write(json.dumps(op) + "\n")
            out = subprocess.run([binary("swc-driver"), self.d + "/in", self.d + "/out"], cwd=cwd, env=self.env, stdout=subprocess.PIPE,
                                 stderr=subprocess.PIPE, timeout=120)
            if out.returncode != 0:
                raise ToolError("driver: %s" % out.stderr[-500:])
            with open(self.d + "/out") as fh:
                x = json.loads(fh.read())
            ok, why = "ok" in x, str(x)[:500]
            rows = [(y["file"], y["name"], int(y.get("old_v") or 0), int(y.get("new_v") or 0)) for y in x["ok"]["diff"]] if ok else []
        after, extra = self.state()
        seen = {f: (o, n) for f, _, o, n in rows}
        known = {n for n in self.names if n.endswith(".rs")}
        e.update(after=after, ok=ok, seen=[n.endswith(".rs") for n in self.names],
                 old_v=[seen.get(n, (0, 0))[0] for n in self.names], new_v=[seen.get(n, (0, 0))[1] for n in self.names],
                 same=self.rest() == rest and not extra and len(seen) == len(rows) and set(seen) <= known)
        return e, {"old": old, "new": new, "pull": pull, "files": self.names, "why": why, "extra": extra}


def model(chk, d, deep):
    cfg = """SPECIFICATION Spec
CONSTANTS Fs = {1, 2}
 Contents = {0, 1%s}
 Work = {9}
 Depth = 2
INVARIANT Safe
VIEW View
CHECK_DEADLOCK FALSE
""" % (", 2" if deep else "")
    res = tlc("LocalWorkMC", cfg, d)
    if res.violated:
        raise ToolError("the specification of uncommitted work is inconsistent:\n" + res.out[-3000:])
    chk.add_tlc(res)
    chk.count("model_states", res.distinct)


def run(chk, d, count):
    per = 5

    def world(i):
        os.makedirs("%s/lw%d" % (d, i))
        w = Repo("%s/lw%d" % (d, i), core.rng("localwork/%s/%d" % (chk.prop, i)))
        return [w.step(k) for k in range(per)]
    with ThreadPoolExecutor(8) as ex:
        outs = [x for xs in ex.map(world, range(count)) for x in xs]
    core.validate(chk, [e for e, _ in outs], d, "localwork", lambda i: {**outs[i][0], **outs[i][1]}, module="LocalWorkTrace")
    for e, _ in outs:
        chk.count("comparisons" if e["ok"] else "refused")
        chk.count("uncommitted_files", sum(1 for h, i, w in zip(e["trees"][e["head"] - 1], e["before"]["idx"], e["before"]["wt"]) if (i, w) != (h, h)))
    chk.sample({"event": outs[0][0], **outs[0][1]})
