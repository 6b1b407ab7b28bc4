"""The web service (C21 to C23, C25): histories of spec/ServiceSim.tla on the real service."""
import html
import html.parser
import http.client
import json
import math
import os
import random
import re
import signal
import socket
import struct
import subprocess
import threading
import time
import urllib.parse
import zlib
from concurrent.futures import ThreadPoolExecutor

from .common import known, REPO, SEED, ToolError, binary, log, tlc, write_trace

GIT = "/usr/bin/git"
WRAPPER = """#!/bin/bash
# Stands in for git below the web service: records the calls, delays them, makes one of them fail.
unset LD_PRELOAD
d=%(dir)s
s=$'\\x1f'
line="$EPOCHREALTIME$s$PWD"
for a in "$@"; do line="$line$s${a//[$'\\n']/ }"; done
printf '%%s\\n' "$line" >> $d/calls
read -r kind at < $d/fault
if [ "$kind" != none ]; then
  n=$(wc -l < $d/calls)
  if [ "$n" = "$at" ]; then
    echo fired > $d/fired
    case $kind in
    pre) echo "fatal: injected" >&2; exit 128;;
    noise) printf 'fatal: \\xff\\xfe <b>\\x80\\n' >&2; exit 128;;
    post) %(git)s "$@" >/dev/null 2>&1; echo "fatal: injected" >&2; exit 128;;
    esac
  fi
fi
if [ -e $d/slow ]; then
  case $1 in reset|checkout|fetch) %(git)s "$@"; rc=$?; sleep 0.0$((RANDOM %% 4)); exit $rc;; esac
fi
exec %(git)s "$@"
"""
HELPER = """#!/bin/bash
# git's way to the remotes.
echo x >> %(dir)s/contact
if [ -e %(dir)s/unreachable ]; then echo "fatal: unable to access" >&2; exit 128; fi
while read -r line; do
  case "$line" in
  capabilities) printf 'connect\\n\\n';;
  "connect git-upload-pack") printf '\\n'; exec %(git)s upload-pack %(dir)s/remotes/"${2##*/}".git;;
  *) exit 1;;
  esac
done
"""
INITIAL = {"main": 2, "dev": 1, "b1": 2, "b2": 1, "b3": 2, "b4": 2}
TRICKY = {"uml": "größe/ü", "odd1": "fix-#5/'q\"&amp;<b>;|$x", "odd2": "1.0+a%20b=(c),!d@e"}       # names that TLC does not print
BAD_REFS = {"option": ["--detach", "-f", "--all", "-q", "--orphan=x", "-bx", "--upload-pack=true"],
            "refspec": ["main:main", "+main:refs/heads/b9", "a:b", ":dev", "main:refs/heads/new"],
            "unknown": ["nope", "main/", "/main", "origin/main/", "main//", "main.lock", "docs/x.rs", "no/such", "main^9", "", "  ", "+dev", "x*", "\xff", "<b>&", "é",
                        "0123456789abcdef0123456789abcdef01234567"],
            "nul": ["ma\0in", "\0"]}


def base(k, c):
    return 1000 * k + 137 * c


def contents(k, c):
    b = base(k, c)
    fn = ("impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {\n%s\tfn %s(%s) -> Weight {\n\t\tWeight::from_parts(%d, %d)\n%s\t}\n}\n")
    rng = "\t/// The range of component `n` is `[0, 10]`.\n"
    slope = "\t\t\t.saturating_add(Weight::from_parts(100, 0).saturating_mul(n.into()))\n"
    fs = {"w.rs": fn % (rng, "f", "n: u32, ", b, 3 * b, slope), "docs/y.txt": "-\n"}
    if c % 2 == 0:
        fs["docs/x.rs"] = fn % (rng, "g", "", 2 * b, b, "")
    if c % 5 == 3:
        fs["docs/bad.rs"] = "impl<T> W for W<T> { fn h() -> Weight { Weight::from_parts(\n"
    return fs


class Page(html.parser.HTMLParser):
    """What a result page shows."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.inputs, self.rows, self.path = {}, [], []
        self.select = self.cell = None
        self.config, self.text = [], []
        self.errors, self.warnings, self.buttons = [], [], []
        self.box, self.divs = None, 0
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "table":
            self.path.append(a.get("id", ""))
        if tag == "input" and "id" in a:
            self.inputs[a["id"]] = ("checked" in a) if a.get("type") == "checkbox" else a.get("value")
        elif tag == "select":
            self.select = a.get("id", "")
        elif tag == "option" and self.select and "selected" in a:
            self.inputs.setdefault(self.select, []).append(a.get("value"))
        elif tag == "tr":
            (self.rows if "sort_me" in self.path else self.config).append({"id": a.get("id"), "cells": []})
        elif tag in ("td", "th") and self.path:
            rows = self.rows if "sort_me" in self.path else self.config
            self.cell = {"text": "", "order": a.get("data-order"), "class": a.get("class"), "links": [], "style": [], "head": tag == "th"}
            if rows:
                rows[-1]["cells"].append(self.cell)
        elif tag == "a" and self.cell is not None:
            self.cell["links"].append(a.get("href"))
        elif tag == "p" and self.cell is not None:
            self.cell["style"].append(a.get("style"))
        if tag == "div" and self.box is not None:
            self.divs += 1
        if tag == "div" and a.get("id") in ("collapseErrors", "collapseWarns"):
            self.box = self.errors if a["id"] == "collapseErrors" else self.warnings
            self.divs = 1
            self.box.append("")
        if tag == "br" and self.box is not None and self.box:
            self.box.append("")
        if tag == "button":
            self.buttons.append("")

    def handle_endtag(self, tag):
        if tag == "select":
            self.select = None
        elif tag in ("td", "th", "tr"):
            self.cell = None
        elif tag == "table" and self.path:
            self.path.pop()
        elif tag == "button":
            self.buttons.append(None)
        elif tag == "div" and self.box is not None:
            self.divs -= 1
            if not self.divs:
                self.box = None

    def handle_data(self, data):
        if self.cell is not None:
            self.cell["text"] += data
        elif self.box:
            self.box[-1] += data
        elif self.buttons and self.buttons[-1] is not None:
            self.buttons[-1] += data

    def body(self):
        return [r for r in self.rows if r["cells"] and not r["cells"][0]["head"]]

    def cache_hit(self):
        """Whether the page says that it comes from the cache; None if it does not say."""
        said = [r["cells"][1]["text"].strip() for r in self.config
                if len(r["cells"]) == 2 and r["cells"][0]["text"].lower().startswith("cache")]
        return {"Yes": True, "No": False}.get(said[0]) if len(said) == 1 else None


class Site:
    """A web service with its repositories and their remotes, in a folder."""

    def __init__(self, d, repos=2, shim=None, names=None):
        self.d, self.shim = d, shim
        self.names = names or ["r%d" % (i + 1) for i in range(repos)]
        for x in ("bin", "home", "remotes", "root"):
            os.makedirs(d + "/" + x)
        for name, text in (("git", WRAPPER), ("git-remote-swc", HELPER)):
            p = d + "/bin/" + name
            with open(p, "w") as fh:
                fh.write(text % {"dir": d, "git": GIT})
            os.chmod(p, 0o755)
        for n in ("calls", "contact"):
            self.write(n, "")
        self.write("fault", "none 0\n")
        with open(d + "/clock", "wb") as fh:
            fh.write(struct.pack("<q", 0))
        self.env = {"PATH": d + "/bin:/usr/bin:/bin", "HOME": d + "/home", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8",
                    "GIT_TERMINAL_PROMPT": "0", "RUST_LOG": "off", "RUST_BACKTRACE": "0",
                    "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x",
                    "GIT_COMMITTER_DATE": "1600000000 +0000"}
        self.offset, self.t0 = 0, time.time()
        self.proc = None

    def write(self, name, text):
        with open(os.path.join(self.d, name), "w") as fh:
            fh.write(text)

    def lines(self, name):
        with open(os.path.join(self.d, name), errors="replace") as fh:
            return fh.read().splitlines()

    def git(self, cwd, *args, inp=None):
        r = subprocess.run([GIT, *args], cwd=cwd, env=self.env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True)
        if r.returncode != 0:
            raise ToolError("git %s: %s" % (args, r.stderr))
        return r.stdout

    def remote(self, i):
        return self.d + "/remotes/" + self.names[i] + ".git"

    def local(self, i):
        return self.d + "/root/" + self.names[i]

    def fast_import(self, i, commits):
        """commits: a list of (branch, parent hash or mark or None, files). Returns the hashes."""
        inp = []
        for m, (branch, parent, fs) in enumerate(commits):
            inp.append("commit refs/heads/%s\nmark :%d\ncommitter a <a@x> %d +0000\ndata 1\nc\n" % (branch, m + 1, 1600000000 + m))
            if parent:
                inp.append("from %s\n" % parent)
            inp.append("deleteall\n")
            for n, t in fs.items():
                b = t.encode()
                inp.append("M 100644 inline %s\ndata %d\n%s\n" % (json.dumps(n, ensure_ascii=False) if '"' in n or "\\" in n else n, len(b), t))
            inp.append("\n")
        for m in range(len(commits)):
            inp.append("get-mark :%d\n" % (m + 1))
        return self.git(self.remote(i), "-c", "fastimport.unpackLimit=1000", "fast-import", "--quiet", "--force",
                        inp="".join(inp)).split()

    def create(self, i, commits, refs):
        """Creates the remote and the clone of a repository."""
        self.git(self.d, "init", "-q", "--bare", "-b", "main", self.remote(i))
        self.git(self.remote(i), "config", "gc.auto", "0")
        shas = self.fast_import(i, commits)
        self.git(self.remote(i), "update-ref", "--stdin", inp="".join("update refs/heads/%s %s\n" % (n, shas[c - 1]) for n, c in refs.items()))
        self.git(self.d, "clone", "-q", self.remote(i), self.local(i))
        for k, v in (("remote.origin.url", "https://github.com/org%d/%s" % (i + 1, self.names[i])), ("remote.origin.vcs", "swc"),
                     ("gc.auto", "0"), ("maintenance.auto", "false")):
            self.git(self.local(i), "config", k, v)
        return shas

    def start(self):
        if os.path.exists(self.d + "/static") is False:
            os.symlink(REPO + "/web/static", self.d + "/static")
        env = dict(self.env, SWC_CLOCK=self.d + "/clock")
        if self.shim:
            env["LD_PRELOAD"] = self.shim
        for _ in range(5):
            with socket.socket() as s:
                s.bind(("127.0.0.1", 0))
                self.port = s.getsockname()[1]
            with open(self.d + "/log", "wb") as fh:
                self.proc = subprocess.Popen([binary("subweight-web"), "--root", self.d + "/root", "--static", self.d + "/static",
                                              "--repos", *self.names, "--endpoint", "127.0.0.1", "--port", str(self.port)],
                                             cwd=self.d, env=env, stdin=subprocess.DEVNULL, stdout=fh, stderr=fh, start_new_session=True)
            for _ in range(200):
                if self.proc.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 5).close()
                    return
                except OSError:
                    time.sleep(0.05)
            self.stop()
        with open(self.d + "/log", errors="replace") as fh:
            raise ToolError("the web service does not start: " + fh.read()[-1500:])

    def stop(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self.proc.wait()
            self.proc = None

    def tick(self, ms):
        self.offset += ms
        with open(self.d + "/clock", "r+b") as fh:
            fh.write(struct.pack("<q", self.offset))
        # The server looks at the clock every 500 ms to see how long a connection has been open.
        time.sleep(0.7)

    def now(self, up=False):
        x = (time.time() - self.t0) * 1000 + self.offset
        return (math.ceil(x) if up else math.floor(x)) + 1000

    def get(self, path, timeout=60):
        """(status, body); status 0 if there is no answer."""
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.putrequest("GET", path, skip_accept_encoding=True)
            c.putheader("Connection", "close")
            # The way in which an answer is sent does not change it.
            enc = [None, "gzip", None, "deflate", "identity"][zlib.crc32(path.encode()) % 5]
            if enc:
                c.putheader("Accept-Encoding", enc)
            c.endheaders()
            r = c.getresponse()
            return r.status, decoded(r.getheader("Content-Encoding"), r.read()).decode(errors="replace")
        except (OSError, http.client.HTTPException):
            return 0, ""
        finally:
            c.close()


def decoded(how, body):
    """The body of an answer as it was before it was compressed."""
    try:
        if how == "gzip":
            return zlib.decompress(body, 31)
        if how == "deflate":
            return zlib.decompress(body)
    except zlib.error as e:
        return ("not %s: %s" % (how, e)).encode()
    return body


def query(params):
    return "/compare?" + "&".join("%s=%s" % (k, urllib.parse.quote(str(v), safe="")) for k, v in params)


class History:
    """Replays one history."""

    def __init__(self, site, seed, repos):
        self.s, self.rnd, self.k = site, random.Random(seed), repos
        self.many = random.Random(seed * 31).choice([0] * 12 + [120, 280])
        self.sha, self.par, self.refs, self.obj = {}, {}, {}, {}
        self.events, self.ids, self.urls = [], 0, {}
        self.order = []           # (real time, event) of sends, answers and uses

    def setup(self):
        hist = []
        for i in range(self.k):
            # (A repository can have many branches.)
            extra = {"z%03d" % k: k % 2 + 1 for k in range(self.many)}
            shas = self.s.create(i, [("main", None, contents(i + 1, 1)), ("main", ":1", contents(i + 1, 2))], dict(INITIAL, **extra))
            self.sha[i] = [None] + shas
            self.refs[i] = dict(INITIAL, **extra)
            self.obj[i] = {}
            hist.append([{"n": n, "c": c, "s": -1, "e": -1, "tag": False, "odd": False} for n, c in self.refs[i].items()])
        self.events.append({"t": "start", "hist": hist})
        self.s.start()

    # -- changes of the remotes
    def move(self, m):
        i, name, kind = m["repo"] - 1, TRICKY.get(m["b"], m["b"]), m["kind"]
        if kind == "none":
            return
        remote, refs = self.s.remote(i), self.refs[i]
        tag = kind in ("tag", "atag", "deltag")
        a = self.s.now()
        if kind == "commit":
            c = len(self.sha[i])
            self.sha[i] += self.s.fast_import(i, [(name, self.sha[i][refs[name]], contents(i + 1, c))])
        elif kind in ("create", "force"):
            c = m["c"]
            self.s.git(remote, "update-ref", "refs/heads/" + name, self.sha[i][c])
        elif kind == "tag":
            c = m["c"]
            self.s.git(remote, "update-ref", "refs/tags/" + name, self.sha[i][c])
        elif kind == "atag":
            self.s.git(remote, "tag", "-a", "-m", "t", name, self.sha[i][m["c"]])
            c = 1000 + len(self.obj[i])
            self.obj[i][c] = self.s.git(remote, "rev-parse", "refs/tags/" + name).strip()
        else:
            c = 0
            self.s.git(remote, "update-ref", "-d", ("refs/tags/" if tag else "refs/heads/") + name)
        b = self.s.now(True)
        refs[name] = c
        e = {"t": "ref", "repo": i + 1, "n": name, "c": c, "s": a, "e": b, "tag": tag, "odd": "{" in name or "^" in name}
        self.order.append((time.time(), e))

    # -- requests
    def ref(self, q, side):
        r, flaw = q[side], q["flaw"].split(" ")
        if len(flaw) == 2 and flaw[1] == side:
            if flaw[0] == "unknown" and self.rnd.random() < 0.4:
                # (Nearly the name of a commit: it is not taken for it.)
                n = self.sha[q["repo"] - 1][r["c"]] if r["k"] == "hash" else r["n"]
                return self.rnd.choice([n + "/", "/" + n, n + "//", "./" + n, n + ".lock", n + "^{tree}", n + ":", n + "0" * 20, n + "~999", "x" + n, n + "."])
            return self.rnd.choice(BAD_REFS[flaw[0]])
        if r["k"] == "hash":
            return self.sha[q["repo"] - 1][r["c"]]
        return r["n"]

    def entities(self, s):
        """The same text, perhaps written with HTML entities and with spaces around it."""
        x = self.rnd.random()
        if x < 0.1 and s:
            i = self.rnd.randrange(len(s))
            s = s[:i] + "&#%d;" % ord(s[i]) + s[i + 1:]
        elif x < 0.2:
            s = html.escape(s).replace("/", "&#x2F;")
        elif "&" in s:
            s = s.replace("&", "&amp;")
        if self.rnd.random() < 0.1:
            s = self.rnd.choice([" ", "\t", "  "]) + s
        if self.rnd.random() < 0.1:
            s += self.rnd.choice([" ", "\n"])
        return s

    def params(self, q):
        rnd, flaw = self.rnd, q["flaw"]
        old, new = self.ref(q, "old"), self.ref(q, "new")
        pat = q["pat"]
        if flaw == "glob":
            pat = rnd.choice(["***", "a[", "**x", "x/***/y"])
        elif flaw == "dots":
            pat = rnd.choice(["../r2/*.rs", "docs/../w.rs", ".."])
        pal = {("docs/x.rs", "w.rs"): None, ("w.rs",): "w", ("docs/x.rs",): "docs", (): "zzz"}[tuple(sorted(q["pal"]))]
        ext = {("f", "g"): None, ("f",): "f", ("g",): "g"}[tuple(sorted(q["ext"]))]
        all_ = lambda: rnd.choice([None, None, ".*", "^", "."])
        pal = pal if pal is not None else all_()
        ext = ext if ext is not None else all_()
        if flaw == "pallet":
            pal = rnd.choice(["(", "[", "a**", "\\", "(?<"])
        if flaw == "extrinsic":
            ext = rnd.choice(["(", "[z-a]", "*", "\\"])
        repo = self.s.names[q["repo"] - 1]
        if flaw == "repo":
            repo = rnd.choice(["nope", "", "r1/../r2", "../root/r1", "R1", "r1\0", "org1/r1", " r1"])
        p = [("repo", repo), ("old", self.entities(old)), ("new", self.entities(new)), ("path_pattern", self.entities(pat)),
             ("ignore_errors", "true" if q["ign"] else "false"), ("threshold", str(q["thr"])), ("unit", q["unit"]), ("method", q["meth"])]
        if flaw == "threshold":
            p[5] = ("threshold", rnd.choice(["-1", "abc", "", "4294967296", "1.5", "NaN"]))
        if flaw == "unit":
            p[6] = ("unit", rnd.choice(["size", "", "TIME ", "0"]))
        if flaw == "method":
            p[7] = ("method", rnd.choice(["worst", "", "base,base", "0"]))
        if flaw == "ignore_errors":
            p[4] = ("ignore_errors", rnd.choice(["maybe", "", "2"]))
        if pal is not None:
            p.append(("pallet", pal))
        if ext is not None:
            p.append(("extrinsic", ext))
        if flaw == "git_pull":
            p.append(("git_pull", rnd.choice(["maybe", "x", "2"])))
        elif not q["pull"] or rnd.random() < 0.5:
            p.append(("git_pull", "true" if q["pull"] else "false"))
        if flaw.startswith("missing:"):
            p = [x for x in p if x[0] != flaw[8:]]
        raw = [repo, html.unescape(dict(p).get("old", "")), html.unescape(dict(p).get("new", "")),
               html.unescape(dict(p).get("path_pattern", "")), pal if pal is not None else ".*", ext if ext is not None else ".*",
               str(q["thr"]), q["unit"], q["meth"], str(q["ign"]), str(q["pull"])]
        rnd.shuffle(p)
        url = query(p)
        if flaw == "garbage":
            url = "/compare?" + rnd.choice(["", "%zz", "&&&", "old=%ff%fe&new=%80", "a" * 3000, "=&=", "old", url[9:] + "&old=x", "%00"])
        return url, [x.strip() for x in raw]

    def answer(self, q, body):
        """(hit, rows, echo, said) of a result page."""
        pg = Page(body)
        rows = []
        for r in pg.body():
            c = r["cells"]
            try:
                rows.append({"f": c[0]["text"].strip(), "n": c[1]["text"].split()[0], "o": int(c[2]["order"]), "w": int(c[3]["order"])})
            except (IndexError, ValueError, TypeError):
                rows.append({"f": "?", "n": "?", "o": -1, "w": -1})
        one = lambda x: x[0] if isinstance(x, list) and len(x) == 1 else str(x)
        i = pg.inputs
        echo = [one(i.get("select_repo")), i.get("input_old"), i.get("input_new"), i.get("input_path_pattern"), i.get("input_pallet"),
                i.get("input_extrinsic"), i.get("input_threshold"), one(i.get("select_unit")), one(i.get("select_method")),
                str(i.get("checkbox_ignore_errors")), str(i.get("checkbox_git_pull"))]
        hit = pg.cache_hit()
        return bool(hit), rows, [str(x).strip() for x in echo], hit is not None

    def ask(self, e):
        s, rnd = self.s, self.rnd
        qs, fault = e["qs"], e["fault"]
        s.write("calls", "")
        for n in ("fired", "unreachable"):
            if os.path.exists(s.d + "/" + n):
                os.unlink(s.d + "/" + n)
        if len(qs) > 1 and not os.path.exists(s.d + "/slow"):
            s.write("slow", "")
        elif len(qs) == 1 and os.path.exists(s.d + "/slow"):
            os.unlink(s.d + "/slow")
        kind = {"pre": "pre", "post": "post", "noise": "noise"}.get(fault, "none")
        s.write("fault", "%s %d\n" % (kind, e["at"]))
        lock = s.local(qs[0]["repo"] - 1) + "/.git/index.lock"
        if fault == "down":
            s.write("unreachable", "")
        elif fault == "lock":
            open(lock, "w").close()
        reqs, threads, out = [], [], {}
        for q in qs:
            self.ids += 1
            key = json.dumps(q)
            if key not in self.urls or rnd.random() < 0.15:
                self.urls[key] = self.params(q)
            url, raw = self.urls[key]
            reqs.append((self.ids, q, url, raw))

        def run(i, url, delay):
            time.sleep(delay)
            t, a = time.time(), s.now()
            st, body = s.get(url)
            out[i] = (t, a, st, body, time.time(), s.now(True))
        for i, q, url, raw in reqs:
            th = threading.Thread(target=run, args=(i, url, rnd.random() * 0.1 if len(qs) > 1 else 0))
            threads.append(th)
            th.start()
        for m in e["moves"]:
            time.sleep(rnd.random() * 0.3)
            self.move(m)
        for th in threads:
            th.join()
        s.write("fault", "none 0\n")
        fired = fault in ("down", "lock") or os.path.exists(s.d + "/fired")
        if fault == "lock" and os.path.exists(lock):
            os.unlink(lock)
        if fault == "down":
            os.unlink(s.d + "/unreachable")
        calls = [x.split("\x1f") for x in s.lines("calls")]
        moved = {m["repo"] for m in e["moves"] if m["kind"] != "none"}
        for i, q, url, raw in reqs:
            t, a, st, body, t2, b = out[i]
            hit, rows, echo, said = self.answer(q, body) if st == 200 else (False, [], [], True)
            self.order.append((t, {"t": "send", "id": i, "q": q, "at": a}))
            self.order.append((t2, {"t": "recv", "id": i, "at": b, "status": st, "hit": hit, "ans": rows, "echo": echo, "raw": raw,
                                    "calm": not fired and q["repo"] not in moved, "down": fault == "down", "alone": len(qs) == 1,
                                    "calls": len(calls), "said": said, "url": url, "why": "" if st == 200 else self.error(body)}))
        for c in calls:
            self.use(c, reqs, out)

    def error(self, body):
        m = re.search(r"<h1>Error</h1>\s*<h2>(.*?)</h2>", body, re.S)
        return (m.group(1) if m else body)[:300]

    def use(self, call, reqs, out):
        """A git command that changes a working tree on behalf of a request."""
        if len(call) < 3 or call[2] not in ("reset", "checkout", "switch"):
            return
        t = float(call[0])
        w = [i for i in range(self.k) if os.path.realpath(call[1]) == os.path.realpath(self.s.local(i))]
        if not w:
            return
        names = set()
        for a in call[3:]:
            for p in ("refs/heads/", "refs/remotes/origin/", "origin/"):
                if a.startswith(p):
                    a = a[len(p):]
            names.add(a)
        of = []
        for i, q, url, raw in reqs:
            if out[i][0] <= t <= out[i][4] and not q["flaw"] and q["repo"] == w[0] + 1 and \
                    any(r["k"] == "name" and r["n"] in names for r in (q["old"], q["new"])):
                of.append(i)
        if len(of) == 1:
            self.order.append((t, {"t": "use", "w": w[0] + 1, "id": of[0]}))

    # -- lists of branches
    def list(self, e):
        s, i = self.s, e["repo"] - 1
        s.write("calls", "")
        if os.path.exists(s.d + "/fired"):
            os.unlink(s.d + "/fired")
        s.write("fault", "%s %d\n" % (e["fault"] if e["fault"] in ("pre", "post", "noise") else "none", e["at"]))
        if e["fault"] == "down":
            s.write("unreachable", "")
        p = [] if e["flaw"] == "missing" else [("repo", "nope" if e["flaw"] == "repo" else s.names[i])]
        fetch = e["fetch"] == 2
        if e["flaw"] == "fetch":
            p.append(("fetch", "maybe"))
        elif e["fetch"]:
            p.append(("fetch", "true" if fetch else "false"))
        before = self.tracking(i)
        a = s.now()
        st, body = s.get("/branches?" + urllib.parse.urlencode(p))
        b = s.now(True)
        s.write("fault", "none 0\n")
        fired = e["fault"] == "down" or os.path.exists(s.d + "/fired")
        if e["fault"] == "down":
            os.unlink(s.d + "/unreachable")
        lst = []
        if st == 200:
            try:
                lst = [[n, self.id(i, h, 12)] for n, h in json.loads(body)["branch"]]
            except (ValueError, KeyError, TypeError):
                lst = [["?", -1]]
        local = self.tracking(i)
        self.order.append((time.time(), {"t": "list", "repo": i + 1, "fetch": fetch, "flaw": e["flaw"], "a": a, "b": b, "status": st,
                                         "list": lst, "local": local, "same": local == before, "calm": not fired, "down": e["fault"] == "down",
                                         "why": "" if st == 200 else body[:300]}))

    def tracking(self, i):
        out = []
        for line in self.s.git(self.s.local(i), "for-each-ref", "--format=%(objectname) %(refname)", "refs/remotes/origin/").splitlines():
            h, n = line.split(" ", 1)
            if n != "refs/remotes/origin/HEAD":
                out.append([n[len("refs/remotes/origin/"):], self.id(i, h, 40)])
        return out

    def id(self, i, h, digits):
        for c, x in list(enumerate(self.sha[i])) + list(self.obj[i].items()):
            if x and x[:digits] == h:
                return c
        return -1

    # -- other pages
    def pages(self):
        rnd = self.rnd
        for path, want in rnd.sample([("/", 200), ("/version", 200), ("/version/badge", 200), ("/compare-mr", 200), ("/compare-commit", 200),
                                      ("/version?is=0", 500), ("/static/root.js", 200), ("/nope", 404), ("/branches", 500),
                                      ("/compare", 500), ("/compare/x", 404), ("/%ff", 404)], 3):
            st, body = self.s.get(path)
            if path == "/version" and st == 200:
                v, _ = self.s.get("/version?is=" + urllib.parse.quote(body, safe=rnd.choice(["", "+"])))
                self.order.append((time.time(), {"t": "page", "status": v, "want": 200, "path": path + "?is=" + body}))
            self.order.append((time.time(), {"t": "page", "status": st, "want": want, "path": path}))

    def flush(self):
        self.order.sort(key=lambda x: x[0])
        self.events += [e for _, e in self.order]
        self.order = []

    def run(self, entries, pages):
        try:
            self.setup()
            for e in entries:
                if e["t"] == "ask":
                    self.ask(e)
                elif e["t"] == "tick":
                    self.s.tick(e["d"])
                elif e["t"] == "move":
                    self.move(e["m"])
                else:
                    self.list(e)
                if pages and self.rnd.random() < 0.2:
                    self.pages()
                self.flush()
            return self.events
        finally:
            self.s.stop()


def shim(d):
    p = d + "/shim.so"
    r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", p, os.path.join(os.path.dirname(__file__), "shim.c")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the clock cannot be built: " + r.stdout)
    return p


def histories(d, count, seed, length, repos, burst, flawed, faults, lists):
    cfg = """SPECIFICATION Spec
CONSTANTS Repos = {%s}
 MaxLen = %d
 Burst = %d
 Flawed = %d
 Faults = {%s}
 Lists = %s
CHECK_DEADLOCK FALSE
""" % (",".join(str(i + 1) for i in range(repos)), length, burst, flawed, ",".join('"%s"' % x for x in faults), str(lists).upper())
    res = tlc("ServiceSim", cfg, d, workers=1, extra=("-simulate", "num=%d" % count, "-depth", str(length + 3), "-seed", str(seed)))
    hs = [json.loads(json.loads(x)[2:]) for x in res.out.splitlines() if x.startswith('"@@')]
    if len(hs) < count:
        raise ToolError("%d histories instead of %d" % (len(hs), count))
    return hs


def replay(chk, d, hs, repos, seed, pages=False, jobs=12):
    so = shim(d)
    os.makedirs(d + "/sites", exist_ok=True)

    def one(i):
        return History(Site("%s/sites/%d-%d" % (d, seed, i), repos, so), seed * 7919 + i, repos).run(hs[i], pages)
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, range(len(hs))))


def validate(chk, outs, d):
    events = [e for es in outs for e in es]
    path = os.path.join(d, "service.ndjson")
    write_trace(events, path)
    cfg = 'SPECIFICATION Spec\nCONSTANT Checks = {"%s"}\nINVARIANT Accepted\n' % chk.prop
    res = tlc("ServiceTrace", cfg, d, env={"TRACE": path})
    chk.add_tlc(res)
    for e in events:
        if e["t"] == "recv":
            chk.count("answers")
            chk.count("answers_ok", e["status"] == 200)
            chk.count("answers_cached", e["hit"])
            chk.count("answers_concurrent", not e["alone"])
        elif e["t"] in ("use", "list", "page", "ref"):
            chk.count({"use": "tree_changes", "list": "lists", "page": "pages", "ref": "remote_changes"}[e["t"]])
    chk.traces += len(outs)
    chk.sample([{k: v for k, v in e.items() if k in ("t", "at", "url", "status", "hit", "ans", "n", "c")} for e in outs[0][1:6]])
    if res.violated:
        i = int(res.last("at")) - 1
        if res.violated != "Accepted":
            i = int(res.last("l")) - 1
        s = max(j for j in range(i + 1) if events[j]["t"] == "start")
        if res.violated != "Accepted":
            raise ToolError("event %d is not understood: %s" % (i + 1, json.dumps(events[i])[:2000]))
        chk.violate("%s: %s" % (res.last("bad"), json.dumps(events[i])[:800]), events[s:i + 1])


def run(chk, d, count, length=20, repos=2, burst=1, flawed=0, faults=(), lists=False, pages=False):
    hs = histories(d, count, SEED + sum(map(ord, chk.prop)), length, repos, burst, flawed, faults, lists)
    for b in range(0, count, 400):
        outs = replay(chk, d, hs[b:b + 400], repos, SEED + b, pages)
        validate(chk, outs, d)
        if chk.violations:
            return


def model(chk, d, deep):
    """The design of the service: all interleavings of few requests; and that its locks and its cache key matter."""
    cfg = """SPECIFICATION Spec
CONSTANTS Clients = {%s}
 Repos = {1}
 Branches = {"main", "dev"}
 MaxAsked = %d
 MaxMoves = %d
 MaxTicks = %d
 Locked = %s
 Sync = FALSE
 CacheErrors = %s
 Refreshing = %s
 Sloppy = %s
 Ttl <- MCTtl
INVARIANTS Right Exclusive
CHECK_DEADLOCK FALSE
SYMMETRY Sym
"""
    bounds = [("c1, c2", 2, 1, 2), ("c1", 3, 2, 3) if deep else ("c1", 3, 1, 2)] + ([("c1, c2", 3, 1, 3)] if deep else [])
    for i, b in enumerate(bounds):
        res = tlc("ServiceMC", cfg % (*b, "TRUE", "FALSE", "FALSE", "FALSE"), d, timeout=3000, name="ServiceMC%d" % i)
        if res.violated:
            raise ToolError("the specified design of the service is wrong:\n" + res.out[-3000:])
        chk.add_tlc(res)
        chk.count("model_states", res.distinct)
    if deep:
        for b, flags in ((bounds[0], ("FALSE", "FALSE", "FALSE", "FALSE")), (bounds[1], ("TRUE", "TRUE", "FALSE", "FALSE")),
                         (bounds[1], ("TRUE", "FALSE", "TRUE", "FALSE")), (bounds[1], ("TRUE", "FALSE", "FALSE", "TRUE"))):
            res = tlc("ServiceMC", cfg % (*b, *flags), d, timeout=3000, name="ServiceMCx")
            if not res.violated:
                raise ToolError("the specification does not notice the defect %s" % (flags,))
            chk.count("model_defects_found")


def too_deep(chk, d):
    """The recorded finding: source that is nested too deeply ends the service."""
    s = Site(d + "/deep", 1)
    fs = lambda n: {"w.rs": "impl<T> W for WeightInfo<T> { fn f() -> Weight { %sWeight::from_parts(1, 0)%s } }\n" % ("(" * n, ")" * n)}
    a, b = s.create(0, [("main", None, fs(300)), ("main", ":1", fs(5000))], {"main": 2})
    s.start()
    try:
        url = [query([("repo", "r1"), ("old", a), ("new", x), ("path_pattern", "w.rs"), ("ignore_errors", "true"), ("threshold", "0"),
                      ("unit", "time"), ("method", "base"), ("git_pull", "false")]) for x in (a, b)]
        st, _ = s.get(url[0])
        if st != 200:
            chk.violate("a file with 300 nested parentheses: status %d" % st, {"url": url[0], "parentheses": 300})
            return
        st, _ = s.get(url[1])
        if st not in (200, 500) and s.proc.poll() is not None:
            what = "the service ends when it reads a weight file with 5000 nested parentheses (stack overflow)"
            if known("C23", what):
                chk.known.append(what)
            else:
                chk.violate(what, {"url": url[1], "parentheses": 5000})
    finally:
        s.stop()
