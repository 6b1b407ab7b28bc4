"""What the tools offer (C28): names of options, and the entry pages of the web service."""
import html.parser
import json
import os
import re
import shutil
import subprocess
import urllib.parse
from concurrent.futures import ThreadPoolExecutor

from . import core
from .common import REPO, binary, drive
from .web import Site, query

METHODS = ["base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic"]
UNITS = ["time", "proof", "weight"]
CHANGES = ["unchanged", "changed", "added", "removed"]


def name_cases(r, count):
    known = METHODS + UNITS + CHANGES
    out = known + [n.upper() for n in known] + [n.title() for n in known] + ["", " ", "-", "worst", "ref-time", "proof-size", "size"]
    while len(out) < count:
        n = r.choice(known)
        x = r.random()
        if x < 0.2:
            n = r.choice(["", " ", "\t"]) + n + r.choice(["", " ", "\n", "s"])
        elif x < 0.4:
            i = r.randrange(len(n))
            n = n[:i] + n[i + 1:]
        elif x < 0.6:
            n = n.replace("-", r.choice(["_", " ", ""]))
        elif x < 0.8:
            n = "".join(c.upper() if r.random() < 0.3 else c for c in n)
        else:
            i = r.randrange(len(n))
            n = n[:i] + r.choice("abcdefgxyz-0 é") + n[i + 1:]
        out.append(n)
    return out


def names(chk, d, count):
    r = core.rng("C28")
    ops = [{"op": "names", "name": n} for n in name_cases(r, count)]
    obs = drive(ops, d, name="names")
    ev = []
    for o, x in zip(ops, obs):
        e = {"op": "names", "name": o["name"], "lower": o["name"].lower(), "panic": "ok" not in x}
        if "ok" in x:
            e.update(x["ok"])
            for k in ("method", "unit", "change"):
                e[k] = [] if e[k] is None else [e[k]]
        ev.append(e)
    chk.count("names", len(ev))
    core.validate(chk, ev, d, "names", lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")
    chk.sample({"op": ops[0], "observed": obs[0]})


class Offered(html.parser.HTMLParser):
    """The choices of a page: the options of every select, and the numbers in running text."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.selects, self.cur, self.opt, self.inputs = {}, None, None, {}
        self.vars, self.var, self.texts, self.cells, self.cell = [], False, [], [], False
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        a = dict(attrs)
        if tag == "select":
            self.cur = self.selects.setdefault(a.get("id", ""), [])
        elif tag == "option" and self.cur is not None:
            self.opt = {"v": a.get("value"), "t": "", "sel": "selected" in a}
            self.cur.append(self.opt)
        elif tag == "input":
            self.inputs[a.get("id", "")] = ("yes" if "checked" in a else "no") if a.get("type") == "checkbox" else a.get("value", "")
        elif tag == "var":
            self.var = True
            self.vars.append("")
        elif tag == "td":
            self.cell = True
            self.cells.append("")
        elif tag == "text":
            self.texts.append("")

    def handle_endtag(self, tag):
        if tag == "select":
            self.cur = self.opt = None
        elif tag == "option":
            self.opt = None
        elif tag == "var":
            self.var = False
        elif tag == "td":
            self.cell = False

    def handle_data(self, data):
        if self.opt is not None:
            self.opt["t"] += data
        if self.var:
            self.vars[-1] += data
        if self.cell:
            self.cells[-1] += data
        if self.texts:
            self.texts[-1] += data

    def options(self, name):
        # (A browser strips the text of an option, which is also its value if it has none.)
        out = []
        for o in self.selects.get(name, []):
            t = " ".join(o["t"].split())
            out.append({"v": t if o["v"] is None else o["v"], "t": t, "sel": o["sel"]})
        return out

    def after(self, label):
        cs = [" ".join(c.split()) for c in self.cells]
        return cs[cs.index(label) + 1] if label in cs[:-1] else "?"


REPO_NAMES = ["polkadot-sdk", "substrate", "Polkadot", "my repo", "a&b", "größe", "x<y>", 'q"uote', "it's", "A", "a", "cumulus.x", "UPPER",
              "a+b", "100%", "#1", "a=b;c", "-dash", "&amp;", "{{}}", "x_y"]
CONTROLS = {k: "input_" for k in ("old", "new", "path_pattern", "pallet", "extrinsic", "threshold")} | {k: "checkbox_" for k in ("ignore_errors", "git_pull")}
SECRET = "swc-secret-content"


def site_events(d, r):
    k = r.choice([1, 1, 2, 3, 5, 9])
    ns = []
    while len(ns) < k:
        n = r.choice(REPO_NAMES) if r.random() < 0.8 else "R%d" % r.randint(0, 99)
        if n not in ns and not (n.startswith("-") and not ns):
            ns.append(n)
    ns = [n for n in ns if not n.startswith("-")] or ["r"]
    site = Site(d, names=ns)
    orgs, branches = {}, {}
    for i, n in enumerate(ns):
        bs = ["main"] + r.sample(["dev", "Rel-1", "b/c", "x%d" % i, 'q"x', 'q"x', "x<y>", "it's", "a&b"], r.randint(1, 5))
        bs = sorted(set(bs), key=bs.index)
        site.create(i, [("main", None, {"w.txt": "-"})], {b: 1 for b in bs})
        orgs[n] = r.choice(["org%d" % (i + 1), "Org%d" % (i + 1), "paritytech", "a-b", "x.y"])
        # (How the address ends does not matter to who owns it.)
        site.git(site.local(i), "config", "remote.origin.url", "https://github.com/%s/r%d%s" % (orgs[n], i, r.choice(["", ".git"])))
        os.rename(site.remote(i), d + "/remotes/tmp")
        for end in ("r%d" % i, "r%d.git" % i):
            if os.path.lexists(d + "/remotes/" + end + ".git") is False:
                os.symlink(d + "/remotes/tmp%d" % i, d + "/remotes/" + end + ".git")
        os.rename(d + "/remotes/tmp", d + "/remotes/tmp%d" % i)
        branches[n] = bs
    # The folder of static files, with more in it and something beside it that is no business of others.
    shutil.copytree(REPO + "/web/static", d + "/static")
    os.makedirs(d + "/static/sub dir/deep")
    extra = {"sub dir/a b.txt": "x", "sub dir/deep/größe.js": "y", "100%.css": "z", "empty.txt": ""}
    for n, t in extra.items():
        with open(d + "/static/" + n, "w") as fh:
            fh.write(t)
    for p in ("secret.txt", "root/secret.txt"):
        with open(d + "/" + p, "w") as fh:
            fh.write(SECRET)
    site.start()
    try:
        return probe(site, r, ns, orgs, branches)
    finally:
        site.stop()


def probe(site, r, ns, orgs, branches):
    def heads(v):
        st, b = site.get("/branches?" + urllib.parse.urlencode({"repo": v or ""}))
        try:
            return {"status": st, "names": [x[0] for x in json.loads(b)["branch"]]}
        except (ValueError, KeyError, TypeError):
            return {"status": st, "names": []}

    def start(path):
        st, b = site.get(path)
        o = Offered(b)
        return {"status": st, "options": [dict(x, heads=heads(x["v"])) for x in o.options("repoSelect")], "count": (o.vars or ["?"])[0]}

    e = {"op": "offers", "repos": [{"name": n, "org": orgs[n], "branches": branches[n]} for n in ns]}
    e["start"], e["commit"] = start("/"), start("/compare-commit")
    st, b = site.get("/compare-mr" + r.choice(["", "?owner=x&repo=y"]))
    e["mrs"] = {"status": st, "options": Offered(b).options("select_repo")}
    pages = []
    for _ in range(10):
        q = {"repo": r.choice(ns + ns + ["nope", "", ns[0] + "x"]), "unit": r.choice(UNITS + UNITS + ["size", "", "bytes"]),
             "method": r.choice(METHODS + METHODS + ["worst", "", "exact"])}
        # What the controls show is what was asked for, or the default of what was not.
        bs = branches.get(q["repo"], ["main"])
        asked = {"old": r.choice(bs + bs[1:] * 2), "new": r.choice(bs + bs[1:] * 2), "path_pattern": r.choice(["**/*.rs", "*.rs", "w.tx", "a&b/*.rs", "x y/**/*.rs", 'q"/*.rs', "a/*.rs,b/*.rs"]),
                 "ignore_errors": r.choice(["true", "false"]), "threshold": str(r.choice([0, 5, 30, 255, 256, 65536, 4294967295]))}
        more = {"git_pull": ["true", "false"], "pallet": ["a.*", "^(x|y)$", "<b>", '"', "a&amp;b", "it's"], "extrinsic": ["a.*", "^set_", "x<y", "&", "größe"]}
        asked.update({k: r.choice(v) for k, v in more.items() if r.random() < 0.5})
        st, b = site.get(query([("repo", q["repo"]), ("unit", q["unit"]), ("method", q["method"])] + list(asked.items())))
        o = Offered(b if st == 200 else "")
        pages.append(dict(q, status=st, asked=asked, shown={k: o.inputs.get(i + k, "?") for k, i in CONTROLS.items()}, repos=o.options("select_repo"), units=o.options("select_unit"), methods=o.options("select_method"),
                          version=o.after("Version")))
    e["pages"] = pages
    e["package"] = re.search(r'^version\s*=\s*"([^"]+)"', open(REPO + "/Cargo.toml").read(), re.M).group(1)
    st, v = site.get("/version")
    said = []
    for x in ("subweight-web", "subweight"):
        p = subprocess.run([binary(x), "--version"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=site.env, cwd=site.d)
        said.append(p.stdout.strip().split(" ", 1)[-1] if p.returncode == 0 else "?")
    bst, badge = site.get("/version/badge")
    asked = []
    for x in [v, v.replace("+", " "), v.split("+")[0], v[:-1], v + "0", "", v.upper() + "x", "3.4", " ", r.choice(["é", "%", "0"]), "+" + v]:
        s, _ = site.get("/version?is=" + urllib.parse.quote(x, safe=r.choice(["", "+"]) if "+" in x and x == v else ""))
        asked.append({"is": x, "status": s})
    e["version"] = {"status": st, "text": v, "spaced": v.replace("+", " "), "said": said, "badge": bst,
                    "badgetexts": [" ".join(t.split()) for t in Offered(badge).texts], "asked": asked}
    static = []
    top = site.d + "/static"
    for base, _, fs in os.walk(top):
        for f in fs:
            p = os.path.relpath(os.path.join(base, f), top)
            if r.random() < 0.5:
                static.append((p, urllib.parse.quote(p), True))
    for p in ["../secret.txt", "..%2fsecret.txt", "%2e%2e/secret.txt", "sub%20dir/../../secret.txt", "//../secret.txt", "..%5csecret.txt",
              "../root/secret.txt", "%2e%2e%2froot%2fsecret.txt", ".%2e/secret.txt", "/" + site.d + "/secret.txt",
              urllib.parse.quote(site.d + "/secret.txt", safe=""), "....//secret.txt", "missing.txt", "sub%20dir/missing", "..%00/secret.txt"]:
        static.append((p, p, False))
    e["static"] = []
    for p, u, inside in static:
        st, b = site.get("/static/" + u)
        same = False
        if inside:
            with open(top + "/" + p, errors="replace", newline="") as fh:
                same = fh.read() == b
        e["static"].append({"p": u, "status": st, "inside": inside, "same": same, "missing": "missing" in p, "leaks": SECRET in b})
    return e


def run(chk, d, count):
    os.makedirs(d + "/offers")

    def one(i):
        p = "%s/offers/%d" % (d, i)
        os.makedirs(p)
        try:
            return site_events(p, core.rng("C28-%d" % i))
        finally:
            shutil.rmtree(p, ignore_errors=True)
    with ThreadPoolExecutor(8) as ex:
        ev = list(ex.map(one, range(count)))
    for e in ev:
        chk.count("sites")
        chk.count("repositories", len(e["repos"]))
        chk.count("result_pages", sum(p["status"] == 200 for p in e["pages"]))
        chk.count("static_files", len(e["static"]))
    core.validate(chk, ev, d, "offers", lambda i: {"event": ev[i]}, module="AuxTrace")
    chk.sample(ev[0])
