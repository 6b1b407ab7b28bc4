"""The scripts of the web pages (C29), run by node in a small document (tools/front)."""
import json
import os
import re
import subprocess
import urllib.parse
from concurrent.futures import ThreadPoolExecutor

from . import core
from .common import REPO, THOROUGH, VERIF, ToolError, tlc
from .web import Site, query

BRANCHES = ["master", "main", "dev", "a&b", "x#1", "a+b", "50%", "größe", "a=b", "x;y", "fix/<b>", "it's", '"q"', "%41", "Master", "a b", "null", "v1.0",
            "feature/weights", "&amp;", "x?y=1&repo=z", "null"]
REPOS = ["polkadot-sdk", "substrate", "a&b", "Größe 1", "x+y"]
TITLES = ["Update weights", "[WIP] <b>bold</b> & more", "Fix #12", "a" * 120, "Weight of <script>alert(1)</script>", "&lt;tag&gt;", "ünïcode", "x", "5 < 6 & 7 > 3",
          "b" * 98 + "<i>", "No change", "New WEIGHTS", "Weighty", "wEIGh"]
MR_BRANCHES = BRANCHES + ["Weights-2", "fix/WEIGHT", "reweighted", "weigh-t", "Update-WeightInfo"]
USERS = ["alice", "bob-1", "dependabot[bot]"]
UNITS = ["time", "proof"]
METHODS = ["base", "guess-worst", "exact-worst", "exact-asymptotic", "asymptotic"]


def start_case(r):
    def names():
        ns = sorted(set(r.sample(BRANCHES, r.randint(0, 8))))
        if r.random() < 0.6 and "master" not in ns:
            ns.append("master")
        if r.random() < 0.01:
            ns += ["b%03d" % k for k in range(r.choice([40, 120, 300]))]
        r.shuffle(ns)
        return ns
    server = {n: {"plain": names(), "fetched": names()} for n in REPOS}
    steps, ev = [], []

    def add(step, **e):
        steps.append(step)
        ev.append(e)
    repo = None
    for _ in range(r.randint(3, 14)):
        x = r.random()
        if x < 0.25 or repo is None:
            repo = r.choice(REPOS[:1] * 3 + REPOS)
            add({"do": "select", "id": "repoSelect", "value": repo}, do="choose", repo=repo)
        elif x < 0.6:
            add({"do": "answer", "i": r.choice([0, 0, 1, 2]), "fail": r.random() < 0.12}, do="answer")
        elif x < 0.68:
            add({"do": "click", "tag": "button", "text": "fetch", "n": r.choice([0, 1])}, do="fetch")
        elif x < 0.88:
            side = r.choice(["first", "second"])
            add({"do": "select", "id": side + "Select", "value": r.choice(server[repo]["plain"] + server[repo]["fetched"] + ["master"])}, do="pick", side=side)
        elif x < 0.96:
            add({"do": "click", "id": "bthPost"}, do="go")
            add({"do": "reload"}, do="reload", options=REPOS)
        else:
            add({"do": "reload"}, do="reload", options=REPOS)
    return {"page": "start", "url": "/", "server": server, "steps": steps}, ev


def mrs_case(r):
    query_ = []
    if r.random() < 0.7:
        query_.append(["owner", r.choice(["paritytech", "org1", "org2", ""])])
    if r.random() < 0.7:
        query_.append(["repo", r.choice(["polkadot-sdk", "polkadot-sdk", "substrate", ""])])
    if r.random() < 0.3:
        query_.append(["x", r.choice(["1", "a b", "ü&="])])
    q = dict(query_)
    owner, repo = q.get("owner") or "paritytech", q.get("repo") or "polkadot-sdk"
    n = r.choice([0, 1, 2, 3, 5, 8]) if r.random() < 0.99 else r.choice([35, 60, 110])
    fail = r.random() < 0.08
    if fail:
        n = 0       # GitHub refuses to list them
    dates = r.sample(range(1, 400), n)
    prs, github = [], []
    for d in dates:
        p = {"title": r.choice(TITLES), "user": r.choice(USERS), "head": r.choice(MR_BRANCHES), "base": r.choice(MR_BRANCHES),
             "headowner": r.choice([owner, owner, owner, "fork", ""]), "date": d}
        p.update(ltitle=p["title"].lower(), lhead=p["head"].lower(), lbase=p["base"].lower())
        prs.append(p)
        t = "2022-%02d-%02dT%02d:00:00Z" % (1 + d // 40, 1 + d % 40 // 2, d % 2 * 12)
        # (A fork that was deleted has no repository.)
        head = {"ref": p["head"], "sha": "0", "label": "x", "repo": {"name": repo, "full_name": p["headowner"] + "/" + repo, "owner": {"login": p["headowner"]}} if p["headowner"] else None}
        github.append({"title": p["title"], "updated_at": t, "created_at": t, "number": d, "html_url": "https://github.com/x/y/pull/%d" % d, "user": {"login": p["user"]},
                       "head": head, "base": {"ref": p["base"], "sha": "0", "repo": {"name": repo, "owner": {"login": owner}}}, "labels": [], "draft": False, "body": None})
    steps, ev = [{"do": "answer", "i": 0, "fail": fail}], [{"do": "list", "prs": prs}]
    for _ in range(r.randint(1, 8)):
        x = r.random()
        if n and x < 0.5:
            row = r.randrange(n)
            steps.append({"do": "dblclick", "row": row})
            ev.append({"do": "dbl", "row": row + 1})
        elif x < 0.9:
            steps.append({"do": "answer", "i": r.choice([0, 0, 1]), "fail": r.random() < 0.15})
            ev.append({"do": "answer"})
        else:
            v = r.choice(["org1:polkadot-sdk", "org2:substrate"])
            steps.append({"do": "select", "id": "select_repo", "value": v})
            ev.append({"do": "switch", "owner": v.split(":")[0], "repo": v.split(":")[1]})
    url = "/compare-mr" + ("?" + "&".join("%s=%s" % (k, urllib.parse.quote(v, safe="")) for k, v in query_) if query_ else "")
    server = {n: {"plain": ["x"], "fetched": ["x"]} for n in REPOS}
    return {"page": "mrs", "url": url, "server": server, "github": github, "steps": steps}, ev, {"query": query_, "options": ["org1:polkadot-sdk", "org2:substrate"]}


# The weights of `f` and `g` in the files of the two commits.
TREES = [{"a/w.rs": (500, 7), "c.rs": (100, 9), "d.rs": (3, 8)}, {"a/w.rs": (1000, 70), "b.rs": (3, 1), "c.rs": (40, 9)}]


def page_rows(html, q):
    """The rows of a result page, with the two values of each (-1 if there is none)."""
    ps = dict(urllib.parse.parse_qsl(q.split("?")[1]))
    out = []
    for x in re.findall(r'<tr\s[^>]*\bid="([^"]*)"', html):
        f, n = x.rsplit(".", 1)
        # (A branch whose name is not `main` is at the second commit.)
        v = [TREES[ps[k] != "main"].get(f) for k in ("old", "new")]
        v = [-1 if y is None else y[n == "g"] if ps["unit"] == "time" else 3 + (n == "g") for y in v]
        out.append({"id": x, "old": v[0], "new": v[1]})
    return out


def table_case(r, i, q, rows):
    ids = [x["id"] for x in rows]
    steps, ev = [], []
    for _ in range(r.randint(1, 6)):
        k = r.choice(["unit", "method", "repo", "threshold", "path_pattern", "old", "new", "pallet", "extrinsic", "ignore_errors", "git_pull"])
        if k in ("unit", "method", "repo"):
            v = r.choice({"unit": UNITS, "method": METHODS, "repo": ["polkadot-sdk", "substrate"]}[k])
            steps.append({"do": "select", "id": "select_" + k, "value": v})
        elif k in ("ignore_errors", "git_pull"):
            v = r.choice(["true", "false"])
            steps.append({"do": "check", "id": "checkbox_" + k, "value": v == "true"})
        else:
            v = r.choice(BRANCHES + ["", "10", "**/*.rs", "^a|b$", "\\d+", "a,b/c*", ".*"])
            steps.append({"do": "type", "id": "input_" + k, "value": v})
        ev.append({"do": "set", "key": k, "value": v})
    anchor = r.choice(ids) if ids and r.random() < 0.4 else ""
    return ({"page": "table%d" % i, "url": q + ("#" + anchor if anchor else ""), "server": {}, "steps": steps}, ev,
            {"query": [list(x) for x in urllib.parse.parse_qsl(q.split("?")[1], keep_blank_values=True)], "anchor": anchor, "rows": rows})


def pages(site, r):
    """The pages of a real service, and the links of the result pages."""
    out, links = {}, []
    for k, u in (("start", "/"), ("mrs", "/compare-mr")):
        st, out[k] = site.get(u)
        if st != 200:
            raise ToolError("no page %s: %d" % (u, st))
    for i in range(4):
        ps = [("repo", r.choice(["polkadot-sdk", "substrate"])), ("old", "main"), ("new", r.choice(["main", "a+b", "x#1"])),
              ("path_pattern", "**/*.rs"), ("ignore_errors", r.choice(["true", "false"])), ("threshold", r.choice(["0", "10"])),
              ("unit", r.choice(UNITS)), ("method", r.choice(METHODS))]
        for k, v in (("pallet", r.choice([".*", "w", "a b|c&d|"])), ("extrinsic", ".*"), ("git_pull", "false")):
            if k == "git_pull" or r.random() < 0.5:
                ps.append((k, v))
        u = query(ps)
        st, out["table%d" % i] = site.get(u)
        if st != 200:
            raise ToolError("no page %s: %d" % (u, st))
        links.append(u)
    return out, links


def record(chk, d, count, part):
    r = core.rng("C29-%d" % part)
    site = Site(d + "/site", names=["polkadot-sdk", "substrate"])
    body = ("impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T> {\n"
            "\tfn f() -> Weight {\n\t\tWeight::from_parts(%d, 3)\n\t}\n\tfn g() -> Weight {\n\t\tWeight::from_parts(%d, 4)\n\t}\n}\n")
    for i in range(2):
        site.create(i, [("main", ":%d" % k if k else None, {n: body % v for n, v in fs.items()}) for k, fs in enumerate(TREES)],
                    {"main": 1, "a+b": 2, "x#1": 2})
    site.start()
    try:
        html, links = pages(site, r)
    finally:
        site.stop()
    # The other repositories of the start page are only known to the stand-in for the service.
    html["start"] = add_options(html["start"], [n for n in REPOS if n not in site.names])
    scripts = {}
    for base, _, fs in os.walk(REPO + "/web/static"):
        for f in fs:
            if f.endswith((".js", ".mjs")):
                p = os.path.join(base, f)
                with open(p) as fh:
                    scripts["/static/" + os.path.relpath(p, REPO + "/web/static")] = fh.read()
    cases = []
    for _ in range(count):
        x = r.random()
        if x < 0.5:
            c, ev = start_case(r)
            kind, first = "start", {}
        elif x < 0.8:
            c, ev, first = mrs_case(r)
            kind = "mrs"
        else:
            i = r.randrange(len(links))
            c, ev, first = table_case(r, i, links[i], page_rows(html["table%d" % i], links[i]))
            kind = "table"
        c["url"] = "http://swc.test" + c["url"]
        cases.append((kind, c, ev, first))
    size = (count + 7) // 8
    parts = [cases[i:i + size] for i in range(0, count, size)]

    def node(k):
        inp, out = "%s/in%d" % (d, k), "%s/out%d" % (d, k)
        with open(inp, "w") as fh:
            fh.write(json.dumps({"html": html, "scripts": scripts}) + "\n")
            for _, c, _, _ in parts[k]:
                fh.write(json.dumps(c) + "\n")
        p = subprocess.run(["node", "--no-warnings", "--experimental-vm-modules", VERIF + "/tools/front/run.mjs", inp, out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=600, cwd=d)
        if p.returncode:
            raise ToolError("the pages cannot be run: " + p.stdout[-2000:])
        with open(out) as fh:
            return [json.loads(x) for x in fh]
    with ThreadPoolExecutor(8) as ex:
        got = [x for xs in ex.map(node, range(len(parts))) for x in xs]
    events, where = [], []
    for n, ((kind, c, ev, first), g) in enumerate(zip(cases, got)):
        waiting, left = 0, False
        for step, e, o in zip([{}] + c["steps"], [dict(first, do="open")] + ev, g["obs"]):
            e = dict(e, kind=kind, presets=g["presets"], options=e.get("options") or first.get("options", []), see=o)
            o.setdefault("missing", False)
            # (Whoever is led away has left the page.)
            if left and e["do"] != "reload":
                continue
            left = bool(o["navs"])
            if e["do"] == "answer":
                # (Perhaps there is nothing left to answer.)
                if not waiting:
                    continue
                e.update(ok=o["ok"], names=o["names"], i=step["i"] % waiting + 1)
            if e["do"] == "pick":
                # (A branch that is not offered cannot be picked.)
                if o["missing"]:
                    continue
                e["branch"] = step["value"]
            waiting = len(o["pending"])
            events.append(e)
            where.append(n)
    return cases, got, events, where


def add_options(html, names):
    i = html.index("</option>", html.index('id="repoSelect"')) + len("</option>")
    return html[:i] + "".join('<option value="%s">%s</option>' % ((n.replace("&", "&amp;"),) * 2) for n in names) + html[i:]


def run(chk, d, count):
    for b in range(0, count, 4000):
        if not chk.violations:
            sub = "%s/%d" % (d, b)
            os.makedirs(sub + "/site")
            batch(chk, sub, min(4000, count - b), b)


def batch(chk, d, count, part):
    cases, got, events, where = record(chk, d, count, part)
    for e in events:
        chk.count("steps_" + e["do"])
        chk.count("links_followed", len(e["see"]["navs"]))
    chk.count("visits", len(cases))
    core.validate(chk, events, d, "front", lambda i: {"visit": cases[where[i]], "observed": got[where[i]], "step": events[i]}, module="FrontTrace")
    chk.sample({"visit": cases[0][1]["steps"], "observed": got[0]["obs"][-1]})


def model(chk, d):
    """The start page with answers in any order; the flawed page must be found to be flawed."""
    k = 3 if THOROUGH else 2
    text = ('SPECIFICATION Spec\nCONSTANTS Repos = {"a", "b"}\nMaxVersion = %d\nMaxWait = %d\nEager = %s\nINVARIANT Right\nINVARIANT Consistent\n'
            'CHECK_DEADLOCK FALSE\n')
    res = tlc("FrontMC", text % (k, k + 1, "FALSE"), d, name="front")
    if res.violated:
        raise ToolError("the model of the start page is wrong:\n" + res.out[-2000:])
    chk.add_tlc(res)
    if not tlc("FrontMC", text % (2, 2, "TRUE"), d, name="front-eager").violated:
        raise ToolError("the flawed model of the start page is not found to be flawed")
