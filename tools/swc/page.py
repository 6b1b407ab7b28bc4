"""The result page of the web service (C24)."""
import html
import os
import re
import urllib.parse
from concurrent.futures import ThreadPoolExecutor

from . import core, enc, gen
from .common import ToolError, drive
from .web import Page, Site, query

FUNNY = ['a<b>&"c\'%s', "x#1_%s", "50%%_%s", "ümlaut_%s", "a b %s", "q?%s", "{{}}%s", "<script>alert(1)</script>_%s".replace("/", ""),
         "%%20%s", "&amp;_%s", "x;y=%s", "a+b_%s", "#%s", "]]>%s", "%s", "--%s", "``%s", "$%s", "()%s"]
BRANCHES = ['x<b>&"c\'', "fix/#12", "100%", "größe", "a&b", "&lt;i&gt;", "x;y", "</td></tr>", "it's", "a+b", "%41", "</script>", "$(x)", "a=b", "x-->", "!"]
BAD = ["zz_bad.rs", "aa_bad.rs"]
VAR = re.compile(r"^(.*?) = (?:Scalar\((\d+)\)|(.*))$")


def many_files(r, n):
    """As many weight files as a large repository has; a few are shown."""
    c = core.compare_case(r)
    for s in ("old", "new"):
        c[s] = [("many/w%04d.rs" % i, gen.file([gen.impl([gen.fn("f", gen.call(["Weight", "from_parts"], gen.lit(r.randint(0, 99)), gen.lit(i)))])]))
                for i in range(n)]
    c["p"].update(palf={"k": "sub", "s": "%02d.rs" % r.randint(0, 99)}, extf={"k": "all"}, change=None, threshold=0)
    c.update(ignore=r.random() < 0.5, bad=None)
    return c


def core_many(r):
    while True:
        c = page_case(r, core.many_case(r))
        if sum(len(f["items"][0]["fns"]) for _, f in c["new"]) > 250:
            return c


def page_case(r, c=None):
    x = r.random()
    close = c is None and r.random() < 0.06
    if close:
        c = core.sort_case(r, close=0.6)
    c = c or core.sort_case(r) if c or x < 0.35 else core.compare_case(r, big=r.random() < 0.25) if x < 0.89 else core.many_case(r) if x < 0.9 else core.count_case(r)
    names = {}
    for s in ("old", "new"):
        seen, out = set(), []
        for n, f in c[s]:
            if n not in names:
                d, _, b = n.rpartition("/")
                names[n] = n if r.random() < 0.6 else (d + "/" if d else "") + r.choice(FUNNY) % b
            if names[n] not in seen:
                out.append((names[n], f))
            seen.add(names[n])
        c[s] = sorted(out, key=lambda x: x[0].encode())
    p = c["p"]
    p["change"] = None
    p["threshold"] = r.choice([0, 0, 0, 1, 2, 5, 10, 25, 50, 100, 1000, 4294967295])
    if close:
        p["threshold"] = 0
    c["ignore"] = r.random() < 0.5
    c["bad"] = r.choice(["old", "new", "both"]) if r.random() < 0.1 else None
    return c


def number(s):
    """A sort key as (neg, limbs)."""
    if s is None or not re.fullmatch(r"-?\d+", s.strip()):
        return True, [9999] * 12
    v = int(s)
    return v < 0, enc.limbs(abs(v))


def cell(c):
    neg, key = number(c["order"])
    color = ""
    for st in c["style"]:
        m = re.search(r"color:\s*(\w+)", st or "")
        color = m.group(1) if m else color
    return {"t": c["text"].strip(), "color": color, "neg": neg, "key": key}


def equation(c):
    t = c["text"].strip()
    link = frag = ""
    if c["links"]:
        t = re.sub(r"^CODE\s*", "", t)
        u = urllib.parse.urlsplit(c["links"][0] or "")
        link = urllib.parse.unquote(u.path) if (u.scheme, u.netloc) == ("https", "github.com") and not u.query else "?" + str(c["links"])
        link = re.sub(r"\s+", " ", link)
        frag = urllib.parse.unquote(u.fragment)
    return {"t": t, "link": link, "frag": frag}


def shown(status, body):
    pg = Page(body) if status == 200 else None
    out = {"status": status, "rows": [], "errors": [], "nerr": "", "warnings": [], "nwarn": ""}
    if not pg:
        return out
    for r in pg.body():
        c = r["cells"]
        if len(c) != 9:
            out["rows"].append({"file": "?%d cells" % len(c), "name": "?"})
            continue
        vs = []
        for x in c[8]["text"].strip().split(", "):
            m = VAR.match(x.strip())
            vs.append({"n": m.group(1), "t": m.group(2) or m.group(3)} if m else {"n": x, "t": "?"})
        name = re.sub(r"\s*🔗\s*$", "", c[1]["text"].strip())
        out["rows"].append({"file": c[0]["text"].strip(), "name": name, "id": r["id"] or "", "anchor": (c[1]["links"] + [""])[0],
                            "warn": "text-warning" in (c[1]["class"] or ""), "old": cell(c[2]), "new": cell(c[3]), "rel": cell(c[4]),
                            "abs": cell(c[5]), "oldeq": equation(c[6]), "neweq": equation(c[7]), "vars": vs})
    lines = lambda xs: [x.strip() for x in xs if x.strip()]
    out["errors"], out["warnings"] = lines(pg.errors), lines(pg.warnings)
    for b in pg.buttons:
        m = re.match(r"^\s*(\d+)\s+(errors|warnings)", b or "")
        if m:
            out["nerr" if m.group(2) == "errors" else "nwarn"] = m.group(1)
    i = pg.inputs
    out["echo"] = [str(x) for x in ((i.get("select_repo") or ["?"])[0], i.get("input_old"), i.get("input_new"), i.get("input_path_pattern"),
                                    i.get("input_pallet"), i.get("input_extrinsic"), i.get("input_threshold"),
                                    (i.get("select_unit") or ["?"])[0], (i.get("select_method") or ["?"])[0],
                                    i.get("checkbox_ignore_errors"), i.get("checkbox_git_pull"))]
    return out


def batch(d, cases, texts, seed):
    """The pages of these comparisons, from one real service."""
    r = core.rng("page/%s" % seed)
    site = Site(d, 1, names=["swc-repo"])
    commits, refs = [("main", None, {"x": "-"})], {"main": 1}
    plans = []
    for c, t in zip(cases, texts):
        rev = {}
        for s in ("old", "new"):
            fs = {n: x for (n, _), x in zip(c[s], t[s])}
            fs["notes.txt"] = "-"
            if c["bad"] in (s, "both"):
                fs[BAD[len(commits) % 2]] = "impl { fn"
            commits.append(("main", ":1", fs))
            rev[s] = len(commits)
            if r.random() < 0.4:
                # (A folder and a branch cannot have the same name, and names must be new.)
                b = r.choice(BRANCHES) + "-%d" % len(commits) if r.random() < 0.9 else "b%d" % len(commits)
                refs[b] = len(commits)
                rev[s] = b
        plans.append(rev)
    refs["main"] = len(commits)
    shas = site.create(0, commits, refs)
    out = []
    site.start()
    try:
        for c, rev in zip(cases, plans):
            p, a = c["p"], {"org": "org1", "repo": "swc-repo", "ignore": c["ignore"]}
            for s in ("old", "new"):
                a[s] = rev[s] if isinstance(rev[s], str) else shas[rev[s] - 1]
            pal, ext = core.regex(p["palf"]), core.regex(p["extf"])
            if pal is None and r.random() < 0.3:
                pal = r.choice([".*", '|<b>"\'&amp;', "|</td><script>", "[^/]*|&lt;"])
            if ext is None and r.random() < 0.3:
                ext = r.choice([".*", "|<i>&'", '|"><p>'])
            q = [("repo", a["repo"]), ("old", html.escape(a["old"])), ("new", html.escape(a["new"])), ("path_pattern", "**/*.rs"),
                 ("ignore_errors", str(c["ignore"]).lower()), ("threshold", p["threshold"]), ("unit", p["unit"]), ("method", p["method"]),
                 ("git_pull", "false")]
            q += [(k, v) for k, v in (("pallet", pal), ("extrinsic", ext)) if v is not None]
            url = query(q)
            st, body = site.get(url)
            page = shown(st, body)
            page["raw"] = [a["repo"], a["old"], a["new"], "**/*.rs", pal or ".*", ext or ".*", str(p["threshold"]), p["unit"], p["method"],
                           str(c["ignore"]), "False"]
            page.setdefault("echo", page["raw"])
            out.append((a, page, url, body))
            if st == 0 and site.proc.poll() is not None:
                site.start()
    finally:
        site.stop()
    return out


def run(chk, d, count, part=0):
    r = core.rng("page-%d" % part)
    rnd = gen.Render(r)
    cases, ops, texts = [], [], []
    for i in range(count):
        c = many_files(r, r.randint(*{count // 3: (250, 350), count // 2: (650, 1000)}[i])) if part == 0 and i in (count // 3, count // 2) else core_many(r) if part == 0 and i in (count // 5, count // 7) else page_case(r)
        o = core.op_of(c, rnd)
        cases.append(c)
        ops.append(o)
        texts.append({s: [x["content"] for x in o[s]] for s in ("old", "new")})
    obs = drive(ops, d, name="page")
    size = max(1, min(50, count // 8))
    parts = [list(range(i, min(i + size, count))) for i in range(0, count, size)]
    os.makedirs(d + "/sites")
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda x: batch("%s/sites/%d" % (d, x[0]), [cases[i] for i in x[1]], [texts[i] for i in x[1]], "%d-%d" % (part, x[0])),
                           enumerate(parts)))
    outs = [x for o in outs for x in o]
    events = []
    for c, x, (a, page, url, body) in zip(cases, obs, outs):
        e = core.event_of(c, x, r)
        e.update(op="web", args=a, badfiles=BAD if c["bad"] else [], page=page)
        e["res"]["terms"] = [{"old": [] if y.get("old_f") is None else [y["old_f"]],
                              "new": [] if y.get("new_f") is None else [y["new_f"]]} for y in x.get("ok", {}).get("diff", [])]
        chk.count("pages")
        chk.count("page_rows", len(page["rows"]))
        chk.count("page_errors", len(page["errors"]))
        chk.count("page_warnings", len(page["warnings"]))
        chk.count("error_pages", page["status"] == 500)
        events.append(e)
    core.validate(chk, events, d, "page", lambda i: {"url": outs[i][2], "op": ops[i], "page": outs[i][3], "seen": events[i]["page"]})
    chk.sample({"url": outs[0][2], "page": outs[0][1]})
