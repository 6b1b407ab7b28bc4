"""Runs of the command line program (C11, C12, C16)."""
import csv
import io
import os
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import core, enc, gen
from .common import ToolError, binary, drive

ANSI = re.compile(r"\x1b\[(\d+)m(.*?)\x1b\[0m")
COLORS = {"31": "red", "32": "green", "37": "white"}
VAR = re.compile(r'"([^"]*)": Scalar\((\d+)\)')

CELLS = re.compile(r"(?<!\\)\|")      # what separates cells; a pipe inside of one is escaped


def any_case(r, s):
    x = r.random()
    return s if x < 0.7 else s.upper() if x < 0.85 else s.title()


def cli_case(r):
    """A comparison and the command line for it."""
    x = r.random()
    c = core.sort_case(r) if x < 0.4 else core.compare_case(r) if x < 0.89 else core.many_case(r) if x < 0.9 else core.count_case(r)
    form = any_case(r, r.choice(["human", "human", "markdown", "csv", "csv"]))
    # File names are those of files in one folder. (Without a pipe in tables that cannot escape it.)
    odd = ["x,%s", '"%s"', "%s,", "a b %s", "ümlaut_%s", "%s.txt"] + (["a|%s", "%s|", "|%s|b"] * 2 if form.lower() != "human" else [])
    names = {}
    for s in ("old", "new"):
        seen, out = set(), []
        for n, f in c[s]:
            n = n.rsplit("/", 1)[-1]
            if n not in names:
                names[n] = n if r.random() < 0.85 else r.choice(odd) % n
            n = names[n]
            if n not in seen:
                out.append((n, f))
            seen.add(n)
        c[s] = out
    p = c["p"]
    a = {"method": any_case(r, p["method"]), "unit": any_case(r, p["unit"]),
         "format": form,
         "change": [any_case(r, x) for x in p["change"] or []], "thrOk": True, "thr": repr(p["threshold"]),
         "palf": p["palf"], "extf": p["extf"], "terms": r.random() < 0.4, "noColor": r.random() < 0.5,
         "strip": {"k": "none"}, "ignore": r.random() < 0.3, "verbose": r.random() < 0.1}
    if r.random() < 0.3:
        a["strip"] = r.choice([{"k": "lit", "s": "pallet_"}, {"k": "lit", "s": "a"}, {"k": "pre", "s": "pallet"},
                               {"k": "pre", "s": "a"}, {"k": "upto", "s": "_"}, {"k": "upto", "s": "t"}])
    if r.random() < 0.1:
        x = r.randrange(8)
        if x == 0:
            a["method"] = r.choice(["worst", "exact", "guessworst", ""])
        elif x == 1:
            a["unit"] = r.choice(["weight", "size", "tim"])
        elif x in (2, 3):
            a["format"] = r.choice(["json", "brief-human", "xml", "JSON"])
        elif x == 4:
            a["change"] = a["change"] + [r.choice(["all", "modified", "add"])]
        elif x == 5:
            a["thrOk"], a["thr"] = False, r.choice(["abc", "5%", "1,5"])
        elif x == 6:
            a["palf"] = {"k": "bad", "s": r.choice(["(", "[a", "*a", "a{2"][:3])}
        else:
            a["extf"] = {"k": "bad", "s": r.choice(["(", "[a", "*a"])}
    c["args"] = a
    c["bad"] = []
    if r.random() < 0.12:
        for _ in range(r.choice([1, 1, 2])):
            c["bad"].append((r.choice(["old", "new"]), "bad%d.rs" % len(c["bad"]), r.choice(["missing", "syntax", "folder", "binary"])))
    return c


def regex(p):
    return p["s"] if p["k"] == "bad" else core.regex(p)


def git(d, *args):
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x",
           "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x"}
    p = subprocess.run(["/usr/bin/git", *args], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ToolError("git %s: %s" % (args, p.stderr))
    return p.stdout.decode().strip()


def command(c, base, texts, r):
    a = c["args"]
    os.makedirs(base)
    cmd = [binary("subweight")]
    if a["verbose"]:
        cmd.append("--verbose")
    # (The reports of commits are the same as those of files.)
    commits = r.random() < 0.3 and all(c[s] or any(x == s and k == "syntax" for x, _, k in c["bad"]) for s in ("old", "new")) and \
        all(k in ("syntax", "binary") for _, _, k in c["bad"])
    cmd += ["compare", "commits" if commits else "files"]
    tail = []
    for s in ("old", "new"):
        d = os.path.join(base, s)
        os.makedirs(d)
        paths = []
        for (n, _), t in zip(c[s], texts[s]):
            p = os.path.join(d, n)
            with open(p, "w") as fh:
                fh.write(t)
            paths.append(p)
        for side, n, kind in c["bad"]:
            if side != s:
                continue
            p = os.path.join(d, n)
            if kind == "syntax":
                with open(p, "w") as fh:
                    fh.write("impl { fn }")
            elif kind == "binary":
                with open(p, "wb") as fh:
                    fh.write(b"// \xff\xfe\n")
            elif kind == "folder":
                os.makedirs(p)
            paths.insert(r.randint(0, len(paths)), p)
        tail.append(["--" + s] + paths)
    opts = [["--method", a["method"]], ["--unit", a["unit"]], ["--format", a["format"]], ["--threshold", a["thr"]]]
    if c["p"]["change"] is not None or a["change"]:
        opts.append(["--change"] + a["change"])
    if a["palf"]["k"] != "all":
        opts.append([r.choice(["--pallet", "--file"]), regex(a["palf"])])
    if a["extf"]["k"] != "all":
        opts.append(["--extrinsic", regex(a["extf"])])
    if a["terms"]:
        opts.append(["--print-terms"])
    if a["noColor"]:
        opts.append(["--no-color"])
    if a["ignore"]:
        opts.append(["--ignore-errors"])
    st = a["strip"]
    if st["k"] != "none":
        opts.append(["--strip-path-prefix", {"lit": "%s", "pre": "^%s", "upto": ".*%s"}[st["k"]] % st["s"]])
    if commits:
        repo = os.path.join(base, "repo")
        git(base, "init", "-q", "-b", "main", repo)
        revs = []
        for s, mine in zip(("old", "new"), tail):
            git(repo, "rm", "-q", "-r", "-f", "--ignore-unmatch", ".")
            for p in mine[1:]:
                to = os.path.join(repo, os.path.relpath(p, os.path.join(base, s)))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                shutil.copy(p, to)
            git(repo, "add", "-A")
            git(repo, "commit", "-q", "--allow-empty", "-m", s)
            revs.append(git(repo, "rev-parse", "HEAD"))
        cmd += revs
        tail = [["--repo", repo], ["--path-pattern", "**/*"]]
    opts += tail
    r.shuffle(opts)
    return cmd + [x for o in opts for x in o]


def clean(s):
    """A cell and the colour of its text."""
    m = ANSI.fullmatch(s)
    return (m.group(2), COLORS.get(m.group(1), m.group(1))) if m else (s, "")


def parse_report(status, out, err, fmt, verbose):
    """The report that was printed, as in spec/Report.tla."""
    rep = {"form": "other", "header": [], "rows": [], "err": err[-600:] if status else ""}
    if status != 0:
        if not out.strip():
            rep["form"] = "fail"
        return rep
    if out.strip() == "No changes found." or (verbose and not out.strip()):
        rep["form"] = "empty"
        return rep
    if fmt == "csv":
        try:
            lines = list(csv.reader(io.StringIO(out), strict=True))
        except csv.Error:
            return rep
        lines = [x for x in lines if x]
        form = "csv"
    else:
        lines = []
        for x in out.splitlines():
            if not x.strip() or x[0] == "+" or x.startswith(("|-", "|=")):
                continue
            if not (x.startswith("|") and x.endswith("|")):
                return rep
            # (Every cell is padded with one space on its left.)
            lines.append([y[y.startswith(" "):].rstrip().replace("\\|", "|") for y in CELLS.split(x[1:-1])])
        # A Markdown table is the header, a line of dashes with as many cells, and the rows.
        plain = [x for x in out.splitlines() if x.strip()]
        cut = re.fullmatch(r"(\|:?-+:?)+\|", plain[1].replace(" ", "")) if len(plain) > 1 else None
        form = "table"
        if cut and plain[1].count("|") == len(CELLS.findall(plain[0])) and all(x[0] == "|" and x[1] not in "-=" for x in plain[:1] + plain[2:]):
            form = "markdown"
    if not lines:
        return rep
    rep["form"], rep["header"] = form, lines[0]
    for cells in lines[1:]:
        color = ""
        if len(cells) >= 5:
            cells[4], color = clean(cells[4])
            cells[4] = cells[4].strip()
        vs = []
        if len(cells) == 8:
            vs = [{"n": k, "v": enc.limbs(int(v))} for k, v in VAR.findall(cells[7])]
        rep["rows"].append({"cells": cells, "color": color, "vars": vs})
    return rep


def run(chk, d, count, case=cli_case):
    r = core.rng("cli/" + chk.prop)
    rnd = gen.Render(r)
    cases, ops, cmds = [], [], []
    for i in range(count):
        c = case(r)
        o = core.op_of(c, rnd)
        for k in ("method", "unit"):
            o[k] = c["p"][k]
        texts = {s: [x["content"] for x in o[s]] for s in ("old", "new")}
        cmds.append(command(c, os.path.join(d, "cli%d" % i), texts, r))
        cases.append(c)
        ops.append(o)
    obs = drive(ops, d, name="cli")

    def execute(cmd):
        try:
            p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120,
                               env=dict(os.environ, RUST_LOG="off", RUST_BACKTRACE="0"))
            return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired:
            return None, "", "no answer"
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(execute, cmds))
    events = []
    for c, o, x, (st, out, err) in zip(cases, ops, obs, outs):
        e = core.event_of(c, x, r)
        e["op"] = "cli"
        e["args"] = c["args"]
        e["badfiles"] = [n for _, n, _ in c["bad"]]
        e["rep"] = parse_report(st if st is not None else 99, out, err, c["args"]["format"].lower(), c["args"]["verbose"])
        if st is None:
            e["rep"]["form"] = "other"
        e["res"]["terms"] = [{"old": [] if y.get("old_f") is None else [y["old_f"]],
                              "new": [] if y.get("new_f") is None else [y["new_f"]]} for y in x.get("ok", {}).get("diff", [])]
        chk.count("reports_" + e["rep"]["form"])
        chk.count("report_rows", len(e["rep"]["rows"]))
        events.append(e)
    core.validate(chk, events, d, "cli", lambda i: {"cmd": cmds[i], "op": ops[i], "output": outs[i], "rep": events[i]["rep"]})
    chk.sample({"cmd": cmds[0], "status": outs[0][0], "stdout": outs[0][1][:600]})
