"""Which files a path pattern selects (C19)."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from . import cli, core
from .common import ToolError, binary, drive
from .gitrepo import GIT

NAMES = ["w.rs", "a.rs", "mod.rs", "amod.rs", "x.rs", "balances.rs", "balances_weights.rs", "weights.rs", "W.RS", ".hidden.rs", "x.txt",
         "a b.rs", "ü.rs", "[x].rs", "a,b.rs", "*.rs", "-x.rs", "w.rs.rs", "x", "a?.rs", "!a.rs", "].rs", "b-c.rs", " s.rs", "t.rs "]
DIRS = ["docs", "weights", "pallets", "src", ".github", ".gitx", "a", "b.rs", "mod.rs", "x y", "[d]", "runtime", "deep", "ö"]
OK = "impl<T> W for WeightInfo<T> { fn f() -> Weight { Weight::from_parts(%d, 0) } }\n"
BROKEN = "impl<T> W for WeightInfo<T> { fn f() -> Weight {\n"
REPO_NAMES = ["repo", "repo", "re[po]", "r*", "r?po", "[!r]", "a b", "mod.rs", "re{p,o}", "répo", "-r"]


def rel_paths(r, n):
    """Paths of files, no one of which is a folder of another one."""
    out, dirs, files = [], {()}, set()
    while len(out) < n:
        d = tuple(r.choice(DIRS) for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3])))
        p = d + (r.choice(NAMES),)
        pre = {p[:k] for k in range(1, len(p))}
        if p in files or p in dirs or pre & files:
            continue
        out.append("/".join(p))
        files.add(p)
        dirs |= pre
    return out


def tree(r, used, ids):
    """The entries of a tree: path -> (mode, content)."""
    t = {}
    for p in used:
        if r.random() < 0.8:
            bad = p.endswith("mod.rs") or r.random() < 0.05
            t[p] = ("100644", BROKEN if bad else OK % next(ids))
    return t


def add_links(r, t):
    tops = {p.split("/")[0] for p in t}

    def put(name, target):
        if name not in t and name.split("/")[0] not in tops:
            t[name] = ("120000", target)
    files = sorted(p for p, (m, _) in t.items() if m == "100644")
    dirs = sorted({p.rsplit("/", 1)[0] for p in files if "/" in p})
    if files and r.random() < 0.4:
        put("link.rs", r.choice(files))
    if dirs and r.random() < 0.4:
        put("linkdir", r.choice(dirs))
    if r.random() < 0.4:
        put("out.rs", r.choice(["../secret.rs", "%(abs)s/secret.rs", "../outside/o.rs", "../%(name)s2/s.rs"]))
    if r.random() < 0.4:
        put("outdir", r.choice(["../outside", "%(abs)s/outside", "../%(name)s2"]) if r.random() < 0.8 else "../outside/deep")
    if r.random() < 0.15:
        put("sub/out.rs", "../../secret.rs")


def classify(r, c):
    x = r.random()
    return "[%s]" % c if x < 0.4 else "[%s-%s]" % (chr(max(1, ord(c) - r.randint(0, 2))), chr(ord(c) + r.randint(0, 2))) if x < 0.7 \
        else "[!%s]" % r.choice("xyz0") if x < 0.85 else "[q%s]" % c


def glob_of(r, p):
    """A glob that was made from a path, and mostly selects it."""
    out = []
    comps = p.split("/")
    for i, c in enumerate(comps):
        x = r.random()
        if x < 0.35:
            c = "".join("[%s]" % y if y in "[]*?" else y for y in c) if r.random() < 0.9 else c
        elif x < 0.55:
            c = "*" + ("." + c.rsplit(".", 1)[1] if "." in c[1:] and r.random() < 0.8 else "")
        elif x < 0.7:
            k = r.randrange(len(c))
            c = c[:k] + "?" + c[k + 1:]
        elif x < 0.85:
            k = r.randrange(len(c))
            c = c[:k] + (classify(r, c[k]) if c[k] not in "[]!-*?/," else "?") + c[k + 1:]
        else:
            k, m = sorted(r.sample(range(len(c) + 1), 2))
            c = c[:k] + "*" + c[m:]
        # No "**" inside of a name, that is made on purpose below.
        while "**" in c:
            c = c.replace("**", "*")
        out.append(c)
    x = r.random()
    if len(out) > 1 and x < 0.25:
        k, m = sorted(r.sample(range(len(out)), 2))
        out[k:m] = ["**"]
    elif x < 0.35:
        out = ["**"] * r.choice([1, 1, 2]) + out
    elif x < 0.4:
        out.insert(len(out) - 1, "**")
    if r.random() < 0.06 and "**" not in out:
        out.insert(r.randrange(len(out)), r.choice(["", ".", ""]))
    return "/".join(out)


ODD = ["", "/", ".", "*", "**", "**/*", "*.rs", "**/*.rs", "*/*.rs", "*/*", "**/", "docs/", "docs", "*/", ".*", ".*/*.rs", ".?/*.rs",
       "**/mod.rs", "mod.rs", "**/*mod.rs", ".git/**/*", ".git/*", ".git*/*.rs", "/etc/passwd", "/*.rs", "/w.rs", "./w.rs", "./**/*.rs",
       "?.rs", "**/?.rs", "[a-z].rs", "[!a].rs", "**/[!m]*.rs", "linkdir/*.rs", "outdir/*.rs", "outdir/**/*.rs", "**/o*.rs", "out.rs",
       "*/out.rs", "**/**/*.rs", "*/**/*.rs", "docs/**/*.rs", "[]].rs", "[!]]*.rs", "[]-].rs", "*[.]rs", "[.]*.rs", "a//w.rs", "~/*.rs",
       "$HOME/*.rs", ".[!.]*/*.rs", ".[.]/secret.rs", "outdir/secret.rs", "outdir/*/*.rs", "*.RS", "W.RS", "{w,a}.rs", "link*", "-x.rs",
       "--help", "w.rs/*", "w.rs/", "**/w.rs/**", " s.rs", " *.rs", "*.rs ", " ", "**/ *"]
INVALID = ["[", "[a", "a**", "**a", "***", "a/**b/c", "[]", "[!]", "docs/[", "[a/b].rs", "**/***", "x**/y", "[a,b].rs", "w.rs,[", "***/w.rs"]
DOTS = ["../secret.rs", "..", "docs/../w.rs", "*/..", "a..rs", "../*.rs", "w.rs,../secret.rs", "...", "docs/..,w.rs", ".././secret.rs"]


def pattern(r, ps):
    x = r.random()
    if x < 0.05:
        return r.choice(INVALID)
    if x < 0.1:
        return r.choice(DOTS)
    return ",".join(r.choice(ODD) if r.random() < 0.35 else glob_of(r, r.choice(ps)) for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])))


def git(cwd, *args, inp=None, env=None):
    p = subprocess.run([GIT, *args], cwd=cwd, env=env, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        raise ToolError("git %s: %s" % (args, p.stderr))
    return p.stdout.decode()


def visible(root):
    """All files that can be reached from root: path -> (inside, text)."""
    out, real = {}, os.path.realpath(root)
    for d, ds, fs in os.walk(root, followlinks=True):
        ds[:] = [x for x in ds if not (d == root and x == ".git")]
        for f in fs:
            p = os.path.join(d, f)
            try:
                with open(p) as fh:
                    text = fh.read()
            except (OSError, UnicodeDecodeError):
                raise ToolError("unexpected file " + p)
            q = os.path.realpath(p)
            out[os.path.relpath(p, root)] = (q.startswith(real + "/"), text)
    return out


def world(i, d, n, prop):
    """A repository with two commits, and comparisons with several patterns."""
    r = core.rng("paths/%s/%d" % (prop, i))
    base = os.path.join(d, "w%d" % i)
    name = r.choice(REPO_NAMES)
    root = os.path.join(base, name)
    os.makedirs(root)
    os.makedirs(base + "/home")
    ids = iter(range(1, 10**6))
    env = {"PATH": "/usr/bin:/bin", "HOME": base + "/home", "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8", "RUST_LOG": "off"}
    ps = rel_paths(r, r.choice([2, 5, 9, 14]))
    many = i % 40 == 7
    if many:
        ps += ["many/x%04d.rs" % k for k in range(1300 if i % 80 == 7 else r.choice([40, 130, 300]))]
        n = 6
    # Files outside of the repository.  Reading one of them is an error or shows up.
    for p in ("secret.rs", "outside/o.rs", "outside/deep/p.rs", name + "2/s.rs", name + "2.rs"):
        p = os.path.join(base, p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fh:
            fh.write(r.choice([BROKEN, OK % next(ids)]))
    git(root, "init", "-q", "-b", "main", env=env)
    stream, shas = [], []
    for k in (1, 2):
        t = tree(r, ps, ids)
        if r.random() < 0.6:
            add_links(r, t)
        stream.append(b"commit refs/heads/main\nmark :%d\ncommitter a <a@x> %d +0000\ndata 1\nc\ndeleteall\n" % (k, 1600000000 + k))
        for p, (mode, c) in sorted(t.items()):
            if mode == "120000":
                c = c % {"abs": base, "name": name}
            q = '"%s"' % "".join("\\%03o" % b for b in p.encode())
            stream.append(b"M %s inline %s\ndata %d\n%s\n" % (mode.encode(), q.encode(), len(c.encode()), c.encode()))
        stream.append(b"get-mark :%d\n" % k)
    out = git(root, "fast-import", "--quiet", inp=b"".join(stream), env=env)
    shas = out.split()
    # Refs named like weight files must not be found in .git.
    git(root, "tag", "w.rs", env=env)
    trees, seen = [], {}
    for s in shas:
        git(root, "reset", "-q", "--hard", s, env=env)
        trees.append(visible(root))
    index = {p: k + 1 for k, p in enumerate(sorted(set(trees[0]) | set(trees[1])))}
    names = sorted(index, key=index.get)

    def enc_tree(t):
        out = []
        for p, (inside, text) in sorted(t.items()):
            m = cli.re.fullmatch(cli.re.escape(OK).replace("%d", r"(\d+)"), text)
            out.append({"i": index[p], "inside": inside, "ok": bool(m), "v": int(m.group(1)) if m else 0})
        return out
    ops, pats = [], []
    cwd, where = r.choice([(base, root), (base, name), (root, "."), (base, "./" + name), (base, root + "/"), (base, "lnk")])
    if where == "lnk":
        os.symlink(name, base + "/lnk")
    for _ in range(n):
        pat = r.choice(["many/*.rs", "**/*.rs", "many/x*.rs,*.rs", "**/x?[0-8]*.rs"]) if many else pattern(r, names or ps)
        total = max(len(t) for t in trees)
        ops.append({"op": "commits", "repo": where, "old_ref": shas[0], "new_ref": shas[1], "path_pattern": pat,
                    "max_files": r.choice([10000, 10000, total, 100, 1000] if many else [1000, 1000, 1000, 0, 1, 2, 3, 4, total]), "method": "base", "unit": "time",
                    "ignore_errors": r.random() < (0.8 if many else 0.5), "git_pull": False, "git_force": r.random() < 0.5, "offline": True})
    inp, outp = base + "/in", base + "/out"
    with open(inp, "w") as fh:
        fh.writelines(json.dumps(o) + "\n" for o in ops)
    p = subprocess.run([binary("swc-driver"), inp, outp], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise ToolError("driver: %s" % p.stderr[-500:])
    with open(outp) as fh:
        obs = [json.loads(x) for x in fh]
    events = []
    pts = lambda s: [ord(c) for c in s]
    for o, x in zip(ops, obs):
        rows = []
        for y in x.get("ok", {}).get("diff", []):
            val = lambda v: int(v) if v is not None else 0
            k = index.get(y["file"].replace("/./", "/"), 0) if y["name"] == "f" and y["kind"] == "ok" else 0
            rows.append([k, val(y.get("old_v")), val(y.get("new_v"))])
        events.append({"pat": pts(o["path_pattern"]), "paths": [[pts(c) for c in p.split("/")] for p in names],
                       "old": enc_tree(trees[0]), "new": enc_tree(trees[1]), "max": o["max_files"], "ignore": o["ignore_errors"],
                       "res": {"err": "ok" not in x, "rows": rows,
                               "named": [index[p] for p in names if p in str(x.get("err", ""))]}})
    return ops, obs, events, [sorted(t) for t in trees]


def run(chk, d, count):
    per = 15
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda i: world(i, d, per, chk.prop), range(count)))
    flat = [(o, x, e, w[3]) for w in outs for o, x, e in zip(w[0], w[1], w[2])]
    for b in range(0, len(flat), 8000):
        part = flat[b:b + 8000]
        core.validate(chk, [e for _, _, e, _ in part], d, "paths%d" % b,
                      lambda i: {"op": part[i][0], "observed": part[i][1], "trees": part[i][3]}, module="PathTrace")
    for o, x, e, _ in flat:
        chk.count("errors" if e["res"]["err"] else "comparisons")
        chk.count("files_compared", len(e["res"]["rows"]))
    chk.sample({"pattern": flat[0][0]["path_pattern"], "trees": flat[0][3]})
