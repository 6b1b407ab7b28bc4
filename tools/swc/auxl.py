"""Cases for the remaining library operations (C12, C14, C15, C17, C26)."""
import json
import os
import re

from . import core, enc, gen
from .common import drive

# ---------------------------------------------------------------------------
# C14

def fmt_values(r, n):
    vals = set(range(0, 30))
    for u in [10**3, 10**6, 10**9, 10**12, 1024, 1024**2, 1024**3, 1024**4, 10**15]:
        for k in (1, 2, 10, 999, 1000, 1023):
            for d in (-2, -1, 0, 1, 2):
                vals.add(max(0, u * k + d))
        for _ in range(n // 60):
            vals.add(u * r.randint(1, 1023) + r.randint(0, u))
            vals.add(r.randint(0, u))
            h = r.randint(100, 99999)
            vals.add(u * h // 100)
            vals.add(u * h // 100 + u // 200 + r.choice([-1, 1]))
    for _ in range(n // 10):
        vals.add(r.randint(0, 2 ** r.randint(1, 128) - 1))
    vals |= {gen.U128, 2**127, 2**64, 2**53}
    vals = sorted(vals)
    r.shuffle(vals)
    return vals[:n]


def fmt(chk, d, count):
    r = core.rng("C14")
    ops = [{"op": "fmt", "unit": u, "v": str(v)} for v in fmt_values(r, count) for u in ("time", "proof")]
    obs = drive(ops, d, name="fmt")
    ev = [{"op": "fmt", "unit": o["unit"], "v": enc.limbs(int(o["v"])),
           "value": x.get("ok", {}).get("value", "panic"), "scalar": x.get("ok", {}).get("scalar", "panic")}
          for o, x in zip(ops, obs)]
    core.validate(chk, ev, d, "fmt", lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")
    chk.sample({"op": ops[0], "observed": obs[0]})
    chk.sample({"op": ops[-1], "observed": obs[-1]})


# ---------------------------------------------------------------------------
# C15: parsing of a printed equation

TOKEN = re.compile(r"\s*(?:(\d+(?:\.\d+)?[KMGT]?)(?![\w.])|([A-Za-z_]\w*(?:::\w+)*)|([()+*]))")


def equation(s):
    """The syntax tree of an equation with the usual precedence, or None."""
    toks, i = [], 0
    s = s.rstrip()
    while i < len(s):
        m = TOKEN.match(s, i)
        if not m:
            return None
        toks.append(m.groups())
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else (None, None, None)

    def summ():
        e = prod()
        while peek()[2] == "+":
            pos[0] += 1
            e = {"k": "add", "l": e, "r": prod()}
        return e

    def prod():
        e = atom()
        while peek()[2] == "*":
            pos[0] += 1
            e = {"k": "mul", "l": e, "r": atom()}
        return e

    def atom():
        num, var, op = peek()
        pos[0] += 1
        if num is not None:
            if "." not in num and num.isdigit():
                return {"k": "int", "v": enc.limbs(int(num))}
            u = num[-1] if num[-1] in "KMGT" else ""
            body = num[:-1] if u else num
            w, _, f = body.partition(".")
            if len(f) != 2:
                raise ValueError(num)
            return {"k": "num", "d": enc.limbs(int(w + f)), "u": u}
        if var is not None:
            return {"k": "var", "n": var}
        if op == "(":
            e = summ()
            if peek()[2] != ")":
                raise ValueError("bracket")
            pos[0] += 1
            return e
        raise ValueError("atom")
    try:
        e = summ()
    except ValueError:
        return None
    return e if pos[0] == len(toks) else None


class SmallGen(gen.ExprGen):
    """Constants that are printed exactly, many zeros and ones."""

    def num(self, kind=None):
        return self.r.choice([0, 0, 0, 1, 1, 1, 2, 3, 5, 9, 50, 120, 999])


def eq_cases(r, count):
    out = []
    for i in range(count):
        comps = r.sample(gen.COMPS[:8], r.choice([1, 2, 3]))
        g = (SmallGen if i % 4 else gen.ExprGen)(r, comps, maxcount=r.choice([3, 30]), wrap=0.1)
        if r.random() < 0.4:
            e = gen.call(["Weight", "from_parts"], deep_scalar(r, g, 4), deep_scalar(r, g, 4))
        elif r.random() < 0.5:
            e = deep_scalar(r, g, 4)
        else:
            e = g.body()
        out.append(e)
    return out


def deep_scalar(r, g, d):
    if d == 0 or r.random() < 0.2:
        return gen.lit(g.num()) if r.random() < 0.5 else g.comp()
    return r.choice([gen.add, gen.mul])(deep_scalar(r, g, d - 1), deep_scalar(r, g, d - 1))


def eq(chk, d, count):
    r = core.rng("C15")
    rnd = gen.Render(r, plain=True)
    exprs = eq_cases(r, count)
    ops = []
    for i, e in enumerate(exprs):
        c = {"old": [("w.rs", gen.file([gen.impl([gen.fn("f", e)])]))], "new": [], "p": {
            "method": "base", "unit": r.choice(["time", "proof"]), "threshold": 0, "change": None,
            "palf": {"k": "all"}, "extf": {"k": "all"}}}
        if i % 2:
            c["old"], c["new"] = c["new"], c["old"]
        ops.append(core.op_of(c, rnd))
    obs = drive(ops, d, name="eq")
    ev, keep = [], []
    for i, (o, x) in enumerate(zip(ops, obs)):
        try:
            row = x["ok"]["diff"][0]
        except (KeyError, IndexError):
            continue        # judged by other properties
        if row["kind"] == "failed":
            continue
        text = row["new_f"] if i % 2 else row["old_f"]
        t = equation(text) if text is not None else None
        ev.append({"op": "eq", "ok": t is not None, "eq": t or {"k": "int", "v": []}, "e": enc.expr(exprs[i]),
                   "unit": o["unit"]})
        keep.append({"op": o, "equation": text})
    chk.count("equations", len(ev))
    core.validate(chk, ev, d, "eq", lambda i: keep[i], module="AuxTrace")
    for k in keep[:3]:
        chk.sample(k["equation"])


# ---------------------------------------------------------------------------
# C17

def db_expr(r, d=2, bad=0.03):
    x = r.random()
    if x < bad:
        return r.choice([gen.paren(gen.lit(5)), {"k": "other"}, {"k": "badlit"}, {"k": "bin", "op": "-", "l": gen.lit(5), "r": gen.lit(3)}])
    if d == 0 or x < 0.4:
        if r.random() < 0.4:
            return gen.path(r.choice(["WEIGHT_PER_NANOS", "constants::WEIGHT_PER_NANOS", "WEIGHT_REF_TIME_PER_NANOS", "constants::WEIGHT_REF_TIME_PER_NANOS"]))
        return gen.lit(gen.number(r))
    return {"k": "bin", "op": r.choice(["*", "*", "+"]), "l": db_expr(r, d - 1, bad), "r": db_expr(r, d - 1, bad)}


def db_macro(r, good=0.7):
    ok = r.random() < good
    fields = [{"n": "read", "e": db_expr(r)}, {"n": "write", "e": db_expr(r)}]
    if r.random() < 0.2:
        fields.reverse()
    c = {"name": r.choice(["RocksDbWeight", "ParityDbWeight"]), "ty": ["RuntimeDbWeight"],
         "v": {"k": "struct", "s": ["RuntimeDbWeight"], "fields": fields}}
    mname, consts = "parameter_types", [c]
    if not ok:
        x = r.randrange(8)
        if x == 0:
            c["name"] = r.choice(["Foo", "BlockExecutionWeight", "rocksDbWeight"])
        elif x == 1:
            c["ty"] = r.choice([["Weight"], ["a", "RuntimeDbWeight"], ["RuntimeDbWeights"]])
        elif x == 2:
            c["v"]["s"] = r.choice([["Foo"], ["x", "RuntimeDbWeight"]])
        elif x == 3:
            fields[0]["n"] = r.choice(["reads", "write", "x"])
        elif x == 4:
            fields.append({"n": "more", "e": gen.lit(5)})
        elif x == 5:
            mname = r.choice(["parameter_type", "foo", "ord_parameter_types"])
        elif x == 6:
            consts.append(dict(c))
        else:
            c["v"] = {"k": "expr", "e": gen.lit(5)}
    return {"k": "macro", "name": mname, "consts": consts}


def over_expr(r):
    """A weight without storage accesses and components, which have no value in such a file."""
    while True:
        e = over_expr_(r)
        if not any('"%s"' % k in json.dumps(e) for k in ("reads", "writes", "reads_writes")) and \
                all(x["n"].endswith("PER_NANOS") for x in gen.nodes(e) if x["k"] == "path"):
            return e


def over_expr_(r):
    x = r.random()
    g = gen.ExprGen(r, [], wrap=0.1)
    if x < 0.5:
        a, b = gen.lit(gen.number(r)), gen.path(r.choice(["WEIGHT_PER_NANOS", "WEIGHT_REF_TIME_PER_NANOS", "constants::WEIGHT_REF_TIME_PER_NANOS"]))
        if r.random() < 0.3:
            a, b = b, a
        if r.random() < 0.1:
            a = gen.paren(a)
        if r.random() < 0.1:
            b = {"k": "bin", "op": "*", "l": gen.lit(2), "r": gen.lit(3)}
            if r.random() < 0.5:
                a, b = b, a
        return {"k": "bin", "op": r.choice("***+-"), "l": a, "r": b}
    if x < 0.75:
        return gen.mul(g.ctor(1), gen.path("WEIGHT_PER_NANOS"))
    if x < 0.95:
        return g.v2(1)
    return r.choice([gen.lit(5), {"k": "other"}, {"k": "badlit"}])


def over_macro(r, good=0.8):
    c = {"name": r.choice(["BlockExecutionWeight", "ExtrinsicBaseWeight"]), "ty": ["Weight"],
         "v": {"k": "expr", "e": over_expr(r)}}
    mname, consts = "parameter_types", [c]
    if r.random() > good:
        x = r.randrange(5)
        if x == 0:
            c["name"] = r.choice(["Foo", "RocksDbWeight"])
        elif x == 1:
            c["ty"] = r.choice([["u64"], ["a", "Weight"]])
        elif x == 2:
            mname = "other_types"
        elif x == 3:
            consts.append(dict(c))
        else:
            c["v"] = {"k": "struct", "s": ["Weight"], "fields": []}
    return {"k": "macro", "name": mname, "consts": consts}


def other_items(r, depth=2):
    items = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        x = r.random()
        if x < 0.3:
            items.append(db_macro(r))
        elif x < 0.6:
            items.append(over_macro(r))
        elif x < 0.8 and depth:
            items.append({"k": "mod", "name": r.choice(["constants", "constants", "constants", "other", "tests"]),
                          "items": other_items(r, depth - 1)})
        elif x < 0.9:
            items.append({"k": "other"})
        else:
            items.append(gen.impl([core.wild_fn(r, "f")], r.choice(core.SELFS)))
    return items


class OtherRender(gen.Render):
    def expr(self, e):
        if e["k"] == "bin":
            return self.expr(e["l"]) + " " + e["op"] + " " + self.expr(e["r"])
        if e["k"] == "other":
            return self.r.choice(['"text"', "foo!(1)", "[1, 2]", "(1, 2)", "!5", "-5", "&5"])
        return super().expr(e)

    def item(self, it):
        r = self.r
        if it["k"] == "mod":
            return (r.choice(["", "pub "]) + "mod %s {\n" % it["name"] + "\n".join(self.item(x) for x in it["items"]) + "\n}")
        if it["k"] == "macro":
            cs = []
            for c in it["consts"]:
                if c["v"]["k"] == "struct":
                    v = "::".join(c["v"]["s"]) + " { " + ", ".join(f"{f['n']}: {self.expr(f['e'])}" for f in c["v"]["fields"]) + \
                        r.choice(["", ","] if c["v"]["fields"] else [""]) + " }"
                else:
                    v = self.expr(c["v"]["e"])
                cs.append(r.choice(["", "/// Doc\n", ""]) + r.choice(["pub ", ""]) + f"const {c['name']}: {'::'.join(c['ty'])} = {v};")
            return r.choice(["", "", "frame_support::"]) + it["name"] + "! {\n" + "\n".join(cs) + "\n}"
        return super().item(it)


def reassoc(e):
    """The tree that Rust's parser builds for the rendered text of a (bracket-free) binary expression."""
    if e["k"] != "bin":
        return e
    toks = []

    def flat(x):
        if x["k"] == "bin":
            flat(x["l"])
            toks.append(x["op"])
            flat(x["r"])
        else:
            toks.append(x)
    flat(e)
    pos = [0]

    def prod():
        a = toks[pos[0]]
        pos[0] += 1
        while pos[0] < len(toks) and toks[pos[0]] == "*":
            pos[0] += 2
            a = {"k": "bin", "op": "*", "l": a, "r": toks[pos[0] - 1]}
        return a

    a = prod()
    while pos[0] < len(toks):
        op = toks[pos[0]]
        pos[0] += 1
        b = prod()
        a = {"k": "bin", "op": op, "l": a, "r": b}
    return a


def enc_expr(e):
    e = reassoc(e)

    def go(x):
        if x["k"] == "bin":
            return {"k": "bin", "op": x["op"], "l": go(x["l"]), "r": go(x["r"])}
        return enc.expr(x)
    return go(e)


def enc_item(it):
    if it["k"] == "mod":
        return {"k": "mod", "name": it["name"], "items": [enc_item(x) for x in it["items"]]}
    if it["k"] == "macro":
        cs = []
        for c in it["consts"]:
            if c["v"]["k"] == "struct":
                v = {"k": "struct", "s": c["v"]["s"], "fields": [{"n": f["n"], "e": enc_expr(f["e"])} for f in c["v"]["fields"]]}
            else:
                v = {"k": "expr", "e": enc_expr(c["v"]["e"])}
            cs.append({"name": c["name"], "ty": c["ty"], "v": v})
        return {"k": "macro", "name": it["name"], "consts": cs}
    return enc.file({"syntax": True, "items": [it]})["items"][0]


def has_other(items):
    """Whether an expression of kind other hides in a binary one (it could change the parse)."""
    for it in items:
        if it["k"] == "mod" and has_other(it["items"]):
            return True
        if it["k"] == "macro":
            for c in it["consts"]:
                es = [f["e"] for f in c["v"]["fields"]] if c["v"]["k"] == "struct" else [c["v"]["e"]]
                for e in es:
                    if e["k"] == "bin" and any(x["k"] == "other" for x in bin_leaves(e)):
                        return True
    return False


def bin_leaves(e):
    return bin_leaves(e["l"]) + bin_leaves(e["r"]) if e["k"] == "bin" else [e]


def weights(w):
    if w["kind"] in ("rocks", "parity"):
        if not all(isinstance(w[k], str) for k in ("read", "write")):
            return {"kind": w["kind"], "read": [-1], "write": [-1]}
        return {"kind": w["kind"], "read": enc.limbs(int(w["read"])), "write": enc.limbs(int(w["write"]))}
    return {"kind": w["kind"], "time": enc.limbs(int(w["time"])) if isinstance(w["time"], str) else [-1],
            "proof": enc.limbs(int(w["proof"])) if isinstance(w["proof"], str) else [-1]}


def others(chk, d, count):
    r = core.rng("C17")
    rnd = OtherRender(r)
    ops, files = [], []
    os.makedirs(os.path.join(d, "repo"), exist_ok=True)
    while len(files) < count:
        items = other_items(r)
        if has_other(items):
            continue
        f = gen.file(items, r.random() > 0.02)
        text = rnd.file(f)
        if "\n#!" in text:
            continue
        i = len(files)
        p = os.path.join(d, "repo", "f%d.rs" % i)
        with open(p, "w") as fh:
            fh.write(text)
        files.append(f)
        ops += [{"op": "storage", "content": text}, {"op": "overhead", "content": text},
                {"op": "detect", "repo": os.path.join(d, "repo"), "path": p}]
    obs = drive(ops, d, name="others")
    ev = []
    for i, (o, x) in enumerate(zip(ops, obs)):
        f = files[i // 3]
        e = {"op": o["op"], "f": {"syntax": f["syntax"], "items": [enc_item(it) for it in f["items"]]}}
        if "panic" in x:
            res = {"tag": "panic"}
        elif "err" in x:
            res = {"tag": "err"}
        elif o["op"] == "detect":
            res = {"tag": x["ok"]["type"]}
            if "exts" in x["ok"]:
                res["names"] = [y["name"] for y in x["ok"]["exts"]]
            if "w" in x["ok"]:
                res["w"] = weights(x["ok"]["w"])
            chk.count("detected_" + res["tag"])
        else:
            res = {"tag": "ok", "w": weights(x["ok"])}
        e["res"] = res
        ev.append(e)
    core.validate(chk, ev, d, "others", lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")
    for i in range(3):
        chk.sample({"op": ops[i], "observed": obs[i]})


# ---------------------------------------------------------------------------
# C26

def det(chk, d, count):
    r = core.rng("C26")
    rnd = gen.Render(r)
    ops, ops2, cases = [], [], []
    while len(cases) < count:
        x = r.random()
        c = core.compare_case(r) if x < 0.5 else core.worst_case(r) if x < 0.6 else core.sort_case(r) if x < 0.75 else core.limit_case(r) if x < 0.758 else core.many_case(r) if x < 0.766 else core.keys_case(r)
        if any(len({n for n, _ in c[s]}) != len(c[s]) for s in ("old", "new")):
            continue        # the order of equally named files may matter
        o = core.op_of(c, rnd)
        p = dict(o)
        p["old"], p["new"] = list(o["old"]), list(o["new"])
        r.shuffle(p["old"])
        r.shuffle(p["new"])
        p["old"].reverse()
        w = dict(o)
        w["old"], w["new"] = o["new"], o["old"]
        cases.append(c)
        ops += [o, o, p, w]
        ops2.append(o)
    obs = drive(ops, d, name="det")
    obs2 = drive(ops2, d, name="det2")
    ev, keep = [], []
    for i, c in enumerate(cases):
        a, b, p, w = obs[4 * i:4 * i + 4]
        o2 = obs2[i]
        if not all("ok" in x for x in (a, b, p, w, o2)):
            # All must fail alike.
            same = all(set(x) == set(a) for x in (b, p, w, o2)) and b == a and o2 == a
            rows, swapped, bad = [], [], [] if same else [0]
            ev.append({"op": "det", "rows": rows, "again": bad, "other": bad, "perm": bad, "swapped": swapped, "n": 0,
                       "method": c["p"]["method"]})
        else:
            def stages(x):
                return x["ok"]["diff"] + [dict(y, stage=s) for s in ("filtered", "sorted") for y in x["ok"][s]]
            full = stages(a)
            ev.append({"op": "det", "rows": [enc.row(x) for x in a["ok"]["diff"]], "n": len(full), "again": enc.positions(full, stages(b)),
                       "other": enc.positions(full, stages(o2)),
                       "perm": enc.positions(full, stages(p)),
                       "swapped": [enc.row(x) for x in w["ok"]["diff"]], "method": c["p"]["method"]})
        keep.append({"op": ops[4 * i], "observed": [a, b, p, w, o2]})
    core.validate(chk, ev, d, "det", lambda i: keep[i], module="AuxTrace")
    chk.count("runs", len(ops) + len(ops2))
    chk.sample(keep[0]["op"])


# ---------------------------------------------------------------------------
# C12

def contain(chk, d, count):
    r = core.rng("C12")
    rnd = gen.Render(r, plain=True)
    ops, cases = [], []
    while len(cases) < count:
        c = core.many_case(r) if len(cases) in (7, 77) else core.sort_case(r) if r.random() < 0.5 else core.compare_case(r)
        if any(len({n for n, _ in c[s]}) != len(c[s]) for s in ("old", "new")):
            continue
        c["p"].update(threshold=0, change=None, palf={"k": "all"}, extf={"k": "all"},
                      method=r.choice(["exact-worst", "exact-asymptotic", "exact-worst", "guess-worst", "base"]))
        if r.random() < 0.15:
            a, b = core.many_components(r, "toomany", 17)
            for s, f in (("old", a), ("new", b)):
                if c[s] and r.random() < 0.8:
                    usable = [i for i in c[s][0][1]["items"] if i["k"] == "impl" and i["self"] in ("WeightInfo", "SubstrateWeight", "()")
                              and all(x["stmts"][0]["e"]["k"] != "other" for x in i["fns"])]
                    usable[0]["fns"].append(f)
        cases.append(c)
        ops.append(core.op_of(c, rnd))
    obs = drive(ops, d, name="contain")
    ops2 = []
    for c, x in zip(cases, obs):
        failed = {(y["file"], y["name"]) for y in x.get("ok", {}).get("diff", []) if y["kind"] == "failed"}

        def strip(fs):
            out = []
            for n, f in fs:
                items = []
                for it in f["items"]:
                    if it["k"] == "impl":
                        it = dict(it, fns=[y for y in it["fns"] if (n, y["name"]) not in failed])
                    items.append(it)
                out.append((n, dict(f, items=items)))
            return out
        # Extraction is all-or-nothing per block: a file without remaining functions is left out.
        c2 = dict(c, old=[x for x in strip(c["old"]) if nonempty(x[1])], new=[x for x in strip(c["new"]) if nonempty(x[1])])
        ops2.append(core.op_of(c2, rnd))
    obs2 = drive(ops2, d, name="contain2")
    ev, keep = [], []
    for c, o, x, y in zip(cases, ops, obs, obs2):
        rows = x.get("ok", {}).get("diff", [])
        out = enc.outcome(x)
        tag = out["tag"] if "ok" in y else "err"
        ev.append({"op": "contain", "old": enc.side(c["old"]), "new": enc.side(c["new"]), "method": c["p"]["method"],
                   "res": {"tag": tag}, "rows": out["rows"],
                   "without": enc.positions(rows, y["ok"]["diff"]) if "ok" in y else []})
        keep.append({"op": o, "observed": [x, y]})
        chk.count("rows", len(rows))
        chk.count("failed_rows", sum(z["kind"] == "failed" for z in rows))
    core.validate(chk, ev, d, "contain", lambda i: keep[i], module="AuxTrace")
    chk.sample(keep[0])


def nonempty(f):
    """Whether the block that is extracted from f still has functions (blocks of other types do not count)."""
    for it in f["items"]:
        if it["k"] == "impl" and it["self"] in ("WeightInfo", "SubstrateWeight", "()"):
            if any(s["k"] != "expr" or s["e"]["k"] == "other" for y in it["fns"] for s in y["stmts"]):
                continue
            return bool(it["fns"])
    return False


def files(chk, d, count):
    r = core.rng("C12f")
    rnd = gen.Render(r)
    ops, lists = [], []
    for i in range(count):
        base = os.path.join(d, "files%d" % i)
        os.makedirs(base)
        fs = []
        repo = r.random() < 0.5
        many = i % 60 == 7
        for k in range(r.choice([70, 140, 270]) if many else r.choice([1, 2, 3, 4])):
            name = "w%d_%d.rs" % (i, k)
            if repo and r.random() < 0.6:
                name = r.choice(["a/%s", "a/b/%s", "r/%s"]) % name
            p = os.path.join(base, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            x = r.random()
            readable = True
            if many and r.random() < 0.97:
                f = gen.file([gen.impl([gen.fn("f", gen.lit(k))])])
            elif x < 0.6:
                f = gen.file([gen.impl([core.ext_pair(r, nm)[0] or gen.fn(nm, gen.lit(5)) for nm in r.sample(NAMES_, 2)])])
            else:
                f = core.parse_case(r)["f"]
            text = rnd.file(f).encode()
            x = r.random() + many * r.choice([0, 0, 1])
            if x < 0.04:
                readable = False                # does not exist
            elif x < 0.08:
                readable = False                # not a file
                os.makedirs(p)
            elif x < 0.12:
                readable = False                # not UTF-8
                with open(p, "wb") as fh:
                    fh.write(text + b"// \xff\xfe\n")
            else:
                with open(p, "wb") as fh:
                    fh.write(text)
            fs.append((name, readable, f, p))
        lists.append(fs)
        ops.append({"op": "parse_files", "paths": [x[3] for x in fs], "ignore_errors": r.random() < 0.5})
        if repo:
            ops[-1]["repo"] = base
    obs = drive(ops, d, name="files")
    ev = []
    for fs, o, x in zip(lists, ops, obs):
        if "panic" in x:
            res = {"tag": "panic", "exts": [], "msg": ""}
        elif "err" in x:
            res = {"tag": "err", "exts": [], "msg": x["err"][:200]}
        else:
            res = {"tag": "ok", "exts": [[y["pallet"], y["name"]] for y in x["ok"]], "msg": ""}
        chk.count("file_lists_" + res["tag"])
        ev.append({"op": "files", "ignore": o["ignore_errors"], "res": res,
                   "files": [{"name": a, "readable": b, "f": enc.file(c)} for a, b, c, _ in fs]})
    core.validate(chk, ev, d, "files", lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")


NAMES_ = core.NAMES


# ---------------------------------------------------------------------------
# Texts that are no specified syntax tree (C04)

WORDS = ["fn", "pub", "impl", "mod", "const", "let", "if", "else", "for", "match", "return", "static", "type", "use", "struct",
         "Weight", "WeightInfo", "SubstrateWeight", "T", "DbWeight", "get", "reads", "writes", "reads_writes", "from_parts",
         "from_ref_time", "from_proof_size", "zero", "saturating_add", "saturating_mul", "into", "as", "u32", "u64", "Self", "self",
         "RocksDbWeight", "ParityDbWeight", "RuntimeDbWeight", "BlockExecutionWeight", "ExtrinsicBaseWeight", "parameter_types",
         "constants", "WEIGHT_PER_NANOS", "WEIGHT_REF_TIME_PER_NANOS", "READ", "WRITE", "saturating_sub", "div",
         "(", ")", "{", "}", "[", "]", "<", ">", "::", ":", ",", ";", ".", "+", "*", "-", "/", "=", "->", "=>", "!", "#", "&", "|", "?",
         "..", "$", "@", "'a", "'", '"', "\\", "0", "1", "1000", "0x10", "0b11", "0o7", "1_000", "1u8", "300u8", "1_u128", "1.5", "1e3", "1.",
         "18446744073709551615", "18446744073709551616", "340282366920938463463374607431768211455",
         "340282366920938463463374607431768211456", "9" * 60, "true", "b'x'", "'x'", '"s"', 'r#"s"#', "b\"s\"", "r#fn", "_", "__", "x",
         "/// The range of component `x` is `[1, 2]`.", "/// The range of component `x` is `[2, 1]`.",
         "/// The range of component `` is `[, ]`.", "/// The range of component `x` is `[99999999999, 1]`.",
         '#[doc = "The range of component `x` is `[0, 5]`."]', "#[doc(hidden)]", "#[doc]", "#[cfg(test)]", "#![allow(x)]",
         "//! The range of component `y` is `[0, 5]`.", "/* */", "/*", "*/", "//", "///", "/** The range of component `z` is `[1, 3]` */",
         "\n", "\r\n", "\t", "\0", "\ufeff", "é", "ẞ", "٣", "x̂", "🦀", "\u202e", "macro_rules! m { () => {} }", "async", "unsafe", "where T: X"]

LEXEME = re.compile(r"\w+|\s+|.", re.S)


def nested(r):
    """Deep, but below the 1000 levels that are specified."""
    n = r.choice([50, 200, 400, 900])
    w = "Weight::from_parts(1, 1)"
    e = r.choice([lambda: "(" * n + w + ")" * n, lambda: w + ".saturating_add(" * n + w + ")" * n,
                  lambda: w + ".saturating_add(%s)" % w * n, lambda: "Weight::from_ref_time(1" + " + 1" * n + ")",
                  lambda: "Weight::from_ref_time(" + "(1 as u64)" * 1 + " as u64" * n + ")", lambda: w + ".into()" * n,
                  lambda: "-" * n + w, lambda: "&" * n + w, lambda: "{" * n + w + "}" * n, lambda: "[" * n + w + "]" * n,
                  lambda: w + ".saturating_mul(" + "(" * n + "x" + ")" * n + ".into())",
                  lambda: "1_000" + "0" * n, lambda: w + "?" * n, lambda: "|x| " * n + w])()
    return "impl WeightInfo for () { %s fn f(x: u32) -> Weight { %s } }" % (
        "/// The range of component `x` is `[0, %s]`.\n" % r.choice(["1", "4294967295", "4294967296", "1" * n]), e)


def damaged(r, text):
    toks = LEXEME.findall(text)
    for _ in range(r.choice([1, 1, 1, 1, 2, 3, 10])):
        if not toks:
            break
        i = r.randrange(len(toks))
        x = r.random()
        if x < 0.25:
            del toks[i]
        elif x < 0.5:
            toks.insert(i, r.choice(WORDS) + r.choice(["", " "]))
        elif x < 0.7:
            toks[i] = r.choice(WORDS)
        elif x < 0.8:
            j = r.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
        elif x < 0.87:
            toks[i:i] = toks[i:i + r.choice([1, 3, 10])]
        elif x < 0.92:
            toks[i] = toks[r.randrange(len(toks))]
        elif x < 0.96:
            del toks[i:i + r.choice([3, 10, 100])]
        else:
            # Everything inside of a token.
            t = toks[i]
            j = r.randrange(len(t) + 1)
            toks[i] = t[:j] + r.choice(WORDS + [chr(r.choice([0, 10, 96, 127, 0x85, 0x2028, 0x661, 0xffff, 0x1f980]))]) + t[j:]
    if r.random() < 0.1:
        toks = toks[:r.randrange(len(toks) + 1)]
    return "".join(toks)


def text_cases(r, count):
    rnd = OtherRender(r)
    for _ in range(count):
        x = r.random()
        if x < 0.06:
            yield nested(r)
        elif x < 0.12:
            yield "".join(r.choice(WORDS) + r.choice(["", " ", " ", "\n"]) for _ in range(r.choice([0, 1, 3, 10, 40, 200])))
        elif x < 0.2:
            ws = [r.choice(WORDS) + r.choice(["", " "]) for _ in range(r.choice([1, 2, 4, 9]))]
            yield "impl WeightInfo for () { fn f(x: u32) -> Weight { %s } }" % "".join(ws)
        elif x < 0.28:
            # A body of one expression, of any kind.
            yield "impl WeightInfo for () { fn f(x: u32) -> Weight { %s } }" % r.choice(BODIES)
        else:
            if x < 0.6:
                fns = [y for y in core.ext_pair(r, r.choice(core.NAMES)) if y]
                f = gen.file([gen.impl(fns)])
            elif x < 0.8:
                f = core.parse_case(r)["f"]
            else:
                f = gen.file(other_items(r))
            t = rnd.file(f)
            yield t if r.random() < 0.04 else damaged(r, t)


_X = ["x", "1", "Weight::zero()", "T::DbWeight::get()", "Weight::from_parts(1, 2)"]
BODIES = [f % {"a": a} for a in _X for f in (
    "%(a)s.reads()", "%(a)s.reads(1, 2)", "%(a)s.reads_writes(1)", "%(a)s.reads_writes(1, 2)", "%(a)s.writes(x as u64)",
    "%(a)s.saturating_add()", "%(a)s.saturating_add(1, 2)", "%(a)s.saturating_mul()", "%(a)s.into(1)", "%(a)s.into().into()",
    "%(a)s.mul(2)", "%(a)s.add(2)", "%(a)s * %(a)s", "%(a)s + %(a)s", "%(a)s - %(a)s", "%(a)s / 2", "%(a)s << 2", "-%(a)s", "!%(a)s",
    "%(a)s as u8", "%(a)s as Weight as u8", "(%(a)s)", "((%(a)s,))", "(%(a)s, %(a)s)", "[%(a)s]", "{ %(a)s }", "&%(a)s", "*%(a)s",
    "%(a)s()", "%(a)s(1)", "Weight::from_parts(%(a)s)", "Weight::from_parts(%(a)s, %(a)s, %(a)s)", "Weight::from_parts()",
    "Weight::from_ref_time(%(a)s)", "Weight::from_proof_size(%(a)s)", "Weight::zero(%(a)s)", "Weight::zero::<%(a)s>()",
    "<Weight>::from_parts(%(a)s, 1)", "<T as X>::DbWeight::get().reads(%(a)s)", "Weight::<T>::from_parts(%(a)s, 1)",
    "::Weight::from_parts(%(a)s, 1)", "(Weight::from_parts)(%(a)s, 1)", "return %(a)s", "if true { %(a)s } else { %(a)s }",
    "match x { _ => %(a)s }", "%(a)s.0", "%(a)s.x", "%(a)s[0]", "%(a)s?", "%(a)s.await", "|y| %(a)s", "loop { %(a)s }", "unsafe { %(a)s }",
    "%(a)s..%(a)s", "%(a)s = %(a)s", "%(a)s += 1", "S { a: %(a)s }", "m!(%(a)s)", "%(a)s == 1", "%(a)s && true", "break %(a)s", "'a: { %(a)s }",
    "#[cfg(x)] %(a)s", "%(a)s.reads::<u64>(1)", "%(a)s.reads(1.5)", "%(a)s.reads(\"1\")", "%(a)s.reads(-1)", "%(a)s.reads(1u8)",
    "%(a)s.reads(340282366920938463463374607431768211455)", "%(a)s.reads(340282366920938463463374607431768211456)", "%(a)s;", "%(a)s; %(a)s")]
BODIES += ["1.0", "1e3", "'c'", '"s"', "b'c'", 'b"s"', 'c"s"', "true", "()", "0x", "0xff", "0b2", "1__", "_", "Self", "self", "Self::x", "x::y", "crate::x",
           "<T>::x", "WEIGHT_PER_NANOS", "5 * WEIGHT_PER_NANOS", "READ", "WRITE", "READ * x", "1u128", "1i8", "256u8", "1f64", "1_f32", "00001"]


def raw(chk, d, count):
    r = core.rng("raw/" + chk.prop)
    repo = os.path.join(d, "repo")
    os.makedirs(repo, exist_ok=True)
    for b in range(0, count, 4000):
        texts = [t.encode("utf-8", "replace").decode() for t in text_cases(r, min(4000, count - b))]
        ops = [{"op": "raw", "repo": repo, "path": os.path.join(repo, "f.rs"), "content": t, "threshold": 0} for t in texts]
        name = "raw-%d" % (b // 4000)
        obs = drive(ops, d, name=name)
        ev = []
        for x in obs:
            if "panic" in x:
                ev.append({"op": "raw", "panic": True})
                continue
            o = x["ok"]
            chk.count("raw_ext_" + o["ext"])
            chk.count("raw_kind_" + o["kind"])
            ev.append({"op": "raw", "panic": False, "ext": o["ext"], "db": o["db"], "over": o["over"], "kind": o["kind"],
                       "exts": [{"name": e["name"], "pallet": e["pallet"],
                                 "ranges": [[c, enc.limbs(lo), enc.limbs(hi)] for c, lo, hi in e["ranges"]]} for e in o["exts"]],
                       "selfs": o["selfs"]})
        core.validate(chk, ev, d, name, lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")
        if chk.violations:
            return
        chk.sample({"op": ops[0], "observed": obs[0]})


# ---------------------------------------------------------------------------
# C27: operations on terms and scopes

TERM_NAMES = ["a", "b", "n", "len", "a::b", "WEIGHT_PER_NANOS", "READ", "WRITE", "x_y", "Z"]


def term_num(r):
    return r.choice([0, 0, 1, 1, 2, 3, 1000, r.randint(0, 10**6), 2**64, 2**127, 2**128 - 1, r.randint(0, 2**128 - 1)])


def term_tree(r, names, d):
    x = r.random()
    if d <= 0 or x < 0.15:
        k = r.random()
        if names and k < 0.5:
            return {"k": "var", "n": r.choice(names)}
        return {"k": r.choice(["val", "sca"]), "v": str(term_num(r))}
    l, t = term_tree(r, names, d - 1), term_tree(r, names, d - r.choice([1, 1, 2, d]))
    return {"k": r.choice(["add", "mul"]), "l": l, "r": t} if r.random() < 0.5 else {"k": r.choice(["add", "mul"]), "l": t, "r": l}


def term_scope(r, names):
    """A scope without circular definitions: terms refer to later names only."""
    ns = r.sample(names, r.randint(0, len(names)))
    return [{"n": n, "t": term_tree(r, (ns[i + 1:] + ["undefined"] * (r.random() < 0.05)) if r.random() < 0.5 else [], r.choice([0, 0, 1, 2]))}
            for i, n in enumerate(ns)]


def term_enc(t):
    t = dict(t)
    if "v" in t:
        t["v"] = enc.limbs(int(t["v"]))
    for k in "lr":
        if k in t:
            t[k] = term_enc(t[k])
    return t


def term_escope(s):
    return [{"n": x["n"], "t": term_enc(x["t"])} for x in s]


def terms(chk, d, count):
    r = core.rng("C27")
    for b in range(0, count, 5000):
        if not chk.violations:
            term_batch(chk, d, r, min(5000, count - b), b // 5000)


def term_batch(chk, d, r, count, part):
    ops = []
    for _ in range(count):
        names = r.sample(TERM_NAMES, r.choice([0, 1, 2, 3, 5, 8]))
        v = r.choice(names + ["a", "q"])
        o = {"op": "term", "t": term_tree(r, names, r.choice([0, 1, 2, 3, 5])), "scope": term_scope(r, names),
             "u": term_tree(r, [n for n in names if n != v] if r.random() < 0.6 else names, r.choice([0, 1, 2])), "v": v,
             "other": term_scope(r, r.sample(TERM_NAMES, 4))}
        if len(str(o)) < 8000:
            # The term that is put in must not make the scope circular.
            ops.append(o)
    obs = drive(ops, d, name="term-%d" % part)
    ev = []
    for o, x in zip(ops, obs):
        e = {"op": "term", "t": term_enc(o["t"]), "u": term_enc(o["u"]), "v": o["v"], "scope": term_escope(o["scope"]),
             "other": term_escope(o["other"]), "panic": "ok" not in x}
        if "ok" in x:
            q = dict(x["ok"])
            val = lambda y: [enc.limbs(int(z)) for z in y]
            q["value"] = val(q["value"])
            for k in ("astime", "asproof", "splice"):
                q[k] = {m: val(q[k][m]) for m in q[k]}
            for k in ("subst", "mutated"):
                q[k] = term_enc(q[k])
            for k in ("scope", "with", "extended", "merged"):
                q[k] = term_escope(q[k])
            q["get"] = [term_enc(y) for y in q["get"]]
            e["r"] = q
        ev.append(e)
    chk.count("terms", len(ev))
    chk.count("undefined_variables", sum(1 for x in obs if "ok" in x and not x["ok"]["value"]))
    core.validate(chk, ev, d, "term-%d" % part, lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace",
                  laws=["TermsConsistent"])
    for i in range(min(3, len(ev))):
        chk.sample({"op": ops[i], "observed": obs[i]})


def cterm_tree(r, scalars, weights, d):
    """A term over weights, in which only numbers without dimension are factors."""
    x = r.random()
    if d <= 0 or x < 0.15:
        if weights and r.random() < 0.4:
            return {"k": "var", "n": r.choice(weights)}
        return {"k": "val", "t": str(term_num(r)), "p": str(term_num(r))}
    if x < 0.6:
        return {"k": "add", "l": cterm_tree(r, scalars, weights, d - 1), "r": cterm_tree(r, scalars, weights, d - r.choice([1, 1, 2, d]))}
    f = {"k": "sca", "v": str(term_num(r))} if r.random() < 0.5 or not scalars else {"k": "var", "n": r.choice(scalars)}
    if r.random() < 0.03:
        f = {"k": "var", "n": r.choice(weights[:1] + ["undefined"])}
    t = cterm_tree(r, scalars, weights, d - 1)
    return {"k": "mul", "l": f, "r": t} if r.random() < 0.5 else {"k": "mul", "l": t, "r": f}


def cterm_enc(t):
    t = dict(t)
    for k in "vtp":
        if k in t:
            t[k] = enc.limbs(int(t[k]))
    for k in "lr":
        if k in t:
            t[k] = cterm_enc(t[k])
    return t


def cterms(chk, d, count):
    r = core.rng("C27c")
    ops = []
    while len(ops) < count:
        names = r.sample(TERM_NAMES, r.choice([0, 1, 2, 3, 5, 8]))
        k = r.randint(0, len(names))
        sc, we = names[:k], names[k:]
        scope = [{"n": n, "t": {"k": "sca", "v": str(term_num(r))}} for n in sc if r.random() < 0.95]
        scope += [{"n": n, "t": cterm_tree(r, sc, we[i + 1:], r.choice([0, 0, 1, 2]))} for i, n in enumerate(we) if r.random() < 0.95]
        r.shuffle(scope)
        v = r.choice(we[1:] + ["q"])
        o = {"op": "cterm", "t": cterm_tree(r, sc, we, r.choice([0, 1, 2, 3, 5])), "v": v,
             "u": cterm_tree(r, sc, [n for n in we if n != v], r.choice([0, 1, 2])), "scope": scope}
        if len(str(o)) < 8000:
            ops.append(o)
    obs = drive(ops, d, name="cterm")
    ev = []
    for o, x in zip(ops, obs):
        e = {"op": "cterm", "t": cterm_enc(o["t"]), "u": cterm_enc(o["u"]), "v": o["v"],
             "scope": [{"n": y["n"], "t": cterm_enc(y["t"])} for y in o["scope"]], "panic": "ok" not in x}
        if "ok" in x:
            q = dict(x["ok"])
            for k in ("value", "subst", "mutated", "splice"):
                q[k] = [[enc.limbs(int(z)) for z in w] for w in q[k]]
            for k in ("time", "proof"):
                q[k] = [enc.limbs(int(z)) for z in q[k]]
            e["r"] = q
        ev.append(e)
    chk.count("weight_terms", len(ev))
    chk.count("weight_terms_with_value", sum(1 for x in obs if "ok" in x and x["ok"]["value"]))
    core.validate(chk, ev, d, "cterm", lambda i: {"op": ops[i], "observed": obs[i]}, module="AuxTrace")
