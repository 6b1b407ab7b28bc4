"""Cases for the comparison pipeline (C01-C13, C26) and their validation by TLC."""
import json
import os
import random

from . import enc, gen
from .common import SEED, THOROUGH, ToolError, drive, tlc, write_trace

METHODS = ["base", "guess-worst", "exact-worst", "asymptotic", "exact-asymptotic"]


def rng(tag):
    return random.Random("%s/%s" % (SEED, tag))


# ---------------------------------------------------------------------------
# Parameters

NAMES = ["transfer", "transfer_all", "set", "set_code", "kill", "on_initialize", "mint", "burn", "claim", "xfer"]
FILES = ["pallet_balances.rs", "pallet_system.rs", "runtime/weights/pallet_a.rs", "weights.rs", "a.rs"]
SUBS = ["set", "a", "_", "transfer", "k", "on", ".rs", "pallet", "weights", "zzz", "runtime"]


def pattern(r, base):
    x = r.random()
    s = r.choice(SUBS + base)
    if x < 0.5:
        return {"k": "all"}
    if x < 0.65:
        return {"k": "sub", "s": s}
    if x < 0.75:
        return {"k": "pre", "s": s}
    if x < 0.82:
        return {"k": "suf", "s": s}
    if x < 0.9:
        return {"k": "full", "s": r.choice(base)}
    if x < 0.95:
        return {"k": "not", "s": s}
    return {"k": "alt", "ps": [{"k": "sub", "s": s}, {"k": "pre", "s": r.choice(base)}]}


def esc(s):
    return s.replace(".", "\\.")


def regex(p):
    k = p["k"]
    if k == "sub":
        return esc(p["s"])
    if k == "pre":
        return "^" + esc(p["s"])
    if k == "suf":
        return esc(p["s"]) + "$"
    if k == "full":
        return "^" + esc(p["s"]) + "$"
    if k == "not":
        return "^(?!.*" + esc(p["s"]) + ").*$"
    if k == "hard":
        # Matches everything, but finding that out may take longer than the engine is willing to try.
        return r"^(a+)+\1b|"
    if k == "alt":
        return "|".join(regex(x) for x in p["ps"])
    return None


THRESHOLDS = [0, 0, 0, 0.5, 1, 2, 5, 5, 10, 12.5, 25, 50, 99.5, 100, 100.5, 150, 200, 1000, 0.0009765625, 1e6]


def params(r, method=None, unit=None):
    p = {"method": method or r.choice(METHODS), "unit": unit or r.choice(["time", "time", "proof"]),
         "threshold": r.choice(THRESHOLDS), "change": None,
         "palf": {"k": "all"}, "extf": {"k": "all"}}
    if r.random() < 0.35:
        p["change"] = [c for c in ["changed", "unchanged", "added", "removed"] if r.random() < 0.5]
    if r.random() < 0.3:
        p["palf"] = pattern(r, FILES)
    if r.random() < 0.3:
        p["extf"] = pattern(r, NAMES)
    return p


# ---------------------------------------------------------------------------
# Pairs of extrinsics

def docs_for(r, comps, full):
    ds = []
    for c in comps:
        if full or r.random() < 0.8:
            if r.random() < 0.08:
                ds.append(gen.rng_doc(c, *gen.rand_range(r)))      # overridden
            name = c
            if r.random() < 0.1:
                name = c.replace("_", "") if "_" in c else c + "_"
            ds.append(gen.rng_doc(name, *gen.rand_range(r)))
        if r.random() < 0.3:
            ds.append({"k": "other"})
    return ds


def nudge(r, d):
    """The same range with one end moved."""
    if d["k"] != "range" or r.random() < 0.4:
        return d
    lo, hi = d["lo"], d["hi"]
    if r.random() < 0.5:
        lo = r.choice([0, max(lo - 1, 0), (lo + hi) // 2, hi])
    else:
        hi = r.choice([lo, (lo + hi) // 2, min(hi + 1, 2**32 - 1), min(2 * hi, 2**32 - 1)])
    return gen.rng_doc(d["c"], lo, hi)


def ext_pair(r, name, big=False, ncomp=None):
    """(old function or None, new function or None) of the same name."""
    n = ncomp if ncomp is not None else r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4])
    comps = r.sample(gen.COMPS[:10], min(n, 10))
    g = gen.ExprGen(r, comps, big=big, maxcount=r.choice([5, 30, 30, 2000]))
    e = g.body()
    full = r.random() < 0.7
    docs = docs_for(r, comps, full)
    old = gen.fn(name, e, docs)
    x = r.random()
    if x < 0.12:
        new = gen.fn(name, gen.clone(e), list(docs))
    elif x < 0.85:
        e2 = gen.mutate(r, e, g)
        if r.random() < 0.3:
            e2 = gen.mutate(r, e2, g)
        new = gen.fn(name, e2, list(docs))
    else:
        new = gen.fn(name, g.body(), list(docs))
    if r.random() < 0.15:
        new["docs"] = docs_for(r, comps, full)
    elif r.random() < 0.1:
        new["docs"] = [nudge(r, d) for d in new["docs"]]
    x = r.random()
    if x < 0.08:
        return None, new
    if x < 0.16:
        return old, None
    return old, new


def many_components(r, name, n, comps=None):
    comps = comps or gen.COMPS[:n]
    e = gen.call(["Weight", "from_parts"], gen.lit(r.randint(0, 10**6)), gen.lit(5))
    f = gen.clone(e)
    for c in comps:
        e = gen.add(e, gen.mul(gen.call(["Weight", "from_parts"], gen.lit(r.randint(0, 1000)), gen.lit(r.randint(0, 9))), gen.path(c)))
        f = gen.add(f, gen.mul(gen.call(["Weight", "from_parts"], gen.lit(r.randint(0, 1000)), gen.lit(r.randint(0, 9))), gen.path(c)))
    docs = [gen.rng_doc(c, *sorted((r.randint(0, 50), r.randint(0, 50)))) for c in comps]
    return gen.fn(name, e, docs), gen.fn(name, f, list(docs))


def compare_case(r, method=None, unit=None, big=False, p=None):
    nf = r.choice([1, 1, 1, 2, 2, 3])
    files = r.sample(FILES, nf)
    old, new = [], []
    for f in files:
        of, nfn = [], []
        for name in r.sample(NAMES, r.choice([1, 1, 2, 2, 3, 4])):
            o, n = ext_pair(r, name, big)
            if o:
                of.append(o)
            if n:
                nfn.append(n)
            if r.random() < 0.04 and (o and n):
                # A second definition, which must be ignored.
                (of if r.random() < 0.5 else nfn).append(ext_pair(r, name, big)[r.choice([0, 1])] or n)
        r.shuffle(nfn)
        self_old = r.choice(["WeightInfo", "SubstrateWeight", "()"])
        if of:
            old.append((f, gen.file(noise(r, [gen.impl(of, self_old)]))))
        if nfn:
            new.append((f, gen.file(noise(r, [gen.impl(nfn, self_old)]))))
    r.shuffle(new)
    if len(files) > 1 and len(old) > 1 and r.random() < 0.1:
        # Two files of the same name.
        old[1] = (old[0][0], old[1][1])
    return {"old": old, "new": new, "p": p or params(r, method, unit)}


def noise(r, items):
    out = []
    for it in items:
        while r.random() < 0.3:
            out.append({"k": "other"})
        if r.random() < 0.15:
            out.append(gen.impl([gen.fn("noise", gen.lit(1))], r.choice(["otherpath", "tuple1", "twoseg", "colon", "othertype"])))
        if r.random() < 0.06:
            out.append(gen.impl([gen.fn("noise", gen.lit(1)), gen.fn("bad", {"k": "other"})], "WeightInfo"))
        out.append(it)
    if r.random() < 0.2:
        out.append(gen.impl([gen.fn("late", gen.lit(1))], r.choice(["WeightInfo", "()"])))
    return out


# ---------------------------------------------------------------------------
# Parsing cases (C02, C03, C04)

SELFS = ["WeightInfo", "WeightInfo", "SubstrateWeight", "()", "tuple1", "otherpath", "twoseg", "colon", "othertype"]


def wild_fn(r, name):
    comps = r.sample(gen.COMPS[:8], r.choice([0, 1, 2]))
    g = gen.ExprGen(r, comps, big=r.random() < 0.1)
    e = g.body() if r.random() < 0.8 else g.wild()
    if r.random() < 0.2:
        e = gen.near(r, e)
    f = gen.fn(name, e, docs_for(r, comps, r.random() < 0.7))
    x = r.random()
    if x < 0.05:
        f["ret"] = r.choice(["", "u64", "Weights", "weight", "WeightX", "Wei", "Wright"])
    elif x < 0.15:
        f["ret"] = r.choice(["MyWeight", "Weight", "XWeight"])
    x = r.random()
    if x < 0.04:
        f["stmts"].insert(0, {"k": r.choice(["let", "macro", "item"])})
    elif x < 0.06:
        f["stmts"] = []
    elif x < 0.09:
        f["stmts"] = [{"k": r.choice(["let", "macro", "item"])}]
    elif x < 0.10:
        f["stmts"].append({"k": "let"})
    if r.random() < 0.2:
        c = r.choice(gen.COMPS[:12])
        lo, hi = gen.rand_range(r)
        if r.random() < 0.3:
            lo, hi = r.choice([(hi + 1, hi), (5, 0), (1, 0), (0, 2**32), (2**32, 2**32), (5, 4), (0, 2**64), (2**32 - 1, 2**32 - 1)])
        f["docs"].insert(r.randint(0, len(f["docs"])), gen.rng_doc(c, lo, hi))
    return f


def parse_case(r):
    items = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        if r.random() < 0.25:
            items.append({"k": "other"})
            continue
        fns = [wild_fn(r, n) for n in r.choices(NAMES, k=r.choice([0, 1, 1, 2, 3, 5]))]
        items.append(gen.impl(fns, r.choice(SELFS)))
    return {"pallet": r.choice(FILES), "f": gen.file(items, r.random() > 0.03)}


# ---------------------------------------------------------------------------
# Execution and recording

def op_of(c, rnd):
    p = c["p"]
    o = {"op": "compare", "method": p["method"], "unit": p["unit"], "threshold": p["threshold"]}
    if p["change"] is not None:
        o["change"] = p["change"]
    for k, f in (("extrinsic", "extf"), ("pallet", "palf")):
        if p[f]["k"] != "all":
            o[k] = regex(p[f])
    for s in ("old", "new"):
        o[s] = [{"pallet": n, "content": rnd.file(f)} for n, f in c[s]]
    return o


def hints(r, n=6):
    return [[r.choice([0, 1, 2, 3, 5, 7, 10, 50, 99, 1000, 12345]) + 0 for _ in range(7)] for _ in range(n)]


def event_of(c, obs, r):
    p = c["p"]
    return {"op": "compare", "old": enc.side(c["old"]), "new": enc.side(c["new"]),
            "method": p["method"], "unit": p["unit"], "thr": enc.threshold(p["threshold"]),
            "hasSubset": p["change"] is not None, "subset": p["change"] or [],
            "palf": p["palf"], "extf": p["extf"], "hints": hints(r), "res": enc.outcome(obs)}


def parse_event(c, obs):
    if "panic" in obs:
        res = {"tag": "panic", "exts": []}
    elif "err" in obs:
        res = {"tag": "err", "exts": []}
    else:
        res = {"tag": "ok", "exts": [{"name": e["name"], "pallet": e["pallet"],
                                      "ranges": [[c_, enc.limbs(lo), enc.limbs(hi)] for c_, lo, hi in e["ranges"]]}
                                     for e in obs["ok"]]}
    return {"op": "parse", "pallet": c["pallet"], "f": enc.file(c["f"]), "res": res}


def run_cases(chk, cases, d, tag, chunk=None):
    """Runs parse and compare cases on the real code and has TLC judge what was observed."""
    r = rng("render/" + tag)
    rnd = gen.Render(r)
    ops = []
    for c in cases:
        if "f" in c:
            ops.append({"op": "parse", "pallet": c["pallet"], "content": rnd.file(c["f"])})
        else:
            ops.append(op_of(c, rnd))
    obs = drive(ops, d, name=tag)
    events = [parse_event(c, o) if "f" in c else event_of(c, o, r) for c, o in zip(cases, obs)]
    validate(chk, events, d, tag, lambda i: {"op": ops[i], "observed": obs[i]}, chunk)
    for i in range(min(2, len(ops))):
        chk.sample({"op": ops[i], "observed": obs[i]})
    return ops, obs, events


def small(chk, d, part, level, prove):
    """All members of a small universe of inputs, as enumerated by the specification."""
    out = os.path.join(d, "small-%s.ndjson" % part)
    res = tlc("Small", 'SPECIFICATION Spec\nCONSTANT Part = "%s"\nCONSTANT Level = %d\nCONSTANT Prove = %s\n'
              'CONSTANT Checks = {"C11"}\nINVARIANT Theorems\n' % (part, level, "TRUE" if prove else "FALSE"),
              d, env={"OUT": out}, name="small-" + part)
    if res.violated:
        raise ToolError("the specification is inconsistent (%s): %s" % (part, res.out[-2000:]))
    chk.add_tlc(res)
    with open(out) as fh:
        cases = [enc.uncase(json.loads(x)) for x in fh]
    os.unlink(out)
    chk.count("small_" + part, len(cases))
    return cases


def cfg(checks, chunk, more=()):
    return "".join("INVARIANT %s\n" % x for x in more) + (
            "SPECIFICATION Spec\nCONSTANT Checks = {%s}\nCONSTANT ChunkSize = %d\n"
            "INVARIANT Accepted_\nINVARIANT Walked\n" % (", ".join('"%s"' % c for c in checks), chunk))


def validate(chk, events, d, tag, replay, chunk=None, module="SwcTrace", checks=None, env=None, laws=()):
    """TLC validates the recorded events; a rejected one is a violation. laws: theorems of the specification itself, which
    are checked on the events, too."""
    if not events:
        return
    chunk = chunk or max(1, min(40, len(events) // 64 + 1))
    path = os.path.join(d, tag + ".ndjson")
    write_trace(events, path)
    e = {"TRACE": path}
    e.update(env or {})
    res = tlc(module, cfg(checks or [chk.prop], chunk, laws), d, env=e, name=module + "-" + tag)
    chk.add_tlc(res)
    chk.traces += len(events)
    if res.violated:
        l = res.last("l")
        if l is None:
            raise ToolError("no position in TLC's counterexample:\n" + res.out[-2000:])
        i = int(l) - 1
        if res.violated not in ("Accepted_",):
            # The model has no step for what was observed.
            raise ToolError("trace event %d of %s is not understood: %s" % (i + 1, tag, str(events[i])[:500]))
        bad = res.last("bad")
        # The line was left already when its last step was judged.
        i = find_event(res, i)
        chk.violate("the specification rejects event %d of %s: %s" % (i + 1, tag, bad), replay(i))


def find_event(res, i):
    m = res.last("at")
    return int(m) - 1 if m else i


# ---------------------------------------------------------------------------
# Directed cases

def value_exts(r, n, close=0.025):
    """Extrinsics whose values give chosen relative changes (ties, boundaries, infinities)."""
    out = []
    for i in range(n):
        name = r.choice(NAMES) + "_%02d" % r.randint(0, 99)
        if any(x[0] == name for x in out):
            continue
        base = r.choice([1, 2, 4, 8, 64, 100, 200, 1000, 1024, 10**6, 10**9, 999_983, 3 * 10**12])
        x = r.random() if r.random() > close else 0.95
        if x < 0.1:
            o, nw = base, base
        elif x < 0.2:
            o, nw = 0, r.choice([0, 1, base])
        elif x < 0.28:
            o, nw = base, 0
        elif x < 0.6:
            o, nw = base * 8, base * r.choice([9, 7, 10, 4, 16, 12, 24, 1])
        elif x < 0.8:
            o = 10**8
            nw = o + r.choice([-1, 1]) * r.choice([0, 1, 10, 100, 999, 1000, 1001, 1999, 2000, 500, 5 * 10**6, 10**7,
                                                   5 * 10**6 + 1, 5 * 10**6 - 1])
        elif x < 0.9:
            o, nw = 100, r.choice([105, 95, 110, 90, 150, 200, 50])
        elif x < 0.95:
            # More than every whole number of some type.
            o, nw = r.choice([1, 2, 3, 1000]), min(2**128 - 1, r.randint(1, 999) * 10**r.choice([6, 9, 11, 13, 15, 16, 18, 19, 20, 25, 30, 34]))
        elif x < 0.95 + close:
            # So close that the relative change may round to nothing.
            o = r.choice([1, 3, 5]) * 2**r.randint(30, 125) + r.randint(0, 9)
            nw = o + r.choice([-1, 1]) * r.choice([1, 1, 2, 3, 1000, max(1, o >> 52), max(1, o >> 54)])
        else:
            o, nw = r.randint(0, 10**12), r.randint(0, 10**12)
        kind = r.choice(["both", "both", "both", "both", "both", "both", "add", "rem", "fail"])
        out.append((name, o, nw, kind))
    return out


def sort_case(r, p=None, **more):
    p = p or params(r)
    files = r.sample(FILES, r.choice([1, 2, 3]))
    old, new = [], []
    for f in files:
        of, nf = [], []
        for name, o, nw, kind in value_exts(r, r.choice([4, 8, 14]), **more):
            def body(v):
                a, b = (v, r.choice([0, v, 5])) if p["unit"] == "time" else (r.choice([0, v, 7]), v)
                return gen.call(["Weight", "from_parts"], gen.lit(a), gen.lit(b))
            a, b = body(o), body(nw)
            if kind == "fail":
                a = gen.add(a, gen.mul(gen.call(["Weight", "from_parts"], gen.lit(1), gen.lit(1)), gen.path("norange")))
            x = r.random()
            if x < 0.3:
                # Warnings, partly on rows that tie with others.
                w = gen.m(r.choice(["reads", "reads", "writes"]), gen.call(gen.DB), gen.lit(r.choice([1000, 1001, 2000])))
                if p["unit"] == "proof" or x < 0.15:
                    b = gen.add(b, w)
                if x < 0.15:
                    a = gen.add(a, w)
            if kind != "add":
                of.append(gen.fn(name, a))
            if kind != "rem":
                nf.append(gen.fn(name, b))
        if of:
            old.append((f, gen.file([gen.impl(of)])))
        if nf:
            new.append((f, gen.file([gen.impl(nf)])))
    return {"old": old, "new": new, "p": p}


def count_case(r):
    """Storage accesses with large literal counts in every syntax."""
    p = params(r)
    p["threshold"] = 0
    fs_old, fs_new = [], []
    for name in r.sample(NAMES, r.choice([1, 2, 3])):
        def body():
            comps = r.sample(gen.COMPS[:6], 2)
            g = gen.ExprGen(r, comps)
            e = None
            mode = r.choice(["v1", "v2", "in"])
            for _ in range(r.choice([1, 2, 3])):
                cnt = gen.lit(r.choice([0, 5, 999, 1000, 1000, 1001, 1001, 1002, 1500, 4000, 10**6, 2**64]))
                for _ in range(r.choice([0, 0, 1, 2])):
                    cnt = r.choice([gen.paren, gen.cast])(cnt)
                t = gen.m(r.choice(["reads", "writes"]), g.db(), cnt if r.random() < 0.9 else g.comp())
                if mode == "in":
                    t = r.choice([lambda: gen.call(["Weight", "from_ref_time"], t),
                                  lambda: gen.call(["Weight", "from_parts"], t, gen.lit(3))])()
                elif mode == "v1" and r.random() < 0.3:
                    t = gen.m("into", t)
                e = t if e is None else gen.add(e, t)
            e2 = gen.lit(r.randint(1, 10**6)) if mode == "v1" else g.ctor(2)
            if r.random() < 0.7:
                e = gen.add(e, e2) if r.random() < 0.5 else gen.add(e2, e)
            if r.random() < 0.3:
                e = gen.paren(e)
            if r.random() < 0.2:
                e = gen.mul(e, g.comp())
            return e
        kind = r.choice(["both", "both", "both", "add", "rem"])
        if kind != "add":
            fs_old.append(gen.fn(name, body()))
        if kind != "rem":
            fs_new.append(gen.fn(name, body()))
    return {"old": [("w.rs", gen.file([gen.impl(fs_old)]))] if fs_old else [],
            "new": [("w.rs", gen.file([gen.impl(fs_new)]))] if fs_new else [], "p": p}


def linear_term(r, comps, negative=False):
    k = r.choice([1, 1, 1, 2])
    e = gen.call(["Weight", "from_parts"], gen.lit(r.choice([0, 1, r.randint(0, 100), r.randint(0, 10**6)])),
                 gen.lit(r.choice([0, 1, r.randint(0, 100), r.randint(0, 10**4)])))
    for c in r.sample(comps, min(k, len(comps))):
        e = gen.mul(e, gen.path(c))
    return e


def worst_case(r, ncomp=None):
    """Formulas that are linear in each component, with competing slopes."""
    p = params(r, r.choice(["guess-worst", "guess-worst", "exact-worst"]))
    p["threshold"], p["change"] = 0, None
    n = ncomp or r.choice([1, 2, 2, 3, 3, 4])
    names = r.sample(gen.COMPS, len(gen.COMPS))
    comps = names[:n] if n > 10 else r.sample(gen.COMPS[:10], n)

    def formula():
        e = gen.call(["Weight", "from_parts"], gen.lit(r.choice([0, 1, 50, r.randint(0, 10**5)])),
                     gen.lit(r.choice([0, 1, 50, r.randint(0, 10**5)])))
        for _ in range(r.choice([n, n + 1, n + 2]) if r.random() < 0.8 else 1):
            e = gen.add(e, linear_term(r, comps))
        if r.random() < 0.3:
            e = gen.add(e, gen.m(r.choice(["reads", "writes"]), gen.call(gen.DB), gen.path(r.choice(comps))))
        return e
    full = p["method"] == "exact-worst" or r.random() < 0.5
    docs = docs_for(r, comps, full)
    old, new = gen.fn("f", formula(), docs), gen.fn("f", formula(), list(docs))
    if r.random() < 0.2:
        new["docs"] = docs_for(r, comps, full)
    return {"old": [("w.rs", gen.file([gen.impl([old])]))], "new": [("w.rs", gen.file([gen.impl([new])]))], "p": p}


def wide_case(r):
    """The worst case of six to sixteen components."""
    return worst_case(r, r.choice([6, 7, 8, 9, 9, 10, 11, 12]) if r.random() < 0.85 else r.choice([13, 14, 15, 16]))


def limit_case(r):
    """Around the limit of 16 components."""
    p = params(r, r.choice(METHODS))
    p.update(threshold=0, change=None, palf={"k": "all"}, extf={"k": "all"})
    n = r.choice([15, 16, 16, 17, 17, 18])
    if n <= 16:
        n = r.choice([7, 8, 16]) if r.random() < 0.7 else n
    a, b = many_components(r, "f", n)
    if r.random() < 0.3:
        # The union counts.
        k = r.randint(1, n - 1)
        b2, _ = many_components(r, "f", k)
        b = b2
    elif r.random() < 0.3:
        # Both halves are within the limit, the union is around it.
        m = r.choice([15, 16, 17, 17, 18, 19])
        names = r.sample(gen.COMPS, min(m, len(gen.COMPS)))
        k = r.randint(1, len(names) - 1)
        a, _ = many_components(r, "f", 0, names[:k + r.choice([0, 0, 1])])
        _, b = many_components(r, "f", 0, names[k:])
    fa, fb = [a], [b]
    if r.random() < 0.5:
        o, nw = ext_pair(r, "g")
        fa += [o] if o else []
        fb += [nw] if nw else []
    return {"old": [("w.rs", gen.file([gen.impl(fa)]))], "new": [("w.rs", gen.file([gen.impl(fb)]))], "p": p}


def dim_case(r):
    """Small changes that matter in one dimension only."""
    p = params(r)
    p.update(threshold=0, change=None)
    comps = r.sample(gen.COMPS[:8], 2)
    g = gen.ExprGen(r, comps)
    fo, fnw = [], []
    for name in r.sample(NAMES, 3):
        e = g.v2() if r.random() < 0.8 else g.v1()
        f = gen.clone(e)
        cs = [x for x in gen.nodes(f) if x["k"] == "call" and x["s"][-1] in ("from_parts", "from_proof_size", "from_ref_time")]
        if cs:
            c = r.choice(cs)
            ls = [x for x in gen.nodes(r.choice(c["a"])) if x["k"] == "lit"]
            if ls and r.random() < 0.8:
                r.choice(ls)["v"] += r.choice([0, 1, 100])
        docs = docs_for(r, comps, True)
        fo.append(gen.fn(name, e, docs))
        fnw.append(gen.fn(name, f, list(docs)))
    return {"old": [("w.rs", gen.file([gen.impl(fo)]))], "new": [("w.rs", gen.file([gen.impl(fnw)]))], "p": p}


KEYS = ["a", "ab", "a_b", "A", "b", "aa", "a1", "a_", "Z", "z"]


def keys_case(r):
    """Names whose order and identity matter, duplicates, the same name in several files."""
    p = params(r)
    p["method"] = r.choice(METHODS)
    old, new = [], []
    for fs in (old, new):
        for f in r.sample([k + ".rs" for k in KEYS] + ["a/a.rs", "a-b.rs", "ab/a.rs", "a"], r.choice([1, 2, 3, 4])):
            fns = []
            for name in r.choices(KEYS + ["a" * 40], k=r.choice([1, 2, 3, 5])):
                fns.append(gen.fn(name, gen.call(["Weight", "from_parts"], gen.lit(r.randint(0, 99)), gen.lit(r.randint(0, 99)))))
            fs.append((f, gen.file([gen.impl(fns)])))
        if fs and r.random() < 0.2:
            fs.append((fs[0][0], gen.file([gen.impl([gen.fn(r.choice(KEYS), gen.lit(r.randint(0, 9)))])])))
    for k in ("palf", "extf"):
        if p[k]["k"] != "all":
            p[k] = r.choice([{"k": "hard"}, {"k": "sub", "s": r.choice(KEYS)}, {"k": "full", "s": r.choice(KEYS)},
                             {"k": "not", "s": r.choice(KEYS)}, {"k": "pre", "s": r.choice(KEYS)},
                             {"k": "alt", "ps": [{"k": "full", "s": "a"}, {"k": "suf", "s": "b"}]}])
    return {"old": old, "new": new, "p": p}


def many_case(r, shape=None):
    """Much of something: files on a side, functions in a file, terms in a formula; and so rows in the result."""
    p = params(r)
    p.update(change=None, threshold=0, palf={"k": "all"}, extf={"k": "all"})
    shape = shape or r.choice(["files", "functions", "terms"])
    if shape == "files":
        nfiles, nfns = r.choice([40, 70, 150, 300, 540]), r.choice([1, 2])
    elif shape == "functions":
        nfiles, nfns = r.choice([1, 2]), r.choice([90, 140, 270, 540, 1100])
    else:
        nfiles, nfns = 1, r.choice([1, 2])

    def body(v):
        e = gen.call(["Weight", "from_parts"], gen.lit(v), gen.lit(v))
        for _ in range(r.choice([30, 70, 140, 200]) if shape == "terms" else 0):
            x = r.random()
            t = gen.call(["Weight", "from_parts"], gen.lit(r.randint(1, 9)), gen.lit(r.randint(1, 9)))
            if x < 0.2:
                t = gen.m(r.choice(["reads", "writes"]), gen.call(gen.DB), gen.lit(r.choice([1, 2, 3])))
            elif x < 0.3:
                t = gen.mul(t, gen.path(r.choice("nmx")))
            e = gen.add(e, t)
        return e
    old, new = [], []
    for i in range(nfiles):
        fns = {"old": [], "new": []}
        for k in range(nfns):
            name, a = "f%d" % k, r.randint(1, 999)
            kind = r.choice(["both"] * 8 + ["same", "old", "new"])
            for s in fns:
                if kind in ("both", "same", s):
                    fns[s].append(gen.fn(name, body(a if kind == "same" else r.randint(1, 999)), docs_for(r, "nmx", True) if shape == "terms" else ()))
        for s, out in (("old", old), ("new", new)):
            if fns[s]:
                out.append(("p%d.rs" % i, gen.file([gen.impl(fns[s])])))
    r.shuffle(new)
    return {"old": old, "new": new, "p": p}


def many_parse(r):
    """A file with much of something: items, functions, lines of documentation."""
    shape = r.choice(["items", "functions", "docs"])
    few, many = r.choice([1, 2, 3]), r.choice([40, 70, 140, 300])
    fns = [gen.fn("f%d" % i, gen.call(["Weight", "from_parts"], gen.lit(i), gen.lit(1))) for i in range(many if shape == "functions" else few)]
    for f in r.sample(fns, few):
        f["docs"] = [{"k": "other"} if r.random() < 0.7 else gen.rng_doc(r.choice(gen.COMPS[:12]), *gen.rand_range(r))
                     for _ in range(many if shape == "docs" else few)]
    if r.random() < 0.2:
        fns.append(wild_fn(r, "last"))
    items = [r.choice([{"k": "other"}, gen.impl([gen.fn("noise", gen.lit(1))], r.choice(["otherpath", "tuple1", "twoseg"]))])
             for _ in range(many if shape == "items" else few)]
    return {"pallet": r.choice(FILES), "f": gen.file(items + [gen.impl(fns, r.choice(["WeightInfo", "SubstrateWeight", "()"]))])}
