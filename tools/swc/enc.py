"""Encoding of data for the TLA+ trace files, and of observations into trace lines."""
import json
import struct
from fractions import Fraction


def limbs(v):
    """A natural number as in spec/BigNat.tla."""
    assert v >= 0
    out = []
    while v:
        out.append(v % 10000)
        v //= 10000
    return out


def expr(e):
    k = e["k"]
    if k == "lit":
        return {"k": "lit", "v": limbs(e["v"])}
    if k in ("badlit", "other"):
        return {"k": k}
    if k == "path":
        return {"k": k, "n": e["n"]}
    if k in ("paren", "cast"):
        return {"k": k, "e": expr(e["e"])}
    if k == "m":
        return {"k": k, "n": e["n"], "r": expr(e["r"]), "a": [expr(x) for x in e["a"]]}
    if k == "call":
        return {"k": k, "s": e["s"], "a": [expr(x) for x in e["a"]]}
    raise ValueError(k)


def fn(f):
    return {
        "name": f["name"], "ret": f["ret"],
        "stmts": [{"k": "expr", "e": expr(s["e"])} if s["k"] == "expr" else {"k": "other"} for s in f["stmts"]],
        "docs": [{"k": "range", "c": d["c"], "lo": limbs(d["lo"]), "hi": limbs(d["hi"])} if d["k"] == "range"
                 else {"k": "other"} for d in f["docs"]],
    }


def file(f):
    return {"syntax": f["syntax"],
            "items": [{"k": "impl", "self": i["self"], "fns": [fn(x) for x in i["fns"]]} if i["k"] == "impl"
                      else {"k": "other"} for i in f["items"]]}


def side(fs):
    return [{"pallet": p, "f": file(f)} for p, f in fs]


def f64(hexbits):
    return struct.unpack(">d", bytes.fromhex(hexbits))[0]


def pct(hexbits):
    v = f64(hexbits)
    if v != v:
        return {"cls": "nan", "neg": False, "u": []}
    if v in (float("inf"), float("-inf")):
        return {"cls": "+inf" if v > 0 else "-inf", "neg": v < 0, "u": []}
    q = abs(Fraction(v)) * 10**12
    return {"cls": "fin", "neg": v < 0, "u": limbs(q.numerator // q.denominator)}


def threshold(t):
    q = Fraction(t) * 10**12
    assert q.denominator == 1, "the threshold must be a multiple of 10^-12"
    return limbs(q.numerator)


def opt(v):
    return [] if v is None else [limbs(int(v))]


def row(r):
    out = {"file": r["file"], "name": r["name"], "kind": r["kind"], "msg": r.get("msg", "")}
    if r["kind"] != "failed":
        out.update(change=r["change"], old=opt(r["old_v"]), new=opt(r["new_v"]), pct=pct(r["percent"]),
                   scope=[{"n": k, "v": limbs(int(v))} for k, v in r["scope"]])
    else:
        out.update(change="", old=[], new=[], pct={"cls": "nan", "neg": False, "u": []}, scope=[])
    return out


def positions(full, rows):
    """The positions (from 1) of rows in full; 0 for a row that does not occur in it."""
    idx = {}
    for i, r in enumerate(full):
        idx.setdefault(json.dumps(r, sort_keys=True), i + 1)
    return [idx.get(json.dumps(r, sort_keys=True), 0) for r in rows]


def outcome(o):
    """The outcome of a comparison."""
    if "panic" in o:
        return {"tag": "panic", "rows": [], "kept": [], "sorted": [], "resorted": [], "msg": str(o["panic"])}
    if "parse_err" in o:
        return {"tag": "parse_err", "rows": [], "kept": [], "sorted": [], "resorted": [], "msg": ""}
    if "err" in o:
        return {"tag": "err", "rows": [], "kept": [], "sorted": [], "resorted": [], "msg": ""}
    o = o["ok"]
    return {"tag": "ok", "rows": [row(r) for r in o["diff"]], "kept": positions(o["diff"], o["filtered"]),
            "sorted": positions(o["diff"], o["sorted"]), "resorted": positions(o["diff"], o["resorted"]), "msg": ""}


# ---------------------------------------------------------------------------
# Reading inputs written by the specification (spec/Small.tla)

def nat(ls):
    return sum(d * 10000**i for i, d in enumerate(ls))


def unexpr(e):
    e = dict(e)
    if e["k"] == "lit":
        e["v"] = nat(e["v"])
    for k in ("e", "r"):
        if k in e:
            e[k] = unexpr(e[k])
    if "a" in e:
        e["a"] = [unexpr(x) for x in e["a"]]
    return e


def unfn(f):
    docs = [{"k": "range", "c": x["c"], "lo": nat(x["lo"]), "hi": nat(x["hi"])} if x["k"] == "range" else x for x in f["docs"]]
    return dict(f, docs=docs, stmts=[{"k": "expr", "e": unexpr(s["e"])} if s["k"] == "expr" else {"k": "let"} for s in f["stmts"]])


def unfile(f):
    return dict(f, items=[dict(i, fns=[unfn(x) for x in i["fns"]]) if i["k"] == "impl" else i for i in f["items"]])


def uncase(ev):
    """A case for core.run_cases."""
    if ev["op"] == "parse":
        return {"pallet": ev["pallet"], "f": unfile(ev["f"])}
    q = Fraction(nat(ev["thr"]), 10**12)
    return {"old": [(x["pallet"], unfile(x["f"])) for x in ev["old"]], "new": [(x["pallet"], unfile(x["f"])) for x in ev["new"]],
            "p": {"method": ev["method"], "unit": ev["unit"], "threshold": float(q), "change": ev["subset"] if ev["hasSubset"] else None,
                  "palf": ev["palf"], "extf": ev["extf"]}}
