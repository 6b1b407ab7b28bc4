"""Generates weight files as abstract syntax (the one of spec/WeightExpr.tla and
spec/WeightFile.tla) and renders them to Rust source text.

There is no oracle in here: the abstract syntax goes into the trace, the rendered
text goes into the real code, and TLC relates both."""
import re

U128 = 2**128 - 1
COMPS = ["n", "s", "len", "max_key_len", "num_items", "q1", "r_t", "depth", "zz", "w_2",
         "aa", "bb", "cc", "dd", "ee", "ff", "gg", "hh", "ii"]
PAIR_ADD = "saturating_add"
PAIR_MUL = "saturating_mul"


def lit(v):
    return {"k": "lit", "v": v}


def path(n):
    return {"k": "path", "n": n}


def paren(e):
    return {"k": "paren", "e": e}


def cast(e):
    return {"k": "cast", "e": e}


def m(n, r, *a):
    if r["k"] in ("cast", "other"):
        r = paren(r)
    return {"k": "m", "n": n, "r": r, "a": list(a)}


def call(s, *a):
    return {"k": "call", "s": list(s), "a": list(a)}


def add(a, b):
    return m(PAIR_ADD, a, b)


def mul(a, b):
    return m(PAIR_MUL, a, b)


DB = ["T", "DbWeight", "get"]


def number(r, kind=None):
    kind = kind or r.choice("zostmmlb")
    if kind == "z":
        return 0
    if kind == "o":
        return 1
    if kind == "s":
        return r.randint(0, 20)
    if kind == "t":
        return r.choice([999, 1000, 1001, 1023, 1024, 10**6, 10**9 + 1, 10**12, 1024**2, 1024**3 + 5])
    if kind == "m":
        return r.randint(1, 10 ** r.randint(1, 9))
    if kind == "l":
        return r.randint(1, 10 ** r.randint(9, 15))
    return r.choice([2**32 - 1, 2**32, 2**53 + 1, 2**63, 2**64 - 1, 10**18 + 7])


class ExprGen:
    """Generates bodies of weight functions.

    comps: the components to use; big: allow values that saturate."""

    def __init__(self, r, comps, big=False, maxcount=30, wrap=0.25, deepinto=True):
        self.r, self.comps, self.big, self.maxcount, self.wrapp = r, comps, big, maxcount, wrap

    def num(self, kind=None):
        if self.big and self.r.random() < 0.2:
            return self.r.choice([U128, U128 - 1, 2**127, 10**38, 2**100, 2**64, 2**65 + 3])
        return number(self.r, kind)

    def wrap(self, e):
        while self.r.random() < self.wrapp:
            e = self.r.choice([paren, cast])(e)
        return e

    def lit(self, kind=None):
        return self.wrap(lit(self.num(kind)))

    def comp(self):
        return path(self.r.choice(self.comps))

    def db(self):
        x = self.r.random()
        if x < 0.7:
            return call(DB)
        if x < 0.85:
            return call(["RocksDbWeight", "get"])
        return call(["constants", self.r.choice(["ParityDbWeight", "MyRocksDbWeight"]), "get"])

    def count(self):
        x = self.r.random()
        if x < 0.03:
            return self.r.choice([1000, 1001, 999, 1002, 5000])
        return self.r.randint(0, self.maxcount)

    # -- one-dimensional ---------------------------------------------------
    def scalar(self, d, db=False):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            if self.comps and r.random() < 0.45:
                return self.wrap(self.comp())
            return self.lit()
        x = r.random()
        if x < 0.4:
            e = add(self.scalar(d - 1, db), self.scalar(d - 1, db))
        elif x < 0.8:
            e = mul(self.scalar(d - 1, db), self.small(d - 1))
        elif x < 0.86:
            e = m("into", self.scalar(d - 1, db))
        elif x < 0.9:
            e = call(["Weight", "zero"])
        elif x < 0.94:
            e = m("ref_time", call(["Weight", "from_ref_time"], self.scalar(d - 1, db)))
        elif db and x < 0.98:
            e = m(r.choice(["reads", "writes"]), self.db(), self.rwarg())
        else:
            e = call(["Weight", "from_ref_time"], self.scalar(d - 1, db))
        return self.wrap(e)

    def small(self, d):
        r = self.r
        if self.comps and r.random() < 0.6:
            return self.wrap(self.comp())
        return self.lit(r.choice("zoss"))

    def rwarg(self):
        r = self.r
        x = r.random()
        if x < 0.55 or not self.comps:
            return self.wrap(lit(self.count()))
        if x < 0.75:
            return self.wrap(self.comp())
        if x < 0.9:
            return self.wrap(mul(lit(r.randint(0, 9)), m("into", self.comp()) if r.random() < 0.5 else self.comp()))
        return self.wrap(add(lit(r.randint(0, 9)), self.comp()))

    def v1(self, d=3):
        """Legacy syntax: a chain of additions of products."""
        r = self.r
        e = self.term1(d)
        for _ in range(r.randint(0, 4)):
            e = add(e, self.term1(d))
        return self.wrap(e)

    def term1(self, d):
        r = self.r
        x = r.random()
        if x < 0.35:
            return m(r.choice(["reads", "writes"]), self.db(), self.rwarg())
        if x < 0.65 and self.comps:
            a, b = self.lit(r.choice("mmls")), self.wrap(self.comp())
            if r.random() < 0.2:
                a, b = b, a
            return self.wrap(mul(a, b))
        if x < 0.9:
            return self.lit(r.choice("mmlzo"))
        return self.scalar(d - 1, True)

    # -- two-dimensional ---------------------------------------------------
    def ctor(self, d):
        r = self.r
        x = r.random()
        pre = r.choice([["Weight"], ["Weight"], ["frame_support", "weights", "Weight"], ["W2"]])
        if x < 0.6:
            if r.random() < 0.6:
                return call(pre + ["from_parts"], self.lit(r.choice("mlmlzob")), self.lit(r.choice("mszzo")))
            return call(pre + ["from_parts"], self.scalar(d - 1), self.scalar(d - 1))
        if x < 0.78:
            return call(pre + ["from_ref_time"], self.scalar(d - 1) if r.random() < 0.4 else self.lit())
        if x < 0.93:
            return call(pre + ["from_proof_size"], self.scalar(d - 1) if r.random() < 0.4 else self.lit())
        return call(pre + ["zero"])

    def term2(self, d):
        r = self.r
        x = r.random()
        if x < 0.3:
            return m(r.choice(["reads", "writes"]), self.db(), self.rwarg())
        if x < 0.65 and self.comps:
            c = self.wrap(self.comp())
            if r.random() < 0.5:
                c = m("into", c)
            a = self.ctor(d)
            if r.random() < 0.1:
                a = add(a, self.ctor(d))
            if r.random() < 0.1:
                return mul(c, a)
            return mul(a, c)
        if x < 0.7 and self.comps:
            return mul(mul(self.ctor(d), self.comp()), self.comp())
        if x < 0.74:
            return m("into", self.ctor(d))
        return self.ctor(d)

    def v2(self, d=3):
        r = self.r
        e = self.wrap(self.term2(d))
        for _ in range(r.randint(0, 5)):
            t = self.wrap(self.term2(d))
            if r.random() < 0.15:
                t = add(t, self.term2(d))
            e = add(e, t) if r.random() < 0.93 else add(t, e)
            if r.random() < 0.1:
                e = self.wrap(e)
        return e

    def body(self):
        x = self.r.random()
        if x < 0.65:
            return self.v2()
        return self.v1()

    # -- anything ----------------------------------------------------------
    def wild(self, d=4):
        r = self.r
        if d <= 0 or r.random() < 0.2:
            return r.choice([lambda: self.lit(), lambda: {"k": "badlit"}, lambda: self.comp() if self.comps else path("x"),
                             lambda: {"k": "other"}, lambda: path("constants::X"),
                             lambda: call(["Weight", "zero"])])()
        x = r.random()
        if x < 0.15:
            return r.choice([paren, cast])(self.wild(d - 1))
        if x < 0.35:
            name = r.choice(["from_parts", "from_ref_time", "from_proof_size", "zero", "new", "from"])
            pre = r.choice([["Weight"], [], ["a", "Weight"]])
            n = r.choice([0, 1, 1, 2, 2, 3])
            return call(pre + [name], *[self.wild(d - 1) for _ in range(n)])
        if x < 0.5:
            rc = r.choice([call(DB), call(DB), call(["RocksDbWeight", "get"]), call(["X", "DbWeight", "get"]),
                           call(["T", "DbWeight", "put"]), call(DB, lit(1)), path("x"), call(["RocksDbWeight"])])
            return m(r.choice(["reads", "writes", "reads_writes"]), rc,
                     *[self.wild(d - 1) for _ in range(r.choice([1, 1, 1, 0, 2]))])
        name = r.choice([PAIR_ADD, PAIR_MUL, PAIR_ADD, PAIR_MUL, "into", "ref_time", "proof_size", "checked_add"])
        n = r.choice([1, 1, 1, 1, 0, 2]) if name.startswith("sat") else r.choice([0, 0, 0, 1])
        return m(name, self.wild(d - 1), *[self.wild(d - 1) for _ in range(n)])


def used(e, acc=None):
    """All variables of an expression (for generating annotations)."""
    acc = set() if acc is None else acc
    if e["k"] == "path":
        acc.add(e["n"])
    for x in ("e", "r"):
        if x in e:
            used(e[x], acc)
    for a in e.get("a", []):
        used(a, acc)
    return acc


def clone(e):
    c = dict(e)
    for x in ("e", "r"):
        if x in c:
            c[x] = clone(c[x])
    if "a" in c:
        c["a"] = [clone(x) for x in c["a"]]
    if "s" in c:
        c["s"] = list(c["s"])
    return c


def nodes(e, acc=None):
    acc = [] if acc is None else acc
    acc.append(e)
    for x in ("e", "l", "r"):
        if x in e:
            nodes(e[x], acc)
    for a in e.get("a", []):
        nodes(a, acc)
    return acc


def mutate(r, e, g):
    """A variation of a formula; may or may not change its meaning."""
    e = clone(e)
    ns = nodes(e)
    x = r.random()
    lits = [n for n in ns if n["k"] == "lit"]
    if x < 0.55 and lits:
        l = r.choice(lits)
        v = l["v"]
        l["v"] = min(U128, max(0, r.choice([v + 1, v - 1, v * 2, v // 2, v + v // 100, v + v // 1000, v - v // 50,
                                            0, 1, v + r.randint(0, v + 10), number(r)])))
        return e
    if x < 0.65:
        bins = [n for n in ns if n["k"] == "m" and n["n"] in (PAIR_ADD, PAIR_MUL)]
        if bins:
            b = r.choice(bins)
            rr, aa = b["r"], b["a"][0]
            if aa["k"] in ("cast", "other"):
                aa = paren(aa)
            b["r"], b["a"] = aa, [rr]
        return e
    if x < 0.75:
        ps = [n for n in ns if n["k"] == "path"]
        if ps and g.comps:
            r.choice(ps)["n"] = r.choice(g.comps)
        return e
    if x < 0.85:
        return paren(e) if r.random() < 0.5 else m("into", e)
    if x < 0.93:
        return add(e, call(["Weight", "zero"]))
    return g.body()


METHODS = [PAIR_ADD, PAIR_MUL, "into", "ref_time", "proof_size", "checked_add", "saturating_sub", "saturating_adds", "add", "mul",
           "reads", "writes", "reads_writes", "read", "write", "get"]


def near(r, e):
    """A formula with one thing in it that may not be understood any more."""
    e = clone(e)
    ns = [n for n in everything(e) if n["k"] in ("call", "m")]
    if not ns:
        return e
    n = r.choice(ns)
    x = r.random()
    if x < 0.3:
        a = n["a"]
        y = r.random()
        if a and y < 0.4:
            a.pop(r.randrange(len(a)))
        elif y < 0.8:
            a.insert(r.randint(0, len(a)), lit(r.choice([0, 1, 7])))
        elif len(a) == 2:
            a.reverse()
    elif n["k"] == "m":
        n["n"] = r.choice(METHODS)
    else:
        s = n["s"]
        i = r.randrange(len(s))
        y = r.random()
        if y < 0.3:
            s[i] = r.choice(["X", "Y"] + [s[i] + "_", "x" + s[i], s[i].swapcase(), s[i][:-1] or "z"])
        elif y < 0.6:
            s.insert(i, r.choice(["X", "T", "x", "Weight", "RocksDbWeight", s[i]]))
        elif y < 0.8 and len(s) > 1:
            s.pop(i)
        else:
            n["s"] = list(r.choice([["T", "DbWeight", "get"], ["X", "DbWeight", "get"], ["T", "DbWeights", "get"], ["frame", "T", "DbWeight", "get"],
                                    ["RocksDbWeight", "gets"], ["Weight", "from_parts"], ["Weight", "zero"], ["Weight", "from_ref_time"],
                                    ["Weight", "from_proof_size"], ["Weight", "from"], ["Weights", "from_parts"]]))
    return e


def everything(e, acc=None):
    """All parts of a formula, receivers as well."""
    acc = [] if acc is None else acc
    acc.append(e)
    for x in ("e", "r"):
        if x in e:
            everything(e[x], acc)
    for a in e.get("a", []):
        everything(a, acc)
    return acc


# ---------------------------------------------------------------------------
# Files

def rng_doc(c, lo, hi):
    return {"k": "range", "c": c, "lo": lo, "hi": hi}


def fn(name, e, docs=(), ret="Weight"):
    return {"name": name, "ret": ret, "stmts": [{"k": "expr", "e": e}], "docs": list(docs)}


def impl(fns, self="WeightInfo"):
    return {"k": "impl", "self": self, "fns": fns}


def file(items, syntax=True):
    return {"syntax": syntax, "items": items}


def rand_range(r):
    x = r.random()
    if x < 0.15:
        v = r.randint(0, 50)
        return v, v
    if x < 0.75:
        lo = r.randint(0, 20)
        return lo, lo + r.randint(0, 200)
    if x < 0.9:
        lo = r.randint(0, 5000)
        return lo, lo + r.randint(0, 10**6)
    return r.choice([(0, 2**32 - 1), (0, 10**6), (1, 1_048_576), (0, 0), (2**32 - 1, 2**32 - 1)])


# ---------------------------------------------------------------------------
# Rendering

BADLITS = ["1.5", '"abc"', "true", "'c'", "b'a'", "340282366920938463463374607431768211456", "1e3", 'b"x"',
           "0.0f32", "999999999999999999999999999999999999999999", "r\"x\"", "false"]
OTHERS = ["a + b", "-1", "{ x }", "x.y", "x[0]", "&x", "vec![1]", "(1, 2)", "|x| x", "!x", "a * 2", "if a { b } else { c }",
          "[1, 2]", "Foo { a: 1 }", "loop {}", "a..b", "x?", "match x { _ => 1 }", "()", "(a, b).0", "unsafe { x }"]
CASTS = ["Weight", "u64", "u128", "usize", "sp::Weight", "Foo<u32>"]


class Render:
    def __init__(self, r, plain=False):
        self.r, self.plain = r, plain

    def lit(self, v):
        if self.plain:
            return f"{v:_}"
        x = self.r.random()
        if x < 0.55:
            s = f"{v:_}"
        elif x < 0.75:
            s = str(v)
        elif x < 0.85:
            s = hex(v)
        elif x < 0.9:
            s = oct(v)
        elif x < 0.93:
            s = bin(v)
        else:
            s = "0" * self.r.randint(1, 3) + str(v)
        if self.r.random() < 0.15:
            s += self.r.choice(["u64", "_u64", "_u128", "u32", "usize"]) if not s.startswith("0x") else "_u64"
        return s

    def ws(self):
        return "\n\t\t\t" if not self.plain and self.r.random() < 0.3 else ""

    def expr(self, e):
        k = e["k"]
        if k == "lit":
            return self.lit(e["v"])
        if k == "badlit":
            return self.r.choice(BADLITS)
        if k == "path":
            return e["n"]
        if k == "paren":
            return "(" + self.expr(e["e"]) + ")"
        if k == "cast":
            t = self.expr(e["e"])
            if e["e"]["k"] == "other":
                t = "(" + t + ")" if False else t
            return t + " as " + self.r.choice(CASTS)
        if k == "call":
            s = "::".join(e["s"])
            if not self.plain and self.r.random() < 0.05 and len(e["s"]) > 1:
                s = e["s"][0] + "::<T>::" + "::".join(e["s"][1:])
            return s + "(" + self.args(e["a"], e["s"][-1] == "zero") + ")"
        if k == "m":
            return self.expr(e["r"]) + self.ws() + "." + e["n"] + "(" + self.args(e["a"], e["n"] == "ref_time") + ")"
        if k == "other":
            return self.r.choice(OTHERS)
        raise ValueError(k)

    def args(self, a, often=False):
        s = ", ".join(self.expr(x) for x in a)
        if a and not self.plain and self.r.random() < (0.4 if often else 0.1):
            s += ","
        return s

    def num_us(self, v):
        if self.plain:
            return str(v)
        return self.r.choice([str(v), f"{v:_}"])

    def doc(self, d):
        r = self.r
        if d["k"] == "range":
            lo, hi = self.num_us(d["lo"]), self.num_us(d["hi"])
            sep = ", " if self.plain else r.choice([", ", ", ", ",", ",  "])
            tail = "" if self.plain else r.choice(["", "", ".", " (guessed)."])
            pre, mid = "The range of component ", " is "
            if not self.plain and r.random() < 0.15:
                # The words around the name and the bounds do not matter.
                pre = r.choice(["", "Component ", "Range: ", "The range, in items, of ", "range of  component "])
                mid = r.choice(["", " ", " lies within ", " is  in ", " in 2 steps of 5 is "])
            t = f"{pre}`{d['c']}`{mid}`[{lo}{sep}{hi}]`{tail}"
            if not self.plain and r.random() < 0.1:
                return f'#[doc = "{t}"]'
            if not self.plain and r.random() < 0.03:
                return f"/** {t} */"
            return "/// " + t
        return r.choice([
            "/// Storage: `System Account` (r:1 w:1)", "/// Proof: Skipped", "#[allow(unused)]", "/// ",
            "/// The range of component `n` is [0, 5].", "/// The range of component n is `[1, 5]`.",
            "/// The range of component `n` is `[1; 5]`.", "/// The range of component `n` is `1, 5`.",
            "/// Estimated: `12 + n * (3 ±0)`", "#[cfg(feature = \"x\")]",
            "/// Minimum execution time: 5_000 nanoseconds.", "/// The range of component `n` is `[-1, 5]`.",
            "/// The range of component `n`, in items: `[1, 5]`.", "/// The range of component `n` is `[1, 5`.",
            "/// The range of component `n` is `[5]`.",
            "/// Standard Error: 1_234", "#[doc(hidden)]",
        ])

    def stmt(self, s):
        r = self.r
        if s["k"] == "expr":
            t = self.expr(s["e"])
            if re.match(r"(\{|unsafe\b|if\b|match\b|loop\b|while\b|for\b|async\b|const\b)", t) and s["e"]["k"] != "other":
                t = "(" + t + ")"      # a statement that starts with a block ends with it
            return t + (";" if not self.plain and r.random() < 0.1 and s["e"]["k"] != "other" else "")
        if s["k"] == "let":
            return "let x = 5;"
        if s["k"] == "item":
            return r.choice(["const X: u64 = 5;", "fn g() {}", "use a::b;"])
        if s["k"] == "macro":
            return r.choice(["foo!();", "foo! { a b }", "assert!(x);"])
        raise ValueError(s)

    def fn(self, f):
        r = self.r
        ret = f["ret"]
        if ret == "":
            rets = r.choice(["", " -> (Weight, Weight)", " -> &Weight", " -> [Weight; 2]", " -> !"])
        else:
            rets = " -> " + ("" if self.plain else r.choice(["", "", "", "frame::", "a::b::"])) + ret
            if not self.plain and r.random() < 0.05:
                rets += "<T>"
        args = ", ".join(f"{c}: u32" for c in sorted({d["c"] for d in f["docs"] if d["k"] == "range"}))
        out = []
        for d in f["docs"]:
            out.append("\t" + self.doc(d))
        vis = "" if self.plain else r.choice(["", "", "pub ", "#[inline] "])
        out.append(f"\t{vis}fn {f['name']}({args}){rets} {{")
        for i, s in enumerate(f["stmts"]):
            t = self.stmt(s)
            if i + 1 < len(f["stmts"]) and s["k"] == "expr" and not t.endswith(";"):
                t += ";"
            out.append("\t\t" + t)
        out.append("\t}")
        return "\n".join(out)

    def item(self, it):
        r = self.r
        if it["k"] == "other":
            return r.choice(["use frame_support::weights::Weight;", "pub struct WeightInfo<T>(PhantomData<T>);",
                             "const X: u64 = 5;", "pub trait WeightInfo { fn a() -> Weight; }",
                             "mod foo { impl WeightInfo { fn hidden() -> Weight { Weight::zero() } } }",
                             "fn free() -> Weight { Weight::zero() }", "parameter_types! { const A: u64 = 5; }",
                             "type A = u64;", "#![allow(dead_code)]" if False else "enum E { A }"])
        selfs = {
            "WeightInfo": ["impl<T: frame_system::Config> pallet::WeightInfo for WeightInfo<T>", "impl WeightInfo",
                           "impl<T> a::b::WeightInfo for WeightInfo"],
            "SubstrateWeight": ["impl<T: frame_system::Config> WeightInfo for SubstrateWeight<T>"],
            "()": ["impl WeightInfo for ()"],
            "tuple1": ["impl WeightInfo for (A,)", "impl WeightInfo for (A, B)"],
            "otherpath": ["impl WeightInfo for Other<T>", "impl Foo", "impl X for weightInfo", "impl X for WeightInfos",
                          "impl X for MySubstrateWeight"],
            "twoseg": ["impl X for a::WeightInfo", "impl X for super::SubstrateWeight<T>"],
            "colon": ["impl X for ::WeightInfo"],
            "othertype": ["impl X for &WeightInfo", "impl X for [WeightInfo; 2]", "impl X for [WeightInfo]"],
        }[it["self"]]
        out = [selfs[0] if self.plain else r.choice(selfs)]
        out[0] += " {"
        for f in it["fns"]:
            if not self.plain and r.random() < 0.05:
                out.append(r.choice(["\tconst A: u64 = 5;", "\ttype B = u64;", "\tfoo!();"]))
            out.append(self.fn(f))
        if not self.plain and not it["fns"] and r.random() < 0.5:
            out.append(r.choice(["\tconst A: u64 = 5;", "\ttype B = u64;", "\tfoo!();", "\t// nothing"]))
        out.append("}")
        return "\n".join(out)

    def file(self, f):
        s = "\n\n".join(self.item(i) for i in f["items"]) + "\n"
        if not self.plain and self.r.random() < 0.3:
            s = "#![cfg_attr(rustfmt, rustfmt_skip)]\n//! Autogenerated\n" + s
        if not f["syntax"]:
            s += self.r.choice(["}", "fn", "impl WeightInfo {", "\"", "fn a( { }", "/* open", "1 + 1", "'"])
        return s
