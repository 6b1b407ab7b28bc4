"""The checks, one per property."""
import os

from . import auxl as aux, cli, command, core, front, gitrepo, localwork, offers, page, paths, startup, web
from .common import THOROUGH, build, scratch


def n(quick, thorough):
    return thorough if THOROUGH else quick


def pipeline(prop, *mix, small=()):
    """A check on the comparison pipeline; mix: (generator, quick count, thorough count); small: universes that are
    replayed completely, and on whose members the theorems of the specification are checked in the thorough tier."""
    def run(chk):
        build(["driver"])
        for part, *methods in small:
            with scratch() as d:
                if THOROUGH:
                    core.small(chk, d, part, 1, True)
                cases = core.small(chk, d, part, n(1, 2), False)
                if methods and not THOROUGH:
                    cases = [c for c in cases if c["p"]["method"] in methods]
                size = 300 if part == "pairs" else 4000
                for b in range(0, len(cases), size):
                    core.run_cases(chk, cases[b:b + size], d, "%s-%s-%d" % (prop, part, b // size))
            if chk.violations:
                return
        with scratch() as d:
            r = core.rng(prop)
            cases = []
            for g, q, t in mix:
                cases += [g(r) for _ in range(n(q, t))]
            r.shuffle(cases)
            # TLC reads a trace as a whole: bounded batches.
            for b in range(0, len(cases), 4000):
                core.run_cases(chk, cases[b:b + 4000], d, "%s-%d" % (prop, b // 4000))
    return run


def cmdline(prop, quick, thorough, *mix, small=()):
    """Runs of the command line program, besides those of the library."""
    inner = pipeline(prop, *mix, small=small) if mix else None

    def run(chk):
        build(["driver", "cli"])
        if inner:
            inner(chk)
        with scratch() as d:
            cli.run(chk, d, n(quick, thorough))
    return run


def big_case(r):
    return core.compare_case(r, big=True)


def many_functions(r):
    return core.many_case(r, "functions")


def library(*parts):
    def run(chk):
        build(["driver"] + [x for x, fs in (("cli", (cli.run, offers.run, command.run)), ("web", (offers.run, startup.run))) if any(f in fs for f, _, _ in parts)])
        with scratch() as d:
            for f, q, t in parts:
                f(chk, d, n(q, t))
    return run


def both(*fs):
    def run(chk):
        for f in fs:
            if not chk.violations:
                f(chk)
    return run


def commits(faults, quick, thorough):
    inner = gitrepo.run(faults)

    def run(chk):
        build(["driver", "cli"])
        with scratch() as d:
            gitrepo.model(chk, d, 3, THOROUGH)
            inner(chk, d, n(quick, thorough))
    return run


def uncommitted(quick, thorough):
    def run(chk):
        build(["driver", "cli"])
        with scratch() as d:
            localwork.model(chk, d, THOROUGH)
            localwork.run(chk, d, n(quick, thorough))
    return run


def service(deep, *parts, more=()):
    """Histories of requests; parts: (quick, thorough, arguments of web.run)."""
    def run(chk):
        build(["web"])
        with scratch() as d:
            if deep:
                web.model(chk, d, THOROUGH)
            for f in more:
                f(chk, d)
            for i, (q, t, kw) in enumerate(parts):
                if not chk.violations:
                    sub = "%s/%d" % (d, i)
                    os.makedirs(sub)
                    web.run(chk, sub, n(q, t), **kw)
    return run


def pages(quick, thorough):
    def run(chk):
        build(["driver", "web"])
        left = n(quick, thorough)
        for i in range(0, left, 3000):
            with scratch() as d:
                page.run(chk, d, min(3000, left - i), i // 3000)
    return run


def front_pages(quick, thorough):
    def run(chk):
        build(["web"])
        with scratch() as d:
            front.model(chk, d)
            front.run(chk, d, n(quick, thorough))
    return run


FAULTS = ("pre", "post", "down", "lock", "noise")

CHECKS = {
    "C01": pipeline("C01", (core.compare_case, 600, 20000), (big_case, 200, 6000), (core.dim_case, 150, 4000),
                    (core.count_case, 100, 2000), (core.many_case, 5, 60), small=[("pairs", "base", "exact-worst")]),
    "C02": pipeline("C02", (core.parse_case, 2000, 60000), (core.compare_case, 100, 1000), (core.many_parse, 12, 300), small=[("blocks",)]),
    "C03": pipeline("C03", (core.parse_case, 2000, 60000), (core.many_parse, 12, 300), small=[("docs",)]),
    "C04": both(library((aux.raw, 4000, 200000)),
                pipeline("C04", (core.parse_case, 1500, 60000), (core.compare_case, 300, 10000), (big_case, 300, 10000), (core.many_case, 3, 60), (core.many_parse, 4, 60))),
    "C05": pipeline("C05", (core.compare_case, 600, 20000), (core.limit_case, 30, 600), (core.worst_case, 150, 4000), small=[("ranges",)]),
    "C06": pipeline("C06", (core.worst_case, 400, 15000), (core.wide_case, 60, 2000), (core.compare_case, 150, 5000), (core.limit_case, 16, 300),
                    small=[("pairs", "guess-worst"), ("ranges", "guess-worst")]),
    "C07": pipeline("C07", (core.keys_case, 600, 20000), (core.many_case, 6, 100), (many_functions, 6, 40), (core.compare_case, 300, 8000), small=[("rows",)]),
    "C08": pipeline("C08", (core.compare_case, 500, 15000), (core.many_case, 3, 60), (core.dim_case, 300, 9000), small=[("pairs", "base")]),
    "C09": pipeline("C09", (core.sort_case, 200, 8000), (core.compare_case, 300, 8000), (big_case, 200, 6000), small=[("pairs", "asymptotic")]),
    "C10": pipeline("C10", (core.sort_case, 400, 15000), (core.many_case, 4, 60), (core.compare_case, 300, 8000), small=[("rows",)]),
    "C11": cmdline("C11", 150, 3000, (core.sort_case, 400, 15000), (core.many_case, 4, 60), (core.compare_case, 200, 8000), small=[("rows",)]),
    "C12": library((aux.contain, 200, 5000), (aux.files, 250, 6000), (paths.run, 25, 1000), (cli.run, 120, 2500)),
    "C14": library((aux.fmt, 1500, 30000)),
    "C15": library((aux.eq, 1500, 40000)),
    "C27": library((aux.terms, 3000, 100000), (aux.cterms, 2000, 20000)),
    "C28": library((offers.names, 300, 3000), (offers.run, 16, 400)),
    "C30": library((command.run, 450, 6000)),
    "C31": library((startup.run, 150, 4000)),
    "C29": front_pages(1500, 60000),
    "C16": cmdline("C16", 400, 8000),
    "C17": library((aux.others, 700, 15000)),
    "C18": commits(False, 150, 4000),
    "C19": library((paths.run, 80, 2500)),
    "C20": commits(True, 150, 4000),
    "C21": service(True, (45, 1500, dict(burst=4))),
    "C22": service(True, (30, 900, dict(length=30, repos=1, flawed=5, faults=("pre", "down"))),
                   (16, 600, dict(length=30, repos=1, burst=3, flawed=5))),
    "C23": service(False, (60, 2000, dict(flawed=50, faults=FAULTS, pages=True)), (8, 300, dict(burst=6, flawed=40, pages=True)),
                   more=(web.too_deep,)),
    "C24": pages(300, 15000),
    "C25": service(False, (90, 3000, dict(length=30, lists=True, faults=FAULTS))),
    "C26": library((aux.det, 250, 6000)),
    "C32": uncommitted(100, 2500),
    "C13": pipeline("C13", (core.count_case, 700, 20000), (core.compare_case, 150, 5000)),
}
