"""The start of the web service (C31): spec/Startup.tla judges configurations of the real program."""
import http.client
import json
import os
import re
import signal
import socket
import ssl
import subprocess
import time
import urllib.parse
from concurrent.futures import ThreadPoolExecutor

from . import core
from .common import REPO, VERIF, ToolError, binary
from .offers import Offered
from .web import Page, query

TLS = VERIF + "/tools/tls"
NAMES = ["polkadot", "substrate", "a", "A", "my repo", "a&b", "x_y", "cumulus.x", "größe", "r2", "UPPER"]
ORGS = ["paritytech", "org1", "Org", "a-b", "x.y", "o", "0"]


def config(r):
    """A configuration, mostly with at most one thing that is wrong."""
    names = r.sample(NAMES, r.choice([1, 1, 1, 2, 3, 3, 6, len(NAMES)]))
    repos = [{"name": n, "dir": "repo", "url": "https://github.com/%s/%s" % (r.choice(ORGS), r.choice([n.replace(" ", "-"), "r.git", "", "x/y/z"]))}
             for n in names]
    c = {"repos": repos, "static": "dir", "cert": "none", "key": "none", "port": "free"}
    if r.random() < 0.3:
        c["cert"] = c["key"] = "good"
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        k = r.choice(["url", "url", "dir", "none", "static", "tls", "tls", "port"])
        v = r.choice(repos)
        if k == "url":
            v["url"] = r.choice(["https://gitlab.com/o/r", "git@github.com:o/r.git", "ssh://git@github.com/o/r", "http://github.com/o/r", "https://github.com/o",
                                 "https://github.com//r", "https://github.company.com/o/r", "https://user@github.com/o/r", "/tmp/https://github.com/o/r", "",
                                 "https://github.com/", "https://github.com", "../github.com/o/r", "https://www.github.com/o/r"])
        elif k == "dir":
            v["dir"] = r.choice(["none", "plain"])
        elif k == "none":
            c["repos"] = []
        elif k == "static":
            c["static"] = r.choice(["none", "file"])
        elif k == "tls":
            c["cert"], c["key"] = r.choice([("good", "none"), ("none", "good"), ("good", "other"), ("other", "good"), ("broken", "good"), ("good", "broken"),
                                            ("missing", "good"), ("good", "missing"), ("folder", "good"), ("none", "missing")])
        else:
            c["port"] = r.choice(["taken", "bad"])
    # The same folder may be given twice.
    if c["repos"] and r.random() < 0.1:
        c["repos"] = c["repos"] + [c["repos"][0]]
    return c


def file_of(k, d, what):
    """The file of a certificate or a key; `what` is "cert" or "key"."""
    p = {"good": "%s/%s.pem" % (TLS, what), "other": "%s/other-%s.pem" % (TLS, what), "broken": d + "/broken.pem", "missing": d + "/missing.pem", "folder": d}
    return p[k]


def ask(port, path, secure, timeout=30):
    try:
        if secure:
            x = ssl.create_default_context()
            x.check_hostname, x.verify_mode = False, ssl.CERT_NONE
            c = http.client.HTTPSConnection("127.0.0.1", port, timeout=timeout, context=x)
        else:
            c = http.client.HTTPConnection("127.0.0.1", port, timeout=timeout)
        c.putrequest("GET", path, skip_accept_encoding=True)
        c.putheader("Connection", "close")
        c.endheaders()
        a = c.getresponse()
        return a.status, a.read().decode(errors="replace")
    except (OSError, http.client.HTTPException):
        return 0, ""


def seen(d, c, r):
    env = {"PATH": "/usr/bin:/bin", "HOME": d, "GIT_CONFIG_NOSYSTEM": "1", "LC_ALL": "C.UTF-8", "GIT_CEILING_DIRECTORIES": d, "GIT_TERMINAL_PROMPT": "0",
           "RUST_BACKTRACE": "0", "RUST_LOG": "error", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@x", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@x"}

    def git(cwd, *args):
        p = subprocess.run(["/usr/bin/git", *args], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise ToolError("git %s: %s" % (args, p.stdout))
        return p.stdout.strip()
    root = d + r.choice(["/root", "/root", "/other root"])
    os.makedirs(root)
    weights = {}
    for i, v in enumerate(c["repos"]):
        if v["dir"] == "none" or v["name"] in weights:
            continue
        p = root + "/" + v["name"]
        os.makedirs(p)
        w = weights[v["name"]] = [100 + i, 900 - 7 * i]
        if v["dir"] == "plain":
            continue
        git(p, "init", "-q", "-b", "main")
        if v["url"]:
            git(p, "remote", "add", "origin", v["url"])
        for x, b in zip(w, ("old", "new")):
            with open(p + "/w.rs", "w") as fh:
                fh.write("impl<T> WeightInfo for SubstrateWeight<T> {\n fn f() -> Weight { Weight::from_parts(%d, 0) }\n}\n" % x)
            git(p, "add", "-A")
            git(p, "commit", "-q", "-m", b)
            git(p, "tag", b)
    with open(d + "/broken.pem", "w") as fh:
        fh.write("-----BEGIN CERTIFICATE-----\nnothing\n")
    cmd = [binary("subweight-web")]
    if root != d + "/root" or r.random() < 0.6:
        cmd += [r.choice(["--root", "-r"]), r.choice([root, root + "/", os.path.relpath(root, d)])]
    if c["static"] == "dir" and r.random() < 0.3:
        os.makedirs(d + "/web")
        os.symlink(REPO + "/web/static", d + "/web/static")
    else:
        st = d + "/st"
        if c["static"] == "dir":
            os.symlink(REPO + "/web/static", st)
        elif c["static"] == "file":
            with open(st, "w") as fh:
                fh.write("x")
        cmd += [r.choice(["--static", "-s"]), st]
    names = [v["name"] for v in c["repos"]]
    if names != ["polkadot"] or r.random() < 0.5:
        cmd += ["--repos"] + names
    for k in ("cert", "key"):
        if c[k] != "none":
            cmd += ["--" + k, file_of(c[k], d, k)]
    if r.random() < 0.7:
        cmd += [r.choice(["--endpoint", "-e"]), r.choice(["127.0.0.1", "localhost", "0.0.0.0"])]
    names = sorted(set(names)) + r.sample(["nope", "root", "", "w.rs", "polkadot-sdk"], 2)
    for _ in range(5):
        with socket.socket() as s:
            s.bind(("127.0.0.1", 0))
            if c["port"] == "taken":
                s.listen()
            port = s.getsockname()[1]
            if c["port"] != "taken":
                s.close()
            with open(d + "/log", "wb") as fh:
                p = subprocess.Popen(cmd + [r.choice(["--port", "-p"]), r.choice(["65536", "-1", "http", ""]) if c["port"] == "bad" else str(port)],
                                     cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=fh, stderr=fh, start_new_session=True)
            try:
                up = False
                for _ in range(400):
                    if p.poll() is not None:
                        break
                    if c["port"] == "free":
                        try:
                            socket.create_connection(("127.0.0.1", port), 5).close()
                            up = True
                            break
                        except OSError:
                            pass
                    time.sleep(0.05)
                else:
                    # Neither ended nor reachable where it should be.
                    return cmd, {"up": c["port"] != "free", "status": 0, "said": False, "http": 0, "https": 0, "names": [], "orgs": [], "answers": []}, weights
                with open(d + "/log", errors="replace") as fh:
                    log = fh.read()
                if not up and c["port"] == "free" and "in use" in log:
                    continue      # (Somebody else was faster to take the port.)
                o = {"up": up, "status": p.returncode or 0, "said": bool(log.strip()), "http": 0, "https": 0, "names": [], "orgs": [], "answers": []}
                if up:
                    secure = c["cert"] != "none"
                    o["http"], o["https"] = ask(port, "/", False)[0], ask(port, "/", True)[0]
                    # (A TLS service may answer plain HTTP with an error.)
                    if secure and o["http"] >= 400:
                        o["http"] = 0
                    o["names"] = [x["v"] for x in Offered(ask(port, "/", secure)[1]).options("repoSelect")]
                    o["orgs"] = [x["v"] for x in Offered(ask(port, "/compare-mr", secure)[1]).options("select_repo")]
                    for n in names:
                        s, b = ask(port, query([("repo", n), ("old", "old"), ("new", "new"), ("path_pattern", "*.rs"), ("ignore_errors", "false"), ("threshold", "0"),
                                                ("unit", "time"), ("method", "base"), ("git_pull", "false")]), secure)
                        rows = Page(b).body() if s == 200 else []
                        vals = [int(re.sub(r"\D", "", x["cells"][i]["text"]) or -1) for x in rows for i in (2, 3)]
                        links = {m for m in re.findall(r"https://github\.com/([^/\"]+)/[^\"]*/w\.rs", b)}
                        o["answers"].append({"name": n, "status": s, "values": vals, "owner": links.pop() if len(links) == 1 else "?"})
                return cmd, o, weights
            finally:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
    raise ToolError("no port is free")


def run(chk, d, count):
    os.makedirs(d + "/startup")

    def one(i):
        r = core.rng("C31-%d" % i)
        c, p = config(r), "%s/startup/%d" % (d, i)
        os.makedirs(p)
        cmd, o, weights = seen(p, c, r)
        subprocess.run(["rm", "-rf", p], check=True)
        return cmd, {"op": "startup", "config": c, "seen": o, "weights": weights}
    with ThreadPoolExecutor(8) as ex:
        got = list(ex.map(one, range(count)))
    for _, e in got:
        chk.count("started" if e["seen"]["up"] else "refused")
        chk.count("answers", len(e["seen"]["answers"]))
    core.validate(chk, [e for _, e in got], d, "startup", lambda i: {"command": got[i][0], "event": got[i][1]}, module="AuxTrace")
    chk.sample({"command": got[0][0], "observed": got[0][1]["seen"]})
