"""P19: the server's command line.

All sequences of options, valid and invalid, up to a length, with and without
configuration files and addresses, are given to the real paf.daemon.main with
the real logging set up; what would be served and logged is compared with an
independent reading of the manual page. Some are run for real, and what the
server does is observed at its sockets."""
import io
import itertools
import json
import logging
import os
import shutil
import socket
import sys

import vworld
from choose import batches
from checks.p18 import effective, norm
from vworld import Episode, Violation, stub

import paf.conf
import paf.daemon
import paf.logging

FILES = {
    "full": """
domains:
- name: d0
  sockets: [ux:f0, {addr: 'tls:*:9', tls: {cert: /c}}]
  idle: {min: 5, max: 6}
  protocol_version: {min: 3}
- addrs: [ux:f1]
  max_idle_time: 77
resources:
  total: {clients: 3, services: 4}
  user: {clients: 2, subscriptions: 9}
log: {console: true, syslog: false, filter: warning, facility: local3,
      log_file: @file1@, log_file_backup: 1, log_file_max_size: 300}
""",
    "log": "log: {console: true, syslog_socket: @sock1@, filter: error}\n",
    "doms": "domains: [{sockets: [ux:f0, ux:f2]}]\n"
            "log: {syslog_socket: @sock1@}\n",
    "empty": "{}\n",
    "bad": "domains: [{sockets: 1}]\n",
    "badyaml": "domains: [\n",
    "notdict": "",
}

# (arguments, effect); effect: (key, value), "invalid", "exit"
VALID = [
    (["-s"], ("console", True)),
    (["-n"], ("syslog", False)),
    (["-u", "@sock1@"], ("syslog_socket", "@sock1@")),
    (["-u@sock2@"], ("syslog_socket", "@sock2@")),
    (["-o", "@file2@"], ("log_file", "@file2@")),
    (["-b", "2"], ("log_file_backup", 2)),
    (["-b0"], ("log_file_backup", 0)),
    (["-x", "200"], ("log_file_max_size", 200)),
    (["-y", "local5"], ("facility", "local5")),
    (["-l", "debug"], ("filter", "debug")),
    (["-lcritical"], ("filter", "critical")),
    (["-c", "0"], ("clients", None)),
    (["-c", "5"], ("clients", 5)),
    (["-m", "ux:m1+ux:m2"], ("domain", ["ux:m1", "ux:m2"])),
    (["-mux:m3"], ("domain", ["ux:m3"])),
]
INVALID = [
    (["-u", "@dir@/missing"], "badsock"),
    (["-o", "@dir@/missing/x"], "badfile"), (["-o", "@dir@"], "badfile"),
    (["-b", "x"], "invalid"), (["-b", ""], "invalid"),
    (["-b", "1.5"], "invalid"), (["-x", "1k"], "invalid"),
    (["-x", ""], "invalid"),
    (["-y", "local8"], "invalid"), (["-y", ""], "invalid"),
    (["-y", "LOCAL5"], "invalid"), (["-l", "all"], "invalid"),
    (["-l", ""], "invalid"), (["-l", "10"], "invalid"),
    (["-c", "x"], "invalid"), (["-c", "-1"], "invalid"),
    (["-c", ""], "invalid"), (["-c", "1.0"], "invalid"),
    (["-q"], "invalid"), (["--help"], "invalid"), (["-sq"], "invalid"),
    (["--syslog=x"], "invalid"),
]
EXITS = [(["-v"], "version"), (["-h"], "usage"), (["-sv"], "version"),
         (["-nh"], "usage")]
COMBINED = [(["-sn"], [("console", True), ("syslog", False)]),
            (["-nlerror"], [("syslog", False), ("filter", "error")])]
LAST = [["-l"], ["-c"], ["-m"], ["-f"], ["-sb"]]     # operand missing
ARGS = [[], ["ux:a"], ["ux:a", "tcp:*:1"], ["--", "ux:a"],
        ["ux:a", "-s"], ["ux:a", "ux:a"], ["-"]]
FILEARGS = [None] + sorted(FILES) + ["missing", "dir"]


class Dir:
    pid = None

    @classmethod
    def get(cls):
        if cls.pid != os.getpid():
            cls.pid = os.getpid()
            cls.path = os.path.join(vworld._tmp, "c19.%d" % cls.pid)
            shutil.rmtree(cls.path, ignore_errors=True)
            os.mkdir(cls.path)
            cls.socks = []
            for n in ("1", "2"):
                s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
                s.bind(cls.path + "/s" + n)
                s.setblocking(False)
                cls.socks.append(s)
            with open(cls.path + "/f3", "w"):
                pass
            for n, t in FILES.items():
                with open(cls.path + "/conf." + n, "w") as f:
                    f.write(cls.expand(t))
        return cls

    @classmethod
    def expand(cls, s):
        for k, v in (("sock", "s"), ("file", "f")):
            for n in "123":
                s = s.replace("@%s%s@" % (k, n), cls.path + "/" + v + n)
        return s.replace("@dir@", cls.path)

    @classmethod
    def drain(cls):
        for s in cls.socks:
            try:
                while True:
                    s.recv(65536)
            except BlockingIOError:
                pass

    @classmethod
    def clean(cls):
        cls.drain()
        for n in os.listdir(cls.path):
            if n[0] == "f" and n != "f3":
                os.unlink(cls.path + "/" + n)


class Captured(BaseException):
    def __init__(self, conf):
        self.conf = conf


def invoke(argv, record=True):
    """Runs main. Returns (conf or None, status, output, log)."""
    d = Dir.get()
    root = logging.getLogger()
    saved = root.handlers, root.level, sys.stdout, sys.stderr, \
        paf.daemon.run, logging.raiseExceptions
    out, err = io.StringIO(), io.StringIO()
    root.handlers = []
    sys.stdout, sys.stderr = out, err
    conf, status, log = None, None, None

    def run(conf, hook=None):
        raise Captured(conf)
    paf.daemon.run = run
    stub.stub_reset()
    try:
        try:
            paf.daemon.main(["pafd"] + argv)
            status = "returned"
        except SystemExit as e:
            status = e.code
        except Captured as e:
            conf = e.conf
            text = out.getvalue() + err.getvalue()
            if text:
                raise Violation("pafd %r prints %r" % (argv, text[:300]))
            if record:
                log = what_is_logged(d, err)
        if stub.stub_num():
            raise Violation("pafd %r opens sockets" % argv)
        return conf, status, out.getvalue() + err.getvalue(), log
    finally:
        for h in root.handlers:
            h.close()
        root.handlers, level, sys.stdout, sys.stderr, paf.daemon.run, \
            logging.raiseExceptions = saved
        root.setLevel(level)
        d.clean()


LEVELS = dict(debug=10, info=20, warning=30, error=40, critical=50)
SEVERITY = dict(debug=7, info=6, warning=4, error=3, critical=2)
FACILITY = dict(daemon=3, local3=19, local5=21)


def what_is_logged(d, err):
    """{destination: [levels]}"""
    c = paf.logging.LogCategory.CORE
    logger = logging.getLogger()
    for name, lev in LEVELS.items():
        if name in ("debug", "info", "warning"):
            getattr(paf.logging, name)("@%s@" % name, c)
        else:
            logger.log(lev, "@%s@" % name, extra={'msg_id': 'core'})

    def levels(text):
        return tuple(n for n in LEVELS if "@%s@" % n in text)
    res = {"console": levels(err.getvalue())}
    for i, s in enumerate(d.socks):
        got = []
        try:
            while True:
                m = s.recv(65536).decode()
                name = levels(m)
                pri = int(m[1:m.index(">")])
                if len(name) != 1 or pri & 7 != SEVERITY[name[0]]:
                    raise Violation("logged to syslog: %r" % m)
                got.append((name[0], pri >> 3))
                if "pafd[%d]" % os.getpid() not in m:
                    raise Violation("logged to syslog without the program's "
                                    "name: %r" % m)
        except BlockingIOError:
            pass
        if got:
            res["s%d" % (i + 1)] = tuple(got)
    for n in sorted(os.listdir(d.path)):
        if n[0] == "f" and n != "f3":
            with open(d.path + "/" + n) as f:
                res[n] = levels(f.read())
    # rotation
    for k in range(30):
        logger.critical("x" * 90, extra={'msg_id': 'core'})
        d.drain()
    res["copies"] = sorted(n for n in os.listdir(d.path) if "." in n and
                           n[0] == "f")
    res["large"] = sorted(n for n in os.listdir(d.path)
                          if n[0] == "f" and os.path.getsize(
                              d.path + "/" + n) > 400)
    return res


def base_of(d, fname):
    """What the file says, as far as it is valid; None otherwise."""
    if fname is None or fname == "empty":
        return dict(domains=[], limits={"user": (None,) * 3,
                                        "total": (None,) * 3}, log={})
    none = (None,) * 3
    if fname == "full":
        return dict(
            domains=[dict(name="d0", versions=(3, 3), idle=(5, 6),
                          sockets=[("ux:f0", {}),
                                   ("tls:*:9", {"cert": "/c"})]),
                     dict(name=None, versions=(2, 3), idle=(4, 77),
                          sockets=[("ux:f1", {})])],
            limits=dict(user=(2, None, 9), total=(3, 4, None)),
            log=dict(console=True, syslog=False, filter="warning",
                     facility="local3", log_file="@file1@",
                     log_file_backup=1, log_file_max_size=300))
    if fname == "log":
        return dict(domains=[], limits=dict(user=none, total=none),
                    log=dict(console=True, syslog_socket="@sock1@",
                             filter="error"))
    if fname == "doms":
        return dict(domains=[dict(name=None, versions=(2, 3), idle=(4, 30),
                                  sockets=[("ux:f0", {}), ("ux:f2", {})])],
                    limits=dict(user=none, total=none),
                    log=dict(syslog_socket="@sock1@"))
    return None


DEFLOG = dict(console=False, syslog=True, syslog_socket="/dev/log",
              facility="daemon", filter="info", log_file=None,
              log_file_backup=0, log_file_max_size=1000000)


def expected(d, fname, effects, args):
    """("invalid",), ("exit", kind), ("run", conf, log) or ("any",)"""
    bad = [e for e in effects if e == "invalid"]
    exits = [e for e in effects if e in ("version", "usage")]
    base = base_of(d, fname)
    if exits:
        return ("any",) if bad or base is None else ("exit", exits[0])
    if bad or base is None:
        return ("invalid",)
    log = dict(DEFLOG, **base["log"])
    doms = []
    limits = {k: list(v) for k, v in base["limits"].items()}
    for e in effects:
        k, v = e if not isinstance(e, str) else (e, None)
        if k == "domain":
            doms.append(v)
        elif k == "clients":
            limits["total"][0] = v
        elif k == "badsock":
            log["syslog_socket"] = k
        elif k == "badfile":
            log["log_file"] = k
        else:
            log[k] = v
    doms += [[a] for a in args]
    if doms:
        domains = [dict(name=None, versions=(2, 3), idle=(4, 30),
                        sockets=[(a, {}) for a in s]) for s in doms]
    else:
        domains = base["domains"]
    if not domains:
        return ("invalid",)
    if log["log_file"] == "badfile" or \
       log["syslog"] and log["syslog_socket"] in ("badsock", "/dev/log"):
        return ("invalid",)
    lev = tuple(n for n in LEVELS if LEVELS[n] >= LEVELS[log["filter"]])
    logged = {"console": lev if log["console"] else (), "copies": [],
              "large": []}
    if log["syslog"]:
        s = "s" + log["syslog_socket"][-2]
        logged[s] = tuple((n, FACILITY[log["facility"]]) for n in lev)
    if log["log_file"]:
        f = "f" + log["log_file"][-2]
        # the rotation wipes out what was logged at first
        logged[f] = lev
        n, size = log["log_file_backup"], log["log_file_max_size"]
        if n and size < 1000:
            logged["copies"] = [f + "." + str(i + 1) for i in range(n)]
        else:
            logged["large"] = [f]
    return ("run", domains, limits, logged)


def check_one(b, fname, fpos, toks, args):
    d = Dir.get()
    argv, effects = [], []
    for i in range(len(toks) + 1):
        if fname is not None and i == fpos:
            argv += ["-f", d.path if fname == "dir" else
                     d.path + "/conf." + fname]
        if i < len(toks):
            argv += toks[i][0]
            e = toks[i][1]
            effects += e if isinstance(e, list) else [e]
    addrs = args
    if args[:1] == ["--"]:
        addrs = args[1:]
    argv = [d.expand(a) for a in argv] + args
    want = expected(d, fname, effects, addrs)
    verdict(b, argv, want)


def verdict(b, argv, want):
    b.n += 1
    b.states += 1
    b.note(want[0])
    try:
        conf, status, out, log = invoke(argv)
    except Exception as e:
        raise Violation("pafd %r fails with %s: %s" % (argv,
                                                       type(e).__name__, e))
    if status == "returned":
        raise Violation("pafd %r does nothing" % argv)
    if want[0] in ("invalid", "any"):
        if conf is not None:
            raise Violation("pafd %r starts" % argv)
        if want[0] == "any":
            if not out.strip():
                raise Violation("pafd %r ends without a word" % argv)
            return
        if status in (0, None) or not out.strip():
            raise Violation("pafd %r ends with status %r, printing %r" % (
                argv, status, out[:300]))
        if "Traceback" in out:
            raise Violation("pafd %r fails internally: %s" % (argv,
                                                              out[-300:]))
        return
    if want[0] == "exit":
        if conf is not None or status not in (0, None):
            raise Violation("pafd %r %s" % (
                argv, "starts" if conf else "fails: %r" % out[:300]))
        if (want[1] == "version") != ("3" in out and "-f <conf" not in out):
            raise Violation("pafd %r prints %r" % (argv, out[:300]))
        return
    if conf is None:
        raise Violation("pafd %r is refused: %s" % (argv, out[:300]))
    got = effective(conf)
    _, domains, limits, logged = want
    if sorted(repr(norm(x)) for x in got["domains"]) != \
       sorted(repr(norm(x)) for x in domains):
        raise Violation("pafd %r serves %r" % (argv, got["domains"]))
    if norm(got["limits"]) != norm(limits):
        raise Violation("pafd %r has limits %r" % (argv, got["limits"]))
    if logged != log:
        raise Violation("pafd %r logs %r instead of %r" % (argv, log,
                                                           logged))


TOKENS = VALID + INVALID + EXITS + COMBINED


def sequences(n):
    def fun(b, first):
        for rest in itertools.product(range(len(TOKENS)), repeat=n - 1):
            toks = [TOKENS[i] for i in (first,) + rest]
            for args in (["ux:a"],):
                check_one(b, None, 0, toks, args)
    return fun


def with_files(n):
    """Valid options with all files, at all positions."""
    def fun(b, item):
        fname, args = item
        for toks in itertools.product(VALID, repeat=n):
            for pos in range(n + 1):
                check_one(b, fname, pos, toks, args)
    return fun


def invalid_with_files(b, item):
    fname, args = item
    for t in INVALID + EXITS + COMBINED:
        for pos in (0, 1):
            check_one(b, fname, pos, [t], args)
    for t in LAST:
        d = Dir.get()
        for args in ([],):
            argv = (["-f", d.path + "/conf." + fname] if fname else []) + \
                ["-m", "ux:m", "-n"] + t
            verdict(b, argv, ("invalid",))


def permutations(b, item):
    """All orders of one option of each kind, and an invalid one."""
    kinds = [VALID[0], VALID[2], VALID[4], VALID[5], VALID[7], VALID[8],
             VALID[9], VALID[12], VALID[13], VALID[14]]
    first, n, wrong = item
    for p in itertools.permutations([i for i in range(len(kinds))
                                     if i != first], n - 1):
        toks = [kinds[first]] + [kinds[i] for i in p]
        if wrong is None:
            check_one(b, "full", n % 3, toks, ["ux:a"])
            check_one(b, None, 0, toks, [])
        else:
            for pos in range(len(toks) + 1):
                check_one(b, None, 0, toks[:pos] + [INVALID[wrong]] +
                          toks[pos:], ["ux:a"])


# ------------------------------------------------------------- end to end

def serve(b, item):
    """What is served by a started server, and to how many clients."""
    fname, toks, args = item
    d = Dir.get()
    argv, effects = [], []
    if fname:
        argv += ["-f", d.path + "/conf." + fname]
    for t in toks:
        argv += t[0]
        effects += [t[1]]
    argv = ["pafd", "-n"] + [d.expand(a) for a in argv] + \
        ["-r", "vworld.hook"] + args
    want = expected(d, fname, [("syslog", False)] + effects, args)
    b.n += 1
    b.states += 1
    ep = Episode("")
    domains, limits = want[1], want[2]

    def driver():
        yield
        for dom in domains:
            for a, tls in dom["sockets"]:
                if stub.stub_find_server(a.encode()) < 0:
                    raise Violation("%r: nothing listens at %s" % (argv, a))
        n = sum(len(dom["sockets"]) for dom in domains)
        if stub.stub_num() != n:
            raise Violation("%r: %d sockets are open" % (argv,
                                                         stub.stub_num()))
        for dom in domains:
            peers = []
            caps = [x for x in (limits["total"][0], limits["user"][0])
                    if x is not None]
            for k in range(8):
                p = ep.connect(dom["sockets"][k % len(dom["sockets"])][0])
                p.send(ta_cmd="hello", ta_id=1, msg_type="request",
                       client_id=k, protocol_minimum_version=2,
                       protocol_maximum_version=3)
                yield
                if [m for m in p.recv()
                        if m.get("protocol-version") == 3]:
                    peers.append(p)
                else:
                    p.close()
            if len(peers) != min(caps + [8]):
                raise Violation("%r: %d clients are admitted" % (
                    argv, len(peers)))
            # one directory for all sockets of a domain
            peers[0].send(ta_cmd="publish", ta_id=2, msg_type="request",
                          service_id=len(str(dom)), generation=1,
                          service_props={}, ttl=100)
            yield
            peers[-1].send(ta_cmd="services", ta_id=3, msg_type="request")
            yield
            ids = [m["service-id"] for m in peers[-1].recv()
                   if m.get("msg-type") == "notify"]
            if ids != [len(str(dom))]:
                raise Violation("%r: the services of a domain are %r" % (
                    argv, ids))
            for p in peers:
                p.close()
            yield

    saved = paf.logging.configure
    paf.logging.configure = lambda *a, **kw: None
    err, sys.stdout = sys.stdout, io.StringIO()
    try:
        ep.run(driver(), call=lambda: paf.daemon.main(argv))
    finally:
        sys.stdout = err
        paf.logging.configure = saved
    if ep.error:
        raise ep.error
    if ep.internal:
        raise RuntimeError(ep.internal)
    if ep.hang or ep.died:
        raise Violation("%r: %s" % (argv, ep.hang or ep.died[1]))


def serves():
    doms = [([], ["ux:a"]), ([], ["ux:a", "ux:b"]),
            ([VALID[13]], []), ([VALID[14]], []),
            ([VALID[13], VALID[14]], []), ([VALID[13]], ["ux:a", "ux:b"]),
            ([VALID[14]], ["ux:a"])]
    out = []
    for toks, args in doms:
        for c in ([], [VALID[11]], [VALID[12]], [(["-c", "1"],
                                                  ("clients", 1))],
                  [VALID[12], VALID[11]]):
            for f in (None, "full", "doms", "empty"):
                out.append((f, c + toks, args))
    for c in ([], [VALID[11]], [VALID[12]]):
        for f in ("full", "doms"):
            out.append((f, c, []))
    return out


def run(check):
    t = check.thorough
    files = FILEARGS
    batches(check, "empty", lambda b, i: check_one(b, None, 0, [], ARGS[i]
                                                   if i else []), [0])
    batches(check, "one", sequences(1), range(len(TOKENS)))
    batches(check, "file-errors", invalid_with_files,
            [(f, a) for f in files for a in ARGS])
    batches(check, "with-files-1", with_files(1),
            [(f, a) for f in files for a in ARGS])
    batches(check, "two", sequences(2), range(len(TOKENS)))
    batches(check, "with-files-2", with_files(2),
            [(f, a) for f in files for a in ARGS[:4]])
    batches(check, "orders", permutations,
            [(i, n, None) for i in range(10) for n in ((2, 3) if not t
                                                       else (2, 3, 4, 5))])
    batches(check, "orders-invalid", permutations,
            [(i, n, w) for i in range(10) for n in ((2,) if not t
                                                    else (2, 3))
             for w in range(len(INVALID))])
    batches(check, "serve", serve, serves())
    batches(check, "three", sequences(3), range(len(TOKENS)), watchdog=600)
    batches(check, "with-files-3", with_files(3),
            [(f, a) for f in ("doms",) for a in ARGS[:2]],
            watchdog=600)
    if t:
        batches(check, "with-all-files-3", with_files(3),
                [(f, a) for f in files for a in ARGS[:3]], watchdog=3000)
