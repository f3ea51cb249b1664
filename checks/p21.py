"""P21: domain names resolve to what their files describe.

All domain files of up to a few lines or entries, in both formats, are written
to a scratch directory, resolved by the real client library and compared with
an independent reading; then a client connects, and what arrives at the
transport is compared with the first server's settings."""
import itertools
import json
import os
import shutil
import sys

import vworld
from choose import batches
from vworld import Peer, Violation, stub, stub_attrs

import paf.client as C

TLS = {"tlsCertificateFile": "tls.cert_file", "tlsKeyFile": "tls.key_file",
       "tlsTrustedCaFile": "tls.tc_file"}


class Dir:
    pid = None

    @classmethod
    def get(cls):
        if cls.pid != os.getpid():
            cls.pid = os.getpid()
            cls.path = os.path.join(vworld._tmp, "c21.%d" % cls.pid)
            shutil.rmtree(cls.path, ignore_errors=True)
            os.mkdir(cls.path)
            os.mkdir(cls.path + "/subdir")
            os.mkdir(cls.path + "/other")
        os.environ["PAF_DOMAINS"] = cls.path
        return cls.path


opened = None


def audit(event, args):
    if opened is not None and event == "open" and \
       isinstance(args[0], str):
        opened.append(args[0])


_hooked = []


def hook():
    if not _hooked:
        _hooked.append(1)
        sys.addaudithook(audit)


# ------------------------------------------------------------ the reference

def ref(text):
    """[(address, attributes, min, max)]"""
    if text.lstrip(" \t\r\n").startswith("{"):
        out = []
        for s in json.loads(text)["servers"]:
            out.append((s["address"], {TLS[k]: v for k, v in s.items()
                                       if k in TLS},
                        s.get("minProtocolVersion", 2),
                        s.get("maxProtocolVersion", 3)))
        return out
    return [(ln.strip(), {}, 2, 3) for ln in text.split("\n")
            if ln.strip() and not ln.strip().startswith("#")]


def described(s):
    return (s.addr, dict(s.attrs), s.proto_version_min, s.proto_version_max)


def resolve(b, name, text, want, where=None):
    try:
        got = [described(s) for s in C.read_domain(name)]
        first = described(C.domain_server(name))
    except Exception as e:
        raise Violation("resolving %r fails with %s: %s" % (
            text, type(e).__name__, e))
    if got != want:
        raise Violation("%r resolves to %r instead of %r" % (text, got,
                                                             want))
    exp = want[0] if want else (name, {}, 2, 3)
    if first != exp:
        raise Violation("%r: the server used is %r instead of %r" % (
            text, first, exp))
    return exp


def possible(lo, hi):
    return max(lo, 2) <= min(hi, 3)


def connect(b, name, text, exp, others, sync):
    """Connects, and looks at what arrives."""
    vworld.fresh_globals()
    stub.stub_reset()
    vworld.Clock.now = vworld.T0
    addr, attrs, lo, hi = exp
    servers = {a: stub.stub_server_new(a.encode())
               for a in dict.fromkeys([addr] + others)}

    class Env:
        pass
    vworld.CUR = Env
    st = {}

    def serve(poll=None):
        for a, i in servers.items():
            s = stub.stub_server_take(i)
            if s < 0:
                continue
            if a != addr or st:
                raise Violation("%r: connects to %s" % (text, a))
            p = st["peer"] = Peer(s)
            m = p.recv1()
            if m is None or m["ta-cmd"] != "hello":
                raise Violation("%r: %r is sent" % (text, m))
            st["range"] = (m["protocol-minimum-version"],
                           m["protocol-maximum-version"])
            st["id"] = m["client-id"]
            got = stub_attrs(stub.stub_peer_of(s))
            exp_attrs = {k: "str:" + v for k, v in attrs.items()}
            if {k: v for k, v in got.items() if k != "xcm.blocking"} != \
               exp_attrs or got.get("xcm.blocking") != "bool:0":
                raise Violation("%r: connected with %r" % (text, got))
            if sync:
                p.send(ta_cmd="hello", ta_id=m["ta-id"],
                       msg_type="complete",
                       protocol_version=min(st["range"][1], 3))
            return
        if sync:
            raise Violation("%r: waits without having connected" % text)
    Env.client_wait = serve
    c = None
    try:
        c = C.connect(name, client_id=42 if lo % 2 else None,
                      ready_cb=None if sync else (lambda: None))
    except C.ProtocolError as e:
        str(e)
        if possible(lo, hi):
            raise Violation("%r: connecting fails: %s" % (text, e))
        if stub.stub_live_conns() or stub.stub_live_maps():
            raise Violation("%r: a connection is left open" % text)
        return "refused"
    except C.Error as e:
        raise Violation("%r: connecting fails: %s" % (text, e))
    except (Violation, vworld.Hang):
        raise
    except Exception as e:
        raise Violation("%r: connecting fails with %s: %s" % (
            text, type(e).__name__, e))
    finally:
        vworld.CUR = None
    if not sync:
        serve()
    if not st:
        raise Violation("%r: does not connect to %s" % (text, addr))
    if not possible(lo, hi):
        raise Violation("%r: versions %d-%d are accepted" % (text, lo, hi))
    r = st["range"]
    if (max(r[0], 2), min(r[1], 3)) != (max(lo, 2), min(hi, 3)):
        raise Violation("%r: offers versions %r" % (text, r))
    if lo % 2 and st["id"] != 42:
        raise Violation("%r: client id %r" % (text, st["id"]))
    c.close()
    if stub.stub_live_conns() or stub.stub_live_maps() or \
       stub.stub_misuse():
        stub.stub_misuse_clear()
        raise Violation("%r: closing leaves something open" % text)
    return "connected"


def one(b, text, name="dom", conn=True):
    d = Dir.get()
    with open(os.path.join(d, name), "w", newline="") as f:
        f.write(text)
    b.n += 1
    b.states += 1
    want = ref(text)
    exp = resolve(b, name, text, want)
    if conn:
        others = [s[0] for s in want[1:]] + ["ux:elsewhere"]
        if name != exp[0]:
            others.append(name)
        b.note(connect(b, name, text, exp,
                       [o for o in others if o != exp[0]], b.n % 2))
    os.unlink(os.path.join(d, name))


LINES = ["", "  ", "\t", "#", "# ux:no", "  # tls:no:1", "ux:a",
         "  tcp:10.0.0.1:4711", "tls:[::1]:9\t ", "utls:host.example:1",
         "ux:{b", "ux:a#b"]


def lines(n):
    def fun(b, first):
        for rest in itertools.product(LINES, repeat=n - 1):
            ls = (LINES[first],) + rest
            for sep, end in (("\n", "\n"), ("\n", ""), ("\r\n", "\r\n")):
                text = sep.join(ls) + end
                one(b, text, conn=(len(rest) < 3 and sep == "\n"))
    return fun


ABSENT = object()
VERS = (ABSENT, 0, 1, 2, 3, 4)


def entries():
    out = []
    for tls in itertools.product((0, 1), repeat=3):
        for lo in VERS:
            for hi in VERS:
                e = {"address": "tls:h:1"}
                for on, (k, v) in zip(tls, TLS.items()):
                    if on:
                        e[k] = "/etc/" + v
                if lo is not ABSENT:
                    e["minProtocolVersion"] = lo
                if hi is not ABSENT:
                    e["maxProtocolVersion"] = hi
                out.append(e)
    return out


ENTRIES = entries()
FORMS = [lambda o: json.dumps(o), lambda o: "\n\t \r\n" + json.dumps(o),
         lambda o: json.dumps(o, indent=4) + "\n",
         lambda o: json.dumps(o, sort_keys=True, separators=(",", ":"))]


def single_json(b, i):
    e = ENTRIES[i]
    for form in FORMS:
        one(b, form({"servers": [e]}))
    # all orders of the keys, and keys of nobody's business
    for extra in ({}, {"networkNamespace": "ns"}, {"name": 1}):
        x = dict(extra, **e)
        for p in itertools.islice(itertools.permutations(x), 24):
            one(b, json.dumps({"servers": [{k: x[k] for k in p}]}),
                conn=False)
    one(b, json.dumps({"version": 1, "servers": [e]}))
    one(b, json.dumps({"servers": [e], "other": {"servers": []}}))
    one(b, json.dumps({"servers": []}))


SECOND = [{"address": "ux:second"}, {"address": "tcp:1.1.1.1:1",
                                     "maxProtocolVersion": 2},
          {"address": "utls:x:2", "tlsKeyFile": "/k2",
           "minProtocolVersion": 3}, {"address": "tls:h:1"}]


def several_json(b, i):
    e = ENTRIES[i]
    for second in SECOND:
        one(b, json.dumps({"servers": [e, second]}))
        one(b, json.dumps({"servers": [second, e]}))
        for third in SECOND:
            one(b, json.dumps({"servers": [second, e, third]}), conn=False)
            one(b, json.dumps({"servers": [third, second, e]}), conn=False)
            one(b, json.dumps({"servers": [e, third, second]}))


def histories(n):
    """What a file said earlier, or said elsewhere, makes no difference."""
    texts = [None, "", "ux:a\n", "# x\nux:b\nux:c\n",
             json.dumps({"servers": [{"address": "tls:h:1",
                                      "tlsKeyFile": "/k",
                                      "maxProtocolVersion": 2}]}),
             json.dumps({"servers": [{"address": "ux:a"},
                                     {"address": "tls:h:1",
                                      "tlsCertificateFile": "/c"}]})]

    def fun(b, first):
        d = Dir.get()
        acts = [(where, name, i) for where in (d, d + "/other")
                for name in ("dom", "dom2") for i in range(len(texts))]
        acts = acts[first::len(acts)] if first is not None else acts
        every = [(where, name, i) for where in (d, d + "/other")
                 for name in ("dom", "dom2") for i in range(len(texts))]
        for seq in itertools.product(acts, *[every] * (n - 1)):
            b.n += 1
            b.states += 1
            now = {}
            vworld.fresh_globals()
            for where, name, i in seq:
                p = os.path.join(where, name)
                if texts[i] is None:
                    if now.pop((where, name), None) is not None:
                        os.unlink(p)
                else:
                    with open(p, "w") as f:
                        f.write(texts[i])
                    now[where, name] = i
                os.environ["PAF_DOMAINS"] = where
                for nm in (name,) if len(seq) > 2 else ("dom", "dom2"):
                    i2 = now.get((where, nm))
                    resolve(b, nm, "%r: %s" % (seq, nm),
                            [] if i2 is None else ref(texts[i2]))
            for where, name in now:
                os.unlink(os.path.join(where, name))
    return fun


def names(b, name):
    """Names without a file are addresses; the directory that is looked in."""
    global opened
    hook()
    d = Dir.get()
    for env, where in ((d, d), (d + "/other", d + "/other"),
                       (d + "/nosuch", d + "/nosuch"),
                       (None, "/run/paf/domains.d"), (d + "/", d)):
        b.n += 1
        b.states += 1
        if env is None:
            os.environ.pop("PAF_DOMAINS", None)
        else:
            os.environ["PAF_DOMAINS"] = env
        opened = []
        try:
            exp = resolve(b, name, "%s in %s" % (name, where), [])
            got = {os.path.normpath(p) for p in opened}
        finally:
            opened = None
        if got != {os.path.join(where, name)}:
            raise Violation("resolving %s with PAF_DOMAINS=%r opens %r" % (
                name, env, got))
        b.note(connect(b, name, "%s in %s" % (name, where), exp, ["ux:dom"],
                       b.n % 2))
    Dir.get()


def listing(b, files):
    d = Dir.get()
    b.n += 1
    b.states += 1
    for f in files:
        with open(os.path.join(d, f), "w") as x:
            x.write("ux:a\n")
    got = sorted(C.list_domains())
    for f in files:
        os.unlink(os.path.join(d, f))
    if got != sorted(files):
        raise Violation("the domains %r are listed as %r" % (files, got))


def ranges(b, item):
    """Servers given as such, with their protocol version set."""
    lo, hi, one = item
    b.n += 1
    b.states += 1
    s = C.ServerConf("ux:s", *([] if lo is None else [lo, hi]))
    if one is not None:
        s.set_proto_version(one)
        lo = hi = one
    exp = ("ux:s", {}, 2 if lo is None else lo, 3 if hi is None else hi)
    for sync in (0, 1):
        b.note(connect(b, s, repr(item), exp, [], sync))


def run(check):
    t = check.thorough
    n = len(LINES)
    batches(check, "empty", lambda b, i: one(b, ["", "\n", " ", "\t\n\n"][i]),
            range(4))
    batches(check, "one-line", lines(1), range(n))
    batches(check, "two-lines", lines(2), range(n))
    batches(check, "three-lines", lines(3), range(n))
    batches(check, "four-lines", lines(4), range(n))
    batches(check, "one-entry", single_json, range(len(ENTRIES)))
    batches(check, "several-entries", several_json, range(len(ENTRIES)))
    batches(check, "histories", histories(2), [None])
    batches(check, "long-histories", histories(3), range(24))
    batches(check, "names", names, ["nosuch", "ux:dom", "tls:*:1",
                                    "subdir", "tcp:[::1]:77", "nos uch",
                                    "#x", ".hidden", "{x}"])
    batches(check, "listing", listing,
            [f for n in range(4) for f in itertools.combinations(
                ["a", "b c", ".d", "ux:e"], n)])
    batches(check, "ranges", ranges,
            [(lo, hi, None) for lo in range(6) for hi in range(6)] +
            [(None, None, v) for v in [None] + list(range(6))])
    batches(check, "five-lines", lines(5), range(n))
    batches(check, "longer-histories", histories(4), range(24))
    if t:
        batches(check, "six-lines", lines(6), range(n), watchdog=3000)
        batches(check, "longest-histories", histories(5), range(24),
                watchdog=3000)
