"""P18: configuration files are applied faithfully, or rejected.

Configurations are assembled from slots, one for each documented key (and for
the shape of everything that contains keys), each with valid, boundary and
ill-typed alternatives. All combinations deviating from a small base in one or
two (thorough: three) slots are loaded by the real paf.conf.load and compared
with an independent reading of the documentation. A part of them is served by
the real daemon, and the limits configured are measured from outside."""
import itertools
import json
import logging.handlers
import os

import vworld
from choose import batches
from vworld import Episode, Violation, stub, stub_attrs

import paf.conf
import paf.sd as sd

MISSING = ("missing",)
FACILITIES = dict(kern=0, user=1, mail=2, daemon=3, auth=4,
                  syslog=5, lpr=6, news=7, uucp=8, cron=9, authpriv=10,
                  ftp=11, local0=16, local1=17, local2=18, local3=19,
                  local4=20, local5=21, local6=22, local7=23)
LEVELS = dict(debug=10, info=20, warning=30, error=40, critical=50)


class Bad(Exception):
    pass


class DontCare(Exception):
    pass


# ------------------------------------------------------------ the reference

def is_int(v):
    return type(v) is int


def is_str(v):
    return type(v) is str


def is_bool(v):
    return type(v) is bool


def is_dict(v):
    return type(v) is dict


def is_list(v):
    return type(v) is list


def get(d, key, ok, default=None):
    if key not in d:
        return default
    v = d[key]
    if v is None:
        raise DontCare()
    if not ok(v):
        raise Bad("%s=%r" % (key, v))
    return v


def interpret(src):
    """The effective configuration as documented; raises Bad if there is
    none."""
    if src is None:
        raise Bad("no dictionary")
    if not is_dict(src):
        raise Bad("no dictionary")
    log = get(src, "log", is_dict, {})
    out_log = dict(
        console=get(log, "console", is_bool, False),
        log_file=get(log, "log_file", is_str),
        log_file_backup=get(log, "log_file_backup", is_int, 0),
        log_file_max_size=get(log, "log_file_max_size", is_int, 1000000),
        syslog=get(log, "syslog", is_bool, True),
        syslog_socket=get(log, "syslog_socket", is_str, "/dev/log"))
    f = get(log, "facility", is_str, "daemon")
    if f not in FACILITIES:
        if f in logging.handlers.SysLogHandler.facility_names:
            raise DontCare()
        raise Bad("facility")
    out_log["facility"] = FACILITIES[f]
    f = get(log, "filter", is_str, "info")
    if f not in LEVELS:
        raise Bad("filter")
    out_log["filter"] = LEVELS[f]

    doms = []
    for d in get(src, "domains", is_list, []):
        if not is_dict(d):
            raise Bad("domain")
        v = get(d, "protocol_version", is_dict, {})
        lo, hi = get(v, "min", is_int, 2), get(v, "max", is_int, 3)
        if not 2 <= lo <= hi <= 3:
            raise Bad("protocol version")
        i = get(d, "idle", is_dict, {})
        if "max" in i and "max_idle_time" in d:
            raise Bad("max idle time twice")
        imin = get(i, "min", is_int, 4)
        imax = get(i, "max", is_int, get(d, "max_idle_time", is_int, 30))
        if not 1 <= imin <= imax:
            raise Bad("idle")
        if "sockets" in d and "addrs" in d:
            raise Bad("sockets twice")
        name = get(d, "name", is_str)
        socks = get(d, "addrs" if "addrs" in d else "sockets", is_list)
        if socks is None:
            raise Bad("no sockets")
        out = []
        for s in socks:
            if is_str(s):
                out.append((s, {}))
                continue
            if not is_dict(s) or not is_str(s.get("addr")):
                raise Bad("socket")
            tls = get(s, "tls", is_dict)
            if tls is not None:
                if s["addr"].split(":")[0] not in ("tls", "utls"):
                    raise Bad("tls for another transport")
                for k, x in tls.items():
                    if k not in ("cert", "key", "tc", "crl") or \
                       not is_str(x):
                        raise Bad("tls")
            out.append((s["addr"], tls or {}))
        doms.append(dict(name=name, versions=(lo, hi), idle=(imin, imax),
                         sockets=out))

    res = get(src, "resources", is_dict, {})
    limits = {}
    for cls in ("user", "total"):
        r = get(res, cls, is_dict, {})
        for k, v in r.items():
            if k not in ("clients", "services", "subscriptions") or \
               not is_int(v) or v < 0:
                raise Bad("limit")
        limits[cls] = tuple(r.get(k) for k in ("clients", "services",
                                               "subscriptions"))
    return dict(domains=doms, limits=limits, log=out_log)


def no_null(v):
    if v is None:
        return False
    if isinstance(v, dict):
        return all(no_null(x) for x in v.values())
    if isinstance(v, list):
        return all(no_null(x) for x in v)
    return True


# ---------------------------------------------------- the code under test

def effective(conf):
    R = sd.ResourceType
    c = conf.log
    out_log = {k: getattr(c, k) for k in (
        "console", "log_file", "log_file_backup", "log_file_max_size",
        "syslog", "syslog_socket", "facility", "filter")}
    return dict(
        domains=[dict(name=d.name,
                      versions=(d.proto_version_limit.version_min,
                                d.proto_version_limit.version_max),
                      idle=(d.idle_limit.idle_min, d.idle_limit.idle_max),
                      sockets=[(s.addr, dict(s.tls_attrs))
                               for s in d.sockets])
                 for d in conf.domains],
        limits={cls: tuple(getattr(conf.resources, cls).resources[t]
                           for t in (R.CLIENT, R.SERVICE, R.SUBSCRIPTION))
                for cls in ("user", "total")},
        log=out_log)


def load(text, raw=False):
    fn = os.path.join(vworld._tmp, "c18.%d" % os.getpid())
    with open(fn, "wb") as f:
        f.write(text if raw else text.encode())
    try:
        return paf.conf.load(fn), None
    except paf.conf.Error as e:
        return None, str(e)
    finally:
        os.unlink(fn)


def compare(b, src, text):
    b.n += 1
    b.states += 1
    try:
        want = interpret(src)
    except Bad:
        want = None
    except DontCare:
        want = False
    if src is not None and not no_null(src):
        want = False        # null is as good as nothing, or an error
    try:
        conf, err = load(text)
    except Exception as e:
        raise Violation("loading %s fails with %s: %s" % (
            json.dumps(src)[:1500], type(e).__name__, e))
    if err is not None:
        b.note("rejected")
        if want:
            raise Violation("%s is rejected: %s" % (
                json.dumps(src)[:1500], err))
        if not err.strip():
            raise Violation("%s is rejected without explanation" %
                            json.dumps(src)[:1500])
        return
    b.note("applied")
    if want is None:
        raise Violation("%s is accepted" % json.dumps(src)[:1500])
    got = effective(conf)
    str(conf)
    if want:
        for k in want:
            if repr(norm(got[k])) != repr(norm(want[k])):
                raise Violation("%s is applied as %s=%r" % (
                    json.dumps(src)[:1500], k, got[k]))
        # the same again: nothing may be left over from earlier ones
        # (numbers equal to booleans differ in their repr)


def norm(v):
    if isinstance(v, dict):
        return sorted((k, norm(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [norm(x) for x in v]
    return v


# ------------------------------------------------------------------- slots

INTS = [True, False, 1.0, 2.5, "2", "x", [], {}, None]
STRS = [1, 1.5, True, [], ["x"], {}, None]
DICTS = ["x", 1, True, [], [{}], None]
LISTS = ["ux:x", 1, True, {}, {"a": "b"}, None]
BOOLS = [1, 0, "true", "yes", 1.0, [], {}, None]

SOCKETS = [
    ["ux:b"], [], ["ux:b", "tcp:127.0.0.1:4711"], ["tls:*:1", "ux:b",
                                                   "ux:c"],
    [{"addr": "ux:b"}], [{"addr": "tls:*:4711"}],
    [{"addr": "tls:*:4711", "tls": {}}],
    [{"addr": "tls:*:4711", "tls": {"cert": "c"}}],
    [{"addr": "tls:*:4711", "tls": {"key": "/k", "tc": "t"}}],
    [{"addr": "utls:*:4711", "tls": {"crl": "r"}}],
    [{"addr": "tls:*:1", "tls": {"cert": "a", "key": "b", "tc": "c",
                                 "crl": "d"}}, "tls:*:2",
     {"addr": "tls:*:3"}, {"addr": "utls:*:4", "tls": {"cert": "e"}}],
    [{"addr": "ux:b", "tls": {}}], [{"addr": "ux:b", "tls": {"cert": "c"}}],
    [{"addr": "tcp:*:1", "tls": {"cert": "c"}}],
    ["ux:b", {"addr": "utlss:*:1", "tls": {}}],
    [{"addr": "xtls:*:1", "tls": {"key": "c"}}],
    [{"addr": "tls:*:1", "tls": {"cert": 1}}],
    [{"addr": "tls:*:1", "tls": {"cert": "c", "key": True}}],
    [{"addr": "tls:*:1", "tls": {"crl": None}}],
    [{"addr": "tls:*:1", "tls": {"certs": "c"}}],
    [{"addr": "tls:*:1", "tls": {"cert": "c", "ca": "c"}}],
    [{"addr": "tls:*:1", "tls": "c"}], [{"addr": "tls:*:1", "tls": ["c"]}],
    [{"addr": "tls:*:1", "tls": None}], [{"addr": "tls:*:1", "tls": 1}],
    [{"addr": 1}], [{"addr": None}], [{"addr": ["ux:b"]}], [{"addr": True}],
    [{"tls": {}}], [{}], [1], [True], [None], [["ux:b"]], [1.5],
    ["ux:b", 1], ["ux:b", {}], ["ux:b", {"addr": 7}], [{"addr": "ux:b"}, 1],
    "ux:b", {"addr": "ux:b"}, 1, True, None, 1.5,
]


def domain_slots(n):
    p = ("domains", n)
    return [
        (p, DICTS),
        (p + ("name",), ["n", "", "é\u2028", "1"] + STRS),
        (p + ("sockets",), [MISSING] + SOCKETS),
        (p + ("addrs",), SOCKETS),
        (p + ("protocol_version",), DICTS + [{}]),
        (p + ("protocol_version", "min"),
         [2, 3, 1, 4, 0, -2, 10 ** 20] + INTS),
        (p + ("protocol_version", "max"),
         [2, 3, 1, 4, 0, -3, 10 ** 20] + INTS),
        (p + ("idle",), DICTS + [{}]),
        (p + ("idle", "min"),
         [1, 4, 5, 29, 30, 31, 0, -1, 60, 10 ** 20] + INTS),
        (p + ("idle", "max"),
         [4, 30, 60, 1, 3, 0, -1, 5, 31, 10 ** 20] + INTS),
        (p + ("max_idle_time",),
         [4, 30, 60, 1, 3, 0, -1, 5, 10 ** 20] + INTS)]


LIMIT = [0, 1, 7, 10 ** 20, -1] + INTS
SLOTS = [
    ((), ["x", 1, True, 1.5, [], [1], {}, None]),
    (("domains",), LISTS + [[]]),
    (("resources",), DICTS + [{}]),
    (("resources", "user"), DICTS + [{}]),
    (("resources", "total"), DICTS + [{}])] + [
    (("resources", c, t), LIMIT) for c in ("user", "total")
    for t in ("clients", "services", "subscriptions")] + [
    (("resources", "user", "Clients"), [0, 1, None]),
    (("resources", "total", "foo"), [1, "x"]),
    (("log",), DICTS + [{}]),
    (("log", "console"), [True, False] + BOOLS),
    (("log", "syslog"), [True, False] + BOOLS),
    (("log", "log_file"), ["/x/y", "", "é"] + STRS),
    (("log", "log_file_backup"), [0, 1, 100] + INTS),
    (("log", "log_file_max_size"), [0, 1, 1000000] + INTS),
    (("log", "syslog_socket"), ["/dev/null", ""] + STRS),
    (("log", "facility"), sorted(FACILITIES) + ["", "Daemon", "local8",
                                                "LOG_DAEMON"] + STRS),
    (("log", "filter"), sorted(LEVELS) + ["", "INFO", "notice", "warn"] +
     STRS)] + domain_slots(0) + domain_slots(1)
ALTS = [(p, v) for p, vs in SLOTS for v in vs]

BASE = {("domains", 0, "sockets"): ["ux:a"]}
BASE1 = {("domains", 1, "sockets"): ["ux:d1", "tls:*:9"]}


def below(p, q):
    return len(p) > len(q) and p[:len(q)] == q


def excludes(q, w):
    """Can nothing be put into w, the value of q?"""
    return w != {} or q == ("domains",)


def assemble(dev):
    """The configuration with these slots set; None if they exclude each
    other."""
    slots = {}
    for p, v in dev:
        if p in slots:
            return MISSING
        for q, w in dev:
            if below(p, q) and excludes(q, w):
                return MISSING
        slots[p] = v
    base = dict(BASE)
    if any(p[:2] == ("domains", 1) for p in slots):
        base.update(BASE1)
    for p, v in base.items():
        if p not in slots and \
           not any(below(p, q) and (excludes(q, w) or q == ())
                   for q, w in dev):
            slots[p] = v
    root = slots.pop((), {})
    for p in sorted(slots, key=lambda p: (len(p), str(p))):
        v = slots[p]
        if v is MISSING:
            if p[1] in (0, 1):
                domain(root, p[1])
            continue
        v = json.loads(json.dumps(v))
        at = root
        for k in p[:-1]:
            if isinstance(at, list):
                at = domain(root, k)
            elif k == "domains":
                at = at.setdefault(k, [])
            else:
                at = at.setdefault(k, {})
        if isinstance(at, list):
            domain(root, p[-1])
            at[p[-1]] = v
        else:
            at[p[-1]] = v
    return root


def domain(root, n):
    doms = root.setdefault("domains", [])
    while len(doms) <= n:
        doms.append({})
    return doms[n]


def as_yaml(src):
    import yaml
    return yaml.safe_dump(src, allow_unicode=True)


class FastYaml:
    """JSON is YAML; reading it as JSON is much faster."""

    def __enter__(self):
        import yaml
        self.saved = yaml.safe_load
        yaml.safe_load = lambda s: json.loads(s)

    def __exit__(self, *a):
        import yaml
        yaml.safe_load = self.saved


def singles(b, i):
    for p, v in [ALTS[i]]:
        src = assemble([(p, v)])
        if src is MISSING:
            return
        for text in (as_yaml(src), json.dumps(src),
                     json.dumps(src, indent=2, ensure_ascii=False)):
            compare(b, src, text)


def tuples(n, fast):
    def fun(b, i):
        first = ALTS[i]

        def go():
            for rest in itertools.combinations(range(i + 1, len(ALTS)),
                                               n - 1):
                src = assemble([first] + [ALTS[j] for j in rest])
                if src is not MISSING:
                    compare(b, src, json.dumps(src) if fast
                            else as_yaml(src))
        if fast:
            with FastYaml():
                go()
        else:
            go()
    return fun


# Deviations which are valid by themselves are those where the code has to go
# on and look at the others.
def is_valid(a):
    src = assemble([a])
    try:
        return src is not MISSING and bool(interpret(src)) and no_null(src)
    except (Bad, DontCare):
        return False


VALID = [a for a in ALTS if is_valid(a)]


def valid_triples(b, i):
    with FastYaml():
        for rest in itertools.combinations(range(i + 1, len(VALID)), 2):
            src = assemble([VALID[i]] + [VALID[j] for j in rest])
            if src is not MISSING:
                compare(b, src, json.dumps(src))


# --------------------------------------------------------- aliases, together

def keys_together(b, item):
    """All combinations of keys given or not, with all their interactions,
    for two domains."""
    with FastYaml():
        opts = [[(k, v) for v in vs] for k, vs in [
            ("sockets", [MISSING, ["ux:a"]]), ("addrs", [MISSING, ["ux:b"]]),
            ("max_idle_time", [MISSING, 3, 12]),
            ("protocol_version", [MISSING, {"min": 3}, {"max": 2}, {}]),
            ("idle", [MISSING, {}, {"min": 1}, {"max": 5}, {"min": 12},
                      {"min": 2, "max": 2}]), ("name", [MISSING, "n"])]]
        doms = [{k: v for k, v in c if v is not MISSING}
                for c in itertools.product(*opts)]
        d0 = doms[item]
        for d1 in doms:
            src = {"domains": [d0, d1]}
            compare(b, src, json.dumps(src))


NTOGETHER = 2 * 2 * 3 * 4 * 6 * 2


# ------------------------------------------------------------------ raw text

TEXTS = [
    b"", b"\n", b"# nothing\n", b"---\n", b"null", b"~", b"text", b"1",
    b"1.5", b"true", b"[]", b"- a\n- b\n", b"!!set {a}", b"2001-01-01",
    b"a: [", b"a: b: c", b"{", b"}", b"\t", b"a:\n\t- b", b"'", b'"',
    b"%", b"@", b"`", b"*x", b"&a *a", b"- &a [*a]", b"a: *b", b"!x y",
    b"!!python/object:os.system x", b"!!python/none", b"!foo {a: b}",
    b"domains: !!python/tuple [a]", b"domains: !x []", b"!!int x",
    b"a: !!int x", b"a: !!float x", b"a: !!bool x", b"a: !!timestamp x",
    b"a: 2001-99-99", b"a: 2001-01-01t99:99:99Z", b"a: !!binary x",
    b"? [a, b]\n: c", b"? {a: b}\n: c", b"{[a]: b}", b"{{a: b}: c}",
    b"\xff\xfe", b"\xff", b"\x80abc: d", b"a: \xc3", b"\0", b"a: \x01",
    b"a: b\0", b"\xef\xbb\xbf- a", b"---\na: b\n---\nc: d\n",
    b"a: b\n...\nc", b"[" * 5000, b"[" * 5000 + b"]" * 5000,
    b"{a: " * 3000 + b"}" * 3000, b"- " * 5000 + b"x",
    b"domains: " + b"[" * 3000 + b"]" * 3000,
    b"<<: 1", b"<<: [1]", b"a: {<<: x}", b"%YAML 9.9\n--- {}", b"--- |",
    b"- domains: []", b"domains: [}", b"domains: [{sockets: [ux:a]]",
    b"domains:\n- sockets: [ux:a\n", b"domains:\n - a\n- b\n",
    "domains: [\ud800]".encode("utf-16", "surrogatepass"),
    b"domains: - a", b"log: {console: yes", b"log: {filter: 'info}",
    b"log: {filter: 0o7}", b"log: {console: 0x}",
    b"domains: [{sockets: [ux:a], idle: {max: 5_}}]"
    if False else b"a: 0x_", b"=", b"a: =",
]
# not configurations, though well-formed: of the documented keys, but of no
# possible type
ILL = [b"domains: 2001-01-01", b"domains: !!set {a}",
       b"domains: [{sockets: [2001-01-01]}]",
       b"domains: [{sockets: !!set {ux:a}}]",
       b"domains: [{sockets: !!binary eA==}]",
       b"domains: [{sockets: [!!binary eA==]}]",
       b"domains: [{sockets: [ux:a], name: 2001-01-01}]",
       b"domains: [{sockets: [ux:a], name: 10:20:30}]",
       b"domains: [{sockets: [ux:a], name: .nan}]",
       b"domains: [{sockets: [ux:a], idle: {max: .inf}}]",
       b"domains: [{sockets: [ux:a], idle: {max: .nan}}]",
       b"domains: [{sockets: [ux:a], idle: {max: 1e3}}]",
       b"domains: [{sockets: [ux:a], max_idle_time: .inf}]",
       b"domains: [{sockets: [ux:a], protocol_version: {min: .nan}}]",
       b"resources: {total: {clients: .nan}}",
       b"resources: {total: {clients: .inf}}",
       b"resources: {total: {1: 1}}", b"resources: {user: {~: 1}}",
       b"resources: {user: {true: 1}}", b"resources: {user: {[a]: 1}}",
       b"resources: {user: {2001-01-01: 1}}",
       b"log: {console: on_}", b"log: {filter: yes}",
       b"log: {facility: 3}", b"log: {filter: 20}",
       b"log: {facility: [daemon]}", b"log: {log_file: .nan}",
       b"domains: [{sockets: [{addr: 'tls:*:1', tls: {1: a}}]}]",
       b"domains: [{sockets: [{addr: 'tls:*:1', tls: {~: a}}]}]",
       b"domains: [{sockets: [{addr: 'tls:*:1', tls: {cert: .nan}}]}]",
       b"domains: &a [*a]", b"domains: [{sockets: &a [*a]}]",
       b"domains: [&a {sockets: [*a]}]",
       b"&a {log: *a, domains: *a}"]
# (text, the same as a tree)
WELL = [
    (b"{}", {}), (b"# c\n{}\n# d\n", {}), (b"--- {}\n...\n", {}),
    (b"domains: []", {"domains": []}),
    (b"domains:\n- {sockets: [ux:a]} # c\n",
     {"domains": [{"sockets": ["ux:a"]}]}),
    (b"domains:\n  -\n    addrs:\n      - ux:a\n      - tcp:*:1\n"
     b"    name: 'x y'\n",
     {"domains": [{"sockets": ["ux:a", "tcp:*:1"], "name": "x y"}]}),
    (b"x: &s [ux:a]\ndomains:\n- sockets: *s\n",
     {"domains": [{"sockets": ["ux:a"]}]}),
    (b"resources: {total: {clients: 0x10, services: 0o17x}}", None),
    (b"resources: {total: {clients: 0x10, services: 1_000}}",
     {"resources": {"total": {"clients": 16, "services": 1000}}}),
    (b"log: {console: yes, syslog: off}",
     {"log": {"console": True, "syslog": False}}),
    (b"log: {console: 'yes'}", None),
    (b"\xef\xbb\xbfdomains: [{sockets: [ux:a]}]",
     None if False else {"domains": [{"sockets": ["ux:a"]}]}),
    ("domains: [{sockets: [ux:\u00e9], name: \u00e5\u00e4\U0001f600}]"
     .encode(), {"domains": [{"sockets": ["ux:\u00e9"],
                              "name": "\u00e5\u00e4\U0001f600"}]}),
    (b"domains: [{sockets: [ux:a], idle: {<<: {min: 5}, max: 6}}]",
     {"domains": [{"sockets": ["ux:a"], "idle": {"min": 5, "max": 6}}]}),
    (b"domains:\n- sockets:\n  - addr: >-\n      tls:*:1\n    tls:\n"
     b"      cert: |-\n        /a b\n",
     {"domains": [{"sockets": [{"addr": "tls:*:1",
                                "tls": {"cert": "/a b"}}]}]}),
]


def raw(b, i):
    text = (TEXTS + ILL)[i]
    b.n += 1
    b.states += 1
    try:
        conf, err = load(text, raw=True)
    except Exception as e:
        raise Violation("loading %r fails with %s: %s" % (
            text[:200], type(e).__name__, e))
    if err is None and not accepted_harmless(text):
        raise Violation("%r is accepted" % text[:200])


def accepted_harmless(text):
    """Keys which are not documented are nobody's business."""
    import yaml
    try:
        v = yaml.safe_load(text)
    except Exception:
        return False
    return isinstance(v, dict) and not {"domains", "log",
                                        "resources"} & set(
        k for k in v if isinstance(k, str))


def well(b, i):
    text, src = WELL[i]
    b.n += 1
    b.states += 1
    conf, err = load(text, raw=True)
    if (err is None) != (src is not None):
        raise Violation("%r: %s" % (text, err or "accepted"))
    if src is not None and repr(norm(effective(conf))) != \
       repr(norm(interpret(src))):
        raise Violation("%r is applied as %r" % (text, effective(conf)))


def missing_file(b, item):
    b.n += 1
    b.states += 1
    for name in ("/nonexistent/x", vworld._tmp):
        try:
            paf.conf.load(name)
        except (OSError, paf.conf.Error):
            continue
        raise Violation("%s is loaded" % name)


# ---------------------------------------------------------- the wire binding
#
# What a configuration says is what the server does.

TLS = dict(cert="tls.cert_file", key="tls.key_file", tc="tls.tc_file",
           crl="tls.crl_file")


def wire(b, src):
    want = interpret(src)
    text = as_yaml(src)
    ep = Episode(text)
    b.n += 1
    b.states += 1

    def hello(d, si=0, ver=3, cid=1, vmin=None, ski=None):
        p = ep.connect(d["sockets"][si][0], remote="tcp:10.0.0.%d:1" %
                       (ski or 1), ski=None)
        if p is None:
            raise Violation("%r: nothing listens at %s" % (
                src, d["sockets"][si][0]))
        p.send(ta_cmd="hello", ta_id=1, msg_type="request", client_id=cid,
               protocol_minimum_version=vmin or ver,
               protocol_maximum_version=ver)
        return p

    def driver():
        yield
        # addresses and TLS settings
        for d in want["domains"]:
            for addr, tls in d["sockets"]:
                i = stub.stub_find_server(addr.encode())
                if i < 0:
                    raise Violation("%r: nothing listens at %s" % (src,
                                                                   addr))
                a = {k: v for k, v in stub_attrs(i).items()
                     if k.startswith("tls.")}
                exp = {TLS[k]: "str:" + v for k, v in tls.items()}
                if "crl" in tls:
                    exp["tls.check_crl"] = "bool:1"
                if a != exp:
                    raise Violation("%r: %s is set up with %r" % (
                        src, addr, a))
        for d in want["domains"]:
            if not d["sockets"]:
                continue
            peers = []
            # versions
            for vmin, vmax in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3),
                               (3, 9), (4, 9), (1, 9)):
                p = hello(d, ver=vmax, vmin=vmin, cid=50)
                yield
                r = p.recv()
                lo = max(vmin, d["versions"][0])
                hi = min(vmax, d["versions"][1])
                ok = lo <= hi
                got = [m.get("protocol-version") for m in r
                       if m.get("msg-type") == "complete"]
                lim = [want["limits"]["user"][0], want["limits"]["total"][0]]
                if 0 in lim:
                    ok = False
                if got != ([hi] if ok else []):
                    raise Violation("%r: a client with versions %d-%d gets "
                                    "%r" % (src, vmin, vmax, r))
                p.close()
                yield
            # limits
            for cls in ("user", "total"):
                yield from limits(d, cls, hello)
            # idle
            ver = d["versions"][1]
            if ver >= 3 and 0 not in [want["limits"][c][0]
                                      for c in ("user", "total")]:
                p = hello(d, ver=3, cid=70)
                yield
                p.recv()
                yield d["idle"][1] / 2.0 - 0.01
                if p.recv() or p.dropped():
                    raise Violation("%r: an idle client hears before half "
                                    "the maximum idle time" % src)
                yield d["idle"][1] / 2.0 - 0.1
                p.recv()
                if p.dropped():
                    raise Violation("%r: an idle client is dropped early" %
                                    src)
                yield 1.2
                if not p.dropped():
                    raise Violation("%r: an idle client is not dropped" %
                                    src)
                p.close()
                yield
                if d["idle"][0] < d["idle"][1] and \
                   0 not in [want["limits"][c][1] for c in want["limits"]]:
                    # a short-lived service lowers it to the minimum
                    p = hello(d, ver=3, cid=71)
                    yield
                    p.send(ta_cmd="publish", ta_id=2, msg_type="request",
                           service_id=99, generation=1, service_props={},
                           ttl=0)
                    yield
                    p.recv()
                    yield d["idle"][0] - 0.2
                    p.recv()
                    if p.dropped():
                        raise Violation("%r: dropped before the minimum" %
                                        src)
                    yield 1.4
                    if not p.dropped():
                        raise Violation("%r: not dropped at the minimum" %
                                        src)
                    p.close()
                    yield
                    yield

    def limits(d, cls, hello):
        ncl, nsvc, nsub = want["limits"][cls]
        other = want["limits"]["total" if cls == "user" else "user"]
        ver = d["versions"][1]
        # as many clients as allowed, of one user or of several
        peers = []
        cap = effective_limit(cls, 0)
        n = 0
        for k in range(9):
            p = hello(d, si=k % len(d["sockets"]), ver=ver, cid=100 + k,
                      ski=1 if cls == "user" else k + 1)
            yield
            r = [m for m in p.recv() if m.get("msg-type") == "complete"]
            if r:
                n += 1
                peers.append(p)
            else:
                p.close()
                yield
        if n != min(cap, 9):
            raise Violation("%r: %d clients are admitted (%s)" % (src, n,
                                                                  cls))
        # services and subscriptions, spread over them
        if peers:
            for what, idx in (("publish", 1), ("subscribe", 2)):
                cap = effective_limit(cls, idx)
                n = 0
                for k in range(9):
                    p = peers[k % len(peers)]
                    if what == "publish":
                        p.send(ta_cmd="publish", ta_id=10 + k,
                               msg_type="request", service_id=k,
                               generation=1, service_props={}, ttl=1)
                    else:
                        p.send(ta_cmd="subscribe", ta_id=30 + k,
                               msg_type="request", subscription_id=k,
                               filter="(nosuch=*)")
                    yield
                    for q in peers:
                        for m in q.recv():
                            if (m.get("ta-cmd") == what and
                                    m.get("msg-type") ==
                                    ("complete" if idx == 1
                                     else "accept")):
                                n += 1
                if cls == "total" or len(peers) == 1:
                    # several users: each has its own account
                    tot = want["limits"]["total"][idx]
                    usr = want["limits"]["user"][idx]
                    exp = spread(len(peers), usr, tot)
                else:
                    exp = min(cap, 9)
                if n != exp:
                    raise Violation("%r: %d requests to %s are granted "
                                    "(%s)" % (src, n, what, cls))
        for k in range(9):
            if peers:
                peers[k % len(peers)].send(
                    ta_cmd="unpublish", ta_id=60 + k, msg_type="request",
                    service_id=k)
        yield
        for p in peers:
            p.close()
        yield 2.5

    def effective_limit(cls, idx):
        t = want["limits"]["total"][idx]
        if cls == "total" and idx == 0:
            # every client is a user of its own
            u = want["limits"]["user"][0]
            if u == 0:
                return 0
            return 99 if t is None else t
        u = want["limits"]["user"][idx]
        return min(99 if t is None else t, 99 if u is None else u)

    def spread(n, usr, tot):
        per = {}
        done = 0
        for k in range(9):
            u = k % n
            if usr is not None and per.get(u, 0) >= usr:
                continue
            if tot is not None and done >= tot:
                continue
            per[u] = per.get(u, 0) + 1
            done += 1
        return done

    ep.run(driver())
    if ep.error:
        raise ep.error
    if ep.internal:
        raise RuntimeError(ep.internal)
    if ep.hang:
        raise Violation("%r: %s" % (src, ep.hang))
    if ep.died:
        raise Violation("%r: %s" % (src, ep.died[1]))


def wires():
    one = []
    for vr in ({}, {"min": 3}, {"max": 2}, {"min": 2, "max": 2},
               {"min": 3, "max": 3}):
        one.append({"protocol_version": vr})
    for idle in ({"max": 4}, {"max": 10}, {"min": 1}, {"min": 1, "max": 1},
                 {"min": 8, "max": 40}, {"min": 5, "max": 6},
                 {"min": 30}, {"max": 100}):
        one.append({"idle": idle})
    one += [{"max_idle_time": 6}, {"max_idle_time": 60, "idle": {"min": 2}},
            {}]
    socks = [
        ["ux:a"], ["ux:a", "tcp:*:1", "ux:b"],
        [{"addr": "tls:*:1", "tls": {"cert": "/c", "key": "/k",
                                     "tc": "/t"}}, "ux:a"],
        [{"addr": "ux:a"}, {"addr": "utls:*:1", "tls": {"crl": "/r"}},
         {"addr": "tls:*:2", "tls": {"cert": "/d"}}, "tls:*:3"],
        [{"addr": "tls:*:2", "tls": {}}]]
    out = []
    for d in one:
        for s in socks[:1] + socks[2:3]:
            out.append({"domains": [dict(d, sockets=s)]})
    for s in socks:
        out.append({"domains": [{"addrs": s, "name": "n"}]})
        out.append({"domains": [{"sockets": s}, {"sockets": ["ux:z"]}]})
        out.append({"domains": [{"sockets": ["ux:z"]}, {"addrs": s}]})
    # the settings of one of several domains are its own
    for d in one:
        for e in ({}, {"protocol_version": {"max": 2}},
                  {"idle": {"max": 9}}):
            out.append({"domains": [dict(d, sockets=["ux:a"]),
                                    dict(e, sockets=["ux:b"])]})
            out.append({"domains": [dict(e, sockets=["ux:b"]),
                                    dict(d, sockets=["ux:a"])]})
    base = [{"sockets": ["tcp:*:1", "tcp:*:2"]}, {"sockets": ["tcp:*:3"]}]
    for cls in ("user", "total"):
        for k in ("clients", "services", "subscriptions"):
            for v in (0, 1, 2, 4, 10):
                out.append({"domains": base, "resources": {cls: {k: v}}})
    for u, t in itertools.product((None, 1, 3), repeat=2):
        r = {}
        for cls, v in (("user", u), ("total", t)):
            if v is not None:
                r[cls] = dict(clients=v + 1, services=v, subscriptions=v)
        out.append({"domains": base, "resources": r})
        r = {}
        for cls, v in (("user", u), ("total", t)):
            if v is not None:
                r[cls] = dict(clients=3, services=v, subscriptions=4 - v)
        out.append({"domains": base, "resources": r})
    return out


def run(check):
    n = len(ALTS)
    batches(check, "singles", singles, range(n))
    batches(check, "texts", raw, range(len(TEXTS + ILL)))
    batches(check, "well-formed-texts", well, range(len(WELL)))
    batches(check, "no-file", missing_file, range(1))
    batches(check, "pairs", tuples(2, True), range(n))
    batches(check, "keys", keys_together, range(NTOGETHER))
    batches(check, "valid-triples", valid_triples, range(len(VALID)))
    batches(check, "wire", wire, wires())
    if check.thorough:
        batches(check, "pairs-yaml", tuples(2, False), range(n))
        batches(check, "triples", tuples(3, True), range(n), watchdog=3000)
