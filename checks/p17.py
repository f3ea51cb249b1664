"""P17: messages decode to what was encoded; malformed ones are refused.

Every message of every protocol version with all combinations of boundary
values is encoded and decoded by the real codec, and compared with the
documented format (harness/refproto.py); all single (and many double)
corruptions of the encoded messages are given to the decoder."""
import itertools
import json
import math

import refproto as R
from choose import batches
from vworld import Violation

import paf.proto as P

VALUES = {
    R.INT: [0, 1, R.MAX_INT],
    R.NUM: [0, 0.5, 1e-7, 1700000000.123456, R.MAX_INT, 1e300],
    R.STR: ["", "x", "é\"\\\n\0", "\u2028\U0001f600", "request", "{}"],
    R.PROPS: [{}, {"k": {1}}, {"k": {"a", 1, -5, "1"}, "l": {""}},
              {"": {"é\"\\"}}, {"ta-id": {"x" * 300, 10 ** 18, -10 ** 18}}],
}
BAD = {
    R.INT: [None, True, False, -1, 1.0, 1.5, 0.0, "", "0", [], {}, [1],
            1 << 63, 1 << 64, 10 ** 30, -(1 << 63)],
    R.NUM: [None, True, False, -1, -0.5, -1e-300, "", "0.5", [], {},
            [0.5]],
    R.STR: [None, True, 0, 1, 1.5, [], {}, ["x"], {"x": "y"}],
    R.PROPS: [None, True, 0, "x", [], ["k"], {"k": None}, {"k": "x"},
              {"k": 1}, {"k": {}}, {"k": {"a": 1}}, {"k": [None]},
              {"k": [True]}, {"k": [1, False]}, {"k": [1.0]},
              {"k": [1.5, 1]}, {"k": [[]]}, {"k": [{}]}, {"k": [["x"]]},
              {"a": ["x"], "k": [None]}, [["k", ["x"]]]],
}
# JSON texts json.dumps does not come up with
RAW = ["NaN", "Infinity", "-Infinity", "1e999", "-1e999", "9" * 5000,
       "1" + "0" * 400, "-0", "-0.0", "1E2", "00", "0x1", "+1", ".5", "1.",
       "'x'", "undefined", "", '"\\ud800"', '"\\x41"', '"\t"', '"\x01"',
       "[" * 3000 + "]" * 3000, '{"a":' * 3000 + "1" + "}" * 3000, "//1",
       '"a" "b"', "True", "nul", "1,"]

HEAD = {'ta-cmd': R.STR, 'ta-id': R.INT, 'msg-type': R.STR}
TYPES = ('request', 'accept', 'notify', 'inform', 'complete', 'fail')


def py(name):
    return name.replace("-", "_")


def jsonable(kind, v):
    return {k: sorted(vs, key=repr) for k, vs in v.items()} \
        if kind == R.PROPS else v


def same(kind, got, want):
    if kind == R.PROPS:
        return {k: set(v) for k, v in got.items() if v} == \
            {k: set(v) for k, v in want.items() if v} and \
            {(k, type(x)) for k, v in got.items() for x in v} == \
            {(k, type(x)) for k, v in want.items() for x in v}
    return type(got) is type(want) and got == want


def formats():
    return [(ver, cmd, t) for ver in (2, 3)
            for cmd, t in sorted(R.FORMATS[ver])]


def encode(b, item):
    """Encoding and decoding of all combinations of values."""
    ver, cmd, t = item
    req, opt = R.FORMATS[ver][cmd, t]
    ta_type = P.lookup_type(ver, cmd)
    spaces = [VALUES[R.INT]] + [VALUES[k] for k in req.values()] + \
        [[None] + VALUES[k] for k in opt.values()]
    # three values of each are enough where the product gets large
    while math.prod(map(len, spaces)) > 60000:
        i = max(range(len(spaces)), key=lambda i: len(spaces[i]))
        spaces[i] = spaces[i][:-1]
    for vals in itertools.product(*spaces):
        b.n += 1
        ta_id, args = vals[0], list(vals[1:1 + len(req)])
        optargs = {py(n): v for n, v in zip(opt, vals[1 + len(req):])
                   if v is not None}
        want = {'ta-cmd': cmd, 'ta-id': ta_id, 'msg-type': t}
        want.update(zip(req, args))
        want.update((n, v) for n, v in zip(opt, vals[1 + len(req):])
                    if v is not None)
        where = "%s %s in v%d with %r" % (cmd, t, ver, want)
        data = P.Message(ta_type, ta_id, t, list(args),
                         dict(optargs)).to_wire()
        m = R.decode(data)
        if m is None:
            raise Violation("%s is encoded as %r" % (where, data[:500]))
        err = R.check(m, ver)
        if err is not None or set(m) != set(want):
            raise Violation("%s is encoded as %r (%s)" % (where, data[:500],
                                                          err))
        kinds = dict(HEAD, **req, **opt)
        for n, v in want.items():
            if not same(kinds[n], m[n], v) and not (
                    kinds[n] == R.NUM and m[n] == v):
                raise Violation("%s is encoded as %r" % (where, data[:500]))
        decode(b, ver, data, where)
        b.states += 1


def decode(b, ver, data, where):
    """Decode and compare with the documented format."""
    m = R.decode(data)
    err = "no JSON object" if m is None else R.check(m, ver)
    try:
        msg = P.Message.parse(ver, data)
    except P.ProtocolError as e:
        str(e)
        if err is None:
            raise Violation("%s is refused: %s" % (where, e))
        return False
    except Exception as e:
        raise Violation("decoding %s fails with %s: %s" % (
            where, type(e).__name__, e))
    if err == "no such message" and m['msg-type'] in TYPES and \
       (m['ta-cmd'], 'request') in R.FORMATS[ver]:
        # not a documented message, but of the general form
        if set(m) != set(HEAD):
            raise Violation("%s is accepted" % where)
        return True
    if err is not None:
        raise Violation("%s is accepted (%s)" % (where, err))
    req, opt = R.FORMATS[ver][m['ta-cmd'], m['msg-type']]
    if msg.cmd() != m['ta-cmd'] or msg.msg_type != m['msg-type'] or \
       not same(R.INT, msg.ta_id, m['ta-id']):
        raise Violation("%s is decoded as %s %s %r" % (
            where, msg.cmd(), msg.msg_type, msg.ta_id))
    for t in TYPES:
        if bool(getattr(msg, "is_" + t)()) != (t == m['msg-type']):
            raise Violation("%s is taken for a message of type %s" % (
                where, t))
    if bool(msg.is_client_generated()) != (m['msg-type'] in
                                           R.CLIENT_TYPES) or \
       bool(msg.is_server_generated()) != (m['msg-type'] in R.SERVER_TYPES):
        raise Violation("the sender of %s is mistaken" % where)
    if len(msg.args) != len(req):
        raise Violation("%s is decoded as %r" % (where, msg.args))
    for (n, k), v in zip(req.items(), msg.args):
        if not same(k, v, m[n]):
            raise Violation("%s is decoded as %r" % (where, msg.args))
    got = {n: v for n, v in msg.optargs.items() if v is not None}
    if set(got) != {py(n) for n in m if n in opt}:
        raise Violation("%s is decoded as %r" % (where, msg.optargs))
    for n, k in opt.items():
        if n in m and not same(k, got[py(n)], m[n]):
            raise Violation("%s is decoded as %r" % (where, msg.optargs))
    # encoding what was decoded changes nothing
    m2 = R.decode(msg.to_wire())
    kinds = dict(HEAD, **req, **opt)
    if m2 is None or set(m2) != set(m) or \
       not all(same(kinds[n], m2[n], m[n]) for n in m):
        raise Violation("%s is encoded again as %r" % (where, m2))
    return True


def corruptions(base, fmt, pick=None):
    """[(text, description)] of single changes."""
    req, opt = fmt
    kinds = dict(HEAD, **req, **opt)
    out = []

    def put(m, what, raw=None):
        s = json.dumps(m)
        if raw is not None:
            s = s.replace('"%RAW%"', raw)
        out.append((m if raw is None else s, what))
    for f, k in kinds.items():
        if f in base:
            m = dict(base)
            del m[f]
            put(m, "without " + f)
        for v in BAD[k] + (VALUES[k] if k != R.PROPS else
                           [jsonable(k, x) for x in VALUES[k]]):
            put(dict(base, **{f: v}), "%s=%r" % (f, v))
        for r in RAW:
            put(dict(base, **{f: "%RAW%"}), "%s=%s" % (f, r[:20]), r)
        if k == R.PROPS:
            for r in RAW:
                put(dict(base, **{f: {"k": ["%RAW%"]}}),
                    "%s has %s" % (f, r[:20]), r)
    for f in ("x", "", "ta_id", "Ta-Id", "filter", "ttl", "fail-reason",
              "orphan-since", "protocol-version", "track-type", "idle",
              "latency"):
        if f not in base:
            for v in (1, "x", None):
                put(dict(base, **{f: v}), "with %s=%r" % (f, v))
    for t in TYPES + ("REQUEST", "", "Notify", "request "):
        put(dict(base, **{"msg-type": t}), "of type " + t)
    for c in sorted({c for c, t in R.FORMATS[3]}) + ["", "PING", "pong"]:
        put(dict(base, **{"ta-cmd": c}), "of command " + c)
    return out


def base_messages(item):
    ver, cmd, t = item
    req, opt = R.FORMATS[ver][cmd, t]
    out = []
    head = {'ta-cmd': cmd, 'ta-id': 7, 'msg-type': t}
    for present in itertools.product((False, True), repeat=len(opt)):
        m = dict(head)
        for n, k in list(req.items()) + [
                x for x, p in zip(opt.items(), present) if p]:
            m[n] = jsonable(k, VALUES[k][1])
        out.append(m)
    return out, (req, opt)


def corrupt(double):
    def fun(b, item):
        ver = item[0]
        bases, fmt = base_messages(item)
        if double:
            bases = bases[:1] + bases[-1:] if len(bases) > 1 else bases
        for base in bases:
            level = corruptions(base, fmt)
            if double:
                level = [x for m, w in level[::3] if isinstance(m, dict)
                         for x in corruptions(m, fmt)[::5]]
            for m, what in level:
                s = m if isinstance(m, str) else json.dumps(m)
                for v in ((2, 3) if not double else (ver,)):
                    b.n += 1
                    ok = decode(b, v, s.encode('utf-8', 'surrogatepass'),
                                "%s (v%d)" % (s[:600], v))
                    b.states += 1
                    b.note("accepted" if ok else "refused")
    return fun


def texts(b, item):
    """Truncations and byte changes of one encoded message."""
    ver = item[0]
    bases, fmt = base_messages(item)
    s = json.dumps(bases[-1], ensure_ascii=False).encode()
    cases = [s[:i] for i in range(len(s))] + \
        [s[i:] for i in range(1, len(s))] + \
        [s[:i] + s[i + 1:] for i in range(len(s))]
    for i in range(len(s)):
        for c in (b'"', b"{", b"}", b"[", b",", b":", b"\\", b"\0", b"\xff",
                  b"\xc3", b" ", b"-", b"0"):
            cases.append(s[:i] + c + s[i + 1:])
            cases.append(s[:i] + c + s[i:])
    cases += [b" " + s, s + b" \n", b"\n" + s, s + s, b"[" + s + b"]",
              b"\xef\xbb\xbf" + s, s.decode().encode("utf-16"),
              s.decode().encode("utf-16-le"), s.decode().encode("utf-32"),
              s + b"\0", b"\0" + s]
    for c in cases:
        m = R.decode(c)
        if m is not None and dup(c):
            continue
        b.n += 1
        ok = decode(b, ver, c, "%r (v%d)" % (c[:600], ver))
        b.states += 1
        b.note("accepted" if ok else "refused")


def dup(c):
    found = []

    def hook(pairs):
        if len({k for k, v in pairs}) != len(pairs):
            found.append(1)
        return dict(pairs)
    json.loads(c.decode(), object_pairs_hook=hook)
    return bool(found)


GARBAGE = ["", " ", "\0", "{", "}", "{}", "[]", "[{}]", "1", "-1", "1.5",
           "null", "true", "false", '""', '"x"', "NaN", "Infinity", "{]",
           "[" * 2000, "[" * 200000, '{"a":' * 100000, "{'a': 1}", "{1: 2}",
           '{"a"}', '{"a": }', '{"a" 1}', "\ufeff{}", "x" * 65000,
           '"' + "x" * 65000 + '"', "9" * 65000, "[" + "1," * 30000 + "1]"]


def garbage(b, i):
    for v in (2, 3, None):
        s = GARBAGE[i]
        b.n += 1
        b.states += 1
        try:
            P.Message.parse(v, s.encode())
        except P.ProtocolError:
            continue
        except Exception as e:
            raise Violation("decoding %r fails with %s: %s" % (
                s[:100], type(e).__name__, e))
        raise Violation("%r is accepted as a message" % s[:100])


def raw_bytes(b, first):
    """All texts of up to two bytes."""
    for s in [bytes([first])] + [bytes([first, x]) for x in range(256)]:
        b.n += 1
        b.states += 1
        if decode(b, 3, s, repr(s)):
            raise Violation("%r is accepted as a message" % s)


def run(check):
    t = check.thorough
    batches(check, "values", encode, formats())
    batches(check, "corrupted", corrupt(False), formats())
    batches(check, "corrupted-twice", corrupt(True),
            formats() if t else [f for f in formats() if f[0] == 3 and
                                 f[2] in ("request", "inform")])
    batches(check, "texts", texts, formats())
    batches(check, "garbage", garbage, range(len(GARBAGE)))
    batches(check, "bytes", raw_bytes, range(256))
