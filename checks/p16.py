"""P16: filter evaluation matches the documented meaning.

All filters up to a size bound against all property sets up to a size bound;
the verdict of the real code is compared with harness/reffilter.py. Filters
are given as text, properties in the form in which the server keeps them (as
decoded from a message)."""
import itertools
import json

import reffilter as ref
import vworld
from choose import batches
from explore import Scenario
from vworld import Violation

import paf.filter


def judge(b, f, t, props):
    b.n += 1
    want = ref.match(f[0], props)
    try:
        got = f[1].match(props)
    except Exception as e:
        raise Violation("evaluating %s on %r fails with %s: %s" % (
            t, props, type(e).__name__, e))
    if bool(got) != want:
        raise Violation("%s %s %r" % (t, "matches" if got else
                                      "does not match", props))
    return got


def both(f):
    t = ref.text(f)
    try:
        return (f, paf.filter.parse(t)), t
    except paf.filter.ParseError as e:
        raise Violation("%s is refused: %s" % (t, e))


def strings(alpha, n):
    return ["".join(x) for k in range(n + 1)
            for x in itertools.product(alpha, repeat=k)]


# values with a meaning to something: numbers in several spellings, pattern
# and filter metacharacters, line ends, case, long and empty ones
VALUES = [0, 1, -1, 2, 7, 10, -10, 10 ** 20, -10 ** 20, "0", "1", "-1", "01",
          "+1", "1.0", " 1", "1 ", "", "a", "A", "ab", "ba", "aab", "a\n",
          "\na", "\n", "a\nb", ".", ".*", "a.b", "axb", "^a$", "[ab]", "(a)",
          "a|b", "*", "a*", "**", "\\", "\\a", "a\\", "$", "a$", "\t", "é",
          "e\u0301", "\u0663", "\u212a", "k", "\x00", "\ud800", "True",
          "None", "a" * 300]


def singles():
    out = []
    for v in VALUES:
        v = str(v)
        if v and "\0" not in v:
            out.append(("=", "k", v))
            out += [("sub", "k", v, (), None), ("sub", "k", None, (), v),
                    ("sub", "k", None, (v,), None),
                    ("sub", "k", v, (), v), ("sub", "k", None, (v, v), None),
                    ("sub", "k", v, (v,), v), ("sub", "k", "a", (), v),
                    ("sub", "k", v, (), "b"), ("sub", "k", "a", (v,), "b")]
    for n in (0, 1, -1, 2, 9, 10, 10 ** 20, -10 ** 20, 10 ** 20 - 1):
        out += [(">", "k", n), ("<", "k", n)]
    out += [("*", "k"), ("*", "K"), ("=", "K", "a"), ("*", "k "),
            ("*", "\\"), ("*", "*"), ("=", "(", "a")]
    return out


def single(b, i):
    f = singles()[i]
    p, t = both(f)
    q, tq = both(("!", f))
    for props in [{}, {"x": {"a", 1}}, {"K": {"a"}}, {"": {"a"}},
                  {"\\": {"a"}}, {"*": {1}}, {"(": {"a"}}, {"k ": {1}}]:
        judge(b, p, t, props)
        judge(b, q, tq, props)
        b.states += 1
    for v in VALUES:
        for props in ({"k": {v}}, {"K": {v}}, {"k": {v}, "x": {"a"}}):
            judge(b, p, t, props)
            judge(b, q, tq, props)
            b.states += 1
    for v, w in itertools.combinations(VALUES, 2):
        judge(b, p, t, {"k": {v, w}})
        judge(b, p, t, {"k": {v}, "x": {w}})
        b.states += 2
    few = VALUES[:4] + ["1", "a", "ab", ""]
    for vs in itertools.combinations(few, 3):
        judge(b, p, t, {"k": set(vs)})
        b.states += 1


def patterns(n, nmid):
    parts = strings("xy", 2)[1:]
    mids = [m for k in range(nmid + 1)
            for m in itertools.product(parts, repeat=k)]
    values = strings("xy", n)

    def fun(b, item):
        init, final = item
        for m in mids:
            if init is None and final is None and not m:
                continue
            f = ("sub", "k", init, m, final)
            p, t = both(f)
            hits = 0
            for v in values:
                hits += bool(judge(b, p, t, {"k": {v}}))
                b.states += 1
            judge(b, p, t, {"k": {1, "x"}})
            judge(b, p, t, {"k": {"xy", "yyx", 3}})
            if hits and len(b.samples) < 1:
                b.samples.append("%s matches %d of %d strings" % (
                    t, hits, len(values)))
    return fun


def numbers(b, op):
    for n in range(-12, 13):
        p, t = both((op, "k", n if op in "<>" else str(n)))
        for v in list(range(-14, 15)):
            judge(b, p, t, {"k": {v}})
            judge(b, p, t, {"k": {str(v)}})
            b.states += 2
            for w in range(-14, 15, 3):
                judge(b, p, t, {"k": {v, w}})
                judge(b, p, t, {"k": {v, str(w)}})
                b.states += 2
    for e in (31, 32, 53, 63, 64, 100):
        for d in (-1, 0, 1):
            n = (1 << e) + d
            for s in (1, -1):
                p, t = both((op, "k", s * n) if op in "<>" else
                            ("=", "k", str(s * n)))
                for dd in (-1, 0, 1):
                    for z in (1, -1):
                        judge(b, p, t, {"k": {z * (n + dd)}})
                        b.states += 1


LEAVES = [("=", "a", "1"), (">", "a", 0), ("*", "b"),
          ("sub", "b", "x", (), "y"), ("<", "b", 5), ("=", "c", "z")]
SETS = [{}, {"a": {1}}, {"a": {"1"}}, {"a": {0, "1"}}, {"b": {"xy"}},
        {"b": {"x"}}, {"b": {4}}, {"a": {1}, "b": {"xy"}},
        {"a": {"1"}, "b": {9}}, {"c": {"z"}}, {"a": {2}, "c": {"z"}},
        {"b": {"xyy", 7}, "c": {"zz"}}]


def tree_level(prev, wide):
    out = [("!", f) for f in prev]
    for op in "&|":
        out += [(op, f, g) for f in prev for g in prev]
        out += [(op, f, g, h) for f in wide for g in wide for h in wide]
    return out


def composed(b, item):
    depth, k = item
    lv = [LEAVES, None, None]
    lv[1] = LEAVES + tree_level(LEAVES, LEAVES)
    if depth == 1:
        fs = lv[1]
    elif depth == 4:
        # wide ones
        fs = [(op,) + tuple(LEAVES[(i + j * k) % 6] for j in range(w))
              for op in "&|" for i in range(6) for w in range(2, 60)]
    else:
        few = lv[1][::7 if depth == 2 else 11]
        fs = [(op, lv[1][k], g) for op in "&|" for g in lv[1]] + \
             [(op, g, ("!", lv[1][k])) for op in "&|" for g in few]
        if depth == 3:
            fs = [("!", f) for f in fs] + \
                 [(op, f, few[(k + i) % len(few)]) for op in "&|"
                  for i, f in enumerate(fs)]
    for f in fs:
        p, t = both(f)
        for props in SETS:
            judge(b, p, t, props)
            b.states += 1


class Wire(Scenario):
    """A subscriber sees a service exactly if its filter matches."""
    conf = '''domains:
- name: d0
  addrs: [ "ux:d0" ]
log: { syslog: false }
'''
    dedup = False

    def start(self, ep):
        self.p = ep.connect("ux:d0", "ux:p", tag=1)
        yield
        self.p.send(ta_cmd="hello", ta_id=0, msg_type="request", client_id=1,
                    protocol_minimum_version=2, protocol_maximum_version=2)
        yield
        self.p.recv()
        self.ta = 0
        self.gen = 0

    def req(self, **kw):
        self.ta += 1
        self.p.send(ta_id=self.ta, msg_type="request", **kw)
        return self.ta

    def do(self, ep, a):
        f, values = a
        f = tup(f)
        t = ref.text(f)
        self.obs.append([t, values])
        sub = self.req(ta_cmd="subscribe", subscription_id=1, filter=t)
        yield
        self.p.recv()
        was = False
        for vs in values:
            props = {"k": set(vs)} if vs else {}
            want = ref.match(f, props)
            self.gen += 1
            self.req(ta_cmd="publish", service_id=1, generation=self.gen,
                     service_props={"k": vs} if vs else {}, ttl=9)
            ls = self.req(ta_cmd="services", filter=t)
            yield
            ms = self.p.recv()
            got = [m["match-type"] for m in ms if m["ta-id"] == sub]
            exp = [["modified"] if was else ["appeared"], [], ["disappeared"]
                   ][0 if want else 2 if was else 1]
            listed = any(m["ta-id"] == ls and m["msg-type"] == "notify"
                         for m in ms)
            if got != exp or listed != want:
                raise Violation("a service with properties %r and the filter "
                                "%s: subscription got %r, listing %s it" % (
                                    props, t, got, "has" if listed else
                                    "lacks"))
            was = want
        self.req(ta_cmd="unpublish", service_id=1)
        self.req(ta_cmd="unsubscribe", subscription_id=1)
        yield
        self.p.recv()


def tup(x):
    return tuple(tup(y) if isinstance(y, list) else y for y in x)


def run(check):
    t = check.thorough
    batches(check, "single", single, range(len(singles())))
    parts = [None] + strings("xy", 3 if t else 2)[1:]
    batches(check, "substrings", patterns(7 if t else 5, 2),
            itertools.product(parts, parts))
    if t:
        parts = [None] + strings("xy", 1)[1:]
        batches(check, "substrings-3", patterns(8, 3),
                itertools.product(parts, parts))
    batches(check, "numbers", numbers, ["<", ">", "="])
    n = len(LEAVES) + len(tree_level(LEAVES, LEAVES))
    batches(check, "composed", composed,
            [(1, 0)] + [(4, k) for k in (1, 2, 3)] +
            [(2, k) for k in range(0, n, 1 if t else 6)] +
            [(3, k) for k in range(0, n, 3 if t else 40)])
    # NUL cannot be written in a filter, hence not in values either
    vals = [v for v in VALUES if v != "\ud800"]
    steps = [[v] for v in vals[:40]] + [[]] + [[v, w] for v, w in zip(
        vals, vals[3:])] + [["a", 1, "1"], [1, 1, "x"]]
    fs = [f for f in singles() if "\ud800" not in repr(f)]
    check.cases("wire", Wire, [[[f, steps]] for f in fs[::1 if t else 3]])
