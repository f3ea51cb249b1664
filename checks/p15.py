"""P15: the filter grammar is exact and printing round-trips.

All texts up to a length (those whose beginning can still become a filter are
extended further), all syntax trees up to a size, and edits of typical texts
are given to the real parser; harness/reffilter.py decides what each is."""
import itertools
import json

import vworld
import reffilter as ref
from choose import batches
from explore import Scenario
from vworld import Violation

import paf.filter

ALPHA = "()&|!=<>*\\a0-\0"
LIMIT = 60      # nesting which has to be accepted


def judge(b, t, deep=False):
    """Parse t with both; compare."""
    b.n += 1
    try:
        want = ref.parse(t)
    except ref.Bad as e:
        want = None
        why = str(e)
    try:
        f = paf.filter.parse(t)
    except paf.filter.ParseError as e:
        try:
            str(e)
        except Exception as x:
            raise Violation("the error for %r cannot be printed: %r" % (t, x))
        if want is not None and not deep:
            raise Violation("%r is refused: %s" % (t, e))
        return want is not None or why == "end of text"
    except Exception as e:
        raise Violation("%r fails with %s: %s" % (t, type(e).__name__, e))
    if want is None:
        raise Violation("%r is accepted though it is no filter (%s)" % (
            t, why))
    try:
        s = str(f)
    except Exception as e:
        raise Violation("%r cannot be printed: %s: %s" % (
            t, type(e).__name__, e))
    try:
        again = ref.parse(s)
    except ref.Bad as e:
        raise Violation("%r is printed as %r, which is no filter (%s)" % (
            t, s, e))
    if again != want:
        raise Violation("%r is printed as %r, which is another filter" % (
            t, s))
    try:
        f2 = paf.filter.parse(s)
    except paf.filter.ParseError as e:
        raise Violation("%r is printed as %r, which is refused: %s" % (
            t, s, e))
    if str(f2) != s:
        raise Violation("%r is printed as %r and then as %r" % (t, s,
                                                                str(f2)))
    b.states += 1
    if len(b.samples) < 1 and len(t) > 5:
        b.samples.append("%r accepted, printed as %r" % (t, s))
    return False


def all_texts(n):
    def fun(b, prefix):
        for k in range(n - len(prefix) + 1):
            for t in itertools.product(ALPHA, repeat=k):
                judge(b, prefix + "".join(t))
    return fun


ENDS = ("", ")", "a)", "=a)", "*)", "0)", "))", "(a=*))")


def viable(n, alpha):
    """Depth-first over texts whose beginning can become a filter; the dead
    ones are completed in some ways, but not extended further."""
    def fun(b, prefix):
        stack = [prefix]
        while stack:
            p = stack.pop()
            if judge(b, p):
                if len(p) < n:
                    stack += [p + c for c in alpha]
            else:
                for e in ENDS[1:]:
                    judge(b, p + e)
    return fun


INT = "-+01_9 x.\u0663"


def integers(n):
    def fun(b, op):
        for k in range(n + 1):
            for t in itertools.product(INT, repeat=k):
                judge(b, "(a%s%s)" % (op, "".join(t)))
        for k in (1, 15, 16, 17, 19, 20, 40, 300, 3900):
            judge(b, "(a%s%s)" % (op, "9" * k))
            judge(b, "(a%s-%s)" % (op, "1" * k))
        for k in (4301, 5000, 20000):
            judge(b, "(a%s%s)" % (op, "9" * k), deep=True)
    return fun


def trees():
    strs = ["a", "b*", "(", "\\", "1", " ", "é", "&"]
    keys = ["a", "k=", "!k", "("]
    leaves = []
    for k in keys:
        leaves.append(("*", k))
        for v in strs:
            leaves.append(("=", k, v))
        for v in (0, -1, 10):
            leaves += [(">", k, v), ("<", k, v)]
        parts = [None, "a", "*", "\\("]
        for i, f in itertools.product(parts, parts):
            for m in [(), ("a",), ("*", "b"), ("x", "y", ")")]:
                if i or f or m:
                    leaves.append(("sub", k, i, m, f))
    return leaves


def tree_cases(b, group):
    leaves = trees()
    if group[0] == "leaf":
        for f in leaves:
            expect(b, f)
            expect(b, ("!", f))
            expect(b, ("!", ("!", f)))
    elif group[0] == "pair":
        f = leaves[group[1]]
        for g in leaves:
            for op in "&|":
                expect(b, (op, f, g))
                expect(b, ("!", (op, ("!", f), g)))
    else:
        few = [("*", "a"), ("=", "a", "(x"), ("<", "b", -3),
               ("sub", "a", None, ("*",), "b")]
        level = [few]
        for d in range(group[1]):
            cur = list(level[-1])
            nxt = [("!", f) for f in cur[:40]]
            for op in "&|":
                nxt += [(op, f, g) for f in cur[:24] for g in cur[:24]]
                nxt += [(op, f, g, h) for f in cur[:6] for g in few
                        for h in cur[:6]]
            level.append(nxt)
        for f in level[-1]:
            expect(b, f)


def expect(b, f):
    t = ref.text(f)
    if ref.parse(t) != f:
        raise RuntimeError("reference: %r" % (f,))
    judge(b, t)


SEEDS = ("(name=value)", "(age>17)", "(x<-4)", "(k=*)", "(a=b*)", "(a=*b*c)",
         "(&(a=1)(b=2))", "(|(a=*)(b=*)(c=x))", "(!(a=b))",
         "(&(a=1)(|(b=2)(!(c>3))))", "(k\\*=\\(v\\))", "(a=b\\\\*)",
         "(a=*b\\**\\)c)", "(!(!(!(a=*))))")
EDIT = ALPHA + "z9 \n\"'\t\x7f\x80é\u2028\ud800\U0001f600"


def edits(two):
    def fun(b, seed):
        done = set()
        level = {seed}
        for i in range(1 + two):
            nxt = set()
            for t in level:
                for p in range(len(t) + 1):
                    for c in (EDIT if i == 0 else "()*\\=!"):
                        nxt.add(t[:p] + c + t[p:])
                        if p < len(t):
                            nxt.add(t[:p] + c + t[p + 1:])
                    if p < len(t):
                        nxt.add(t[:p] + t[p + 1:])
                        nxt.add(t[:p])
                    if p < len(t) - 1:
                        nxt.add(t[:p] + t[p + 1] + t[p] + t[p + 2:])
            nxt -= done
            for t in sorted(nxt):
                judge(b, t)
            done |= nxt
            level = nxt
    return fun


def characters(b, rng):
    for o in range(*rng):
        c = chr(o)
        judge(b, "(%s=x)" % c)
        judge(b, "(k=%s)" % c)
        judge(b, "(k=\\%s)" % c)
        judge(b, "(k=*%s*)" % c)
        judge(b, "(k>%s)" % c)
        judge(b, c + "(k=x)")
        judge(b, "(k=x)" + c)


def nested(b, shape):
    for n in list(range(1, 140)) + [200, 256, 330, 400, 500, 900, 1000, 2000,
                                    5000, 20000]:
        x = "(a=b)"
        if shape == "not":
            t = "(!" * n + x + ")" * n
        elif shape == "and":
            t = "(&(c=d)" * n + x + ")" * n
        elif shape == "or":
            t = "(|" * n + x + "(c=d))" * n
        elif shape == "mixed":
            t = "".join("(&(c=*)" if i % 2 else "(!" for i in range(n)) + \
                x + ")" * n
        elif shape == "open":
            t = "(!" * n
        elif shape == "parens":
            t = "(" * n
        else:
            t = "(%s%s)" % (shape, x * n)
            judge(b, t)
            continue
        judge(b, t, deep=n > LIMIT)


class Wire(Scenario):
    """The same through the protocol."""
    conf = '''domains:
- name: d0
  addrs: [ "ux:d0" ]
log: { syslog: false }
'''
    dedup = False

    def start(self, ep):
        self.p = ep.connect("ux:d0", "ux:p", tag=1)
        yield
        self.p.send(ta_cmd="hello", ta_id=0, msg_type="request", client_id=1,
                    protocol_minimum_version=2, protocol_maximum_version=2)
        yield
        self.p.recv()

    def do(self, ep, t):
        self.obs.append(t)
        try:
            want = ref.parse(t)
        except ref.Bad:
            want = None
        self.p.send(ta_cmd="subscribe", ta_id=1, msg_type="request",
                    subscription_id=7, filter=t)
        yield
        self.p.send(ta_cmd="subscriptions", ta_id=2, msg_type="request")
        yield
        m = self.p.recv()
        self.p.send(ta_cmd="services", ta_id=4, msg_type="request", filter=t)
        yield
        if self.p.dropped():
            raise Violation("the connection is closed upon filter %r" % t)
        l = [(x["msg-type"], x.get("fail-reason")) for x in self.p.recv()]
        if l != ([("fail", "invalid-filter-syntax")] if want is None else
                 [("accept", None), ("complete", None)]):
            raise Violation("listing services by %r, which is %s filter, "
                            "gives %r" % (t, "no" if want is None else "a",
                                          l))
        if want is None:
            if m[0]["msg-type"] != "fail" or \
               m[0].get("fail-reason") != "invalid-filter-syntax" or \
               len(m) != 3:
                raise Violation("subscribing with %r, which is no filter, "
                                "gives %r" % (t, m))
        else:
            if m[0]["msg-type"] != "accept" or len(m) != 4:
                raise Violation("subscribing with filter %r gives %r" % (
                    t, m))
            if ref.parse(m[2]["filter"]) != want:
                raise Violation("filter %r is listed as %r" % (
                    t, m[2]["filter"]))
            self.p.send(ta_cmd="unsubscribe", ta_id=3, msg_type="request",
                        subscription_id=7)
            yield
            self.p.recv()


def run(check):
    t = check.thorough
    n = 6 if t else 5
    pre = ["".join(x) for x in itertools.product(ALPHA, repeat=2)]
    batches(check, "texts", all_texts(n), [""] if n < 2 else pre)
    batches(check, "short", all_texts(1), [""])
    alpha = ALPHA[:-1]
    batches(check, "viable", viable(9 if t else 8, alpha),
            ["(" + a + c for a in alpha for c in alpha])
    alpha = "()&|!=*a"
    batches(check, "viable-composite", viable(16 if t else 14, alpha),
            [p + a + c for p in ("(&(", "(|(", "(!(") for a in alpha
             for c in alpha])
    batches(check, "integers", integers(6 if t else 5), ["<", ">", "="])
    batches(check, "trees", tree_cases,
            [("leaf",)] + [("pair", i) for i in range(len(trees()))] +
            [("deep", d) for d in (1, 2, 3)])
    batches(check, "edits", edits(1), SEEDS)
    top = 0x110000 if t else 0x3100
    batches(check, "characters", characters,
            [(i, min(i + 0x200, top)) for i in range(0, top, 0x200)])
    batches(check, "nesting", nested, ["not", "and", "or", "mixed", "open",
                                       "parens", "&", "|"])
    wire = list(SEEDS) + ["", "(", "()", "(a)", "(a=)", "(a=\\x)", "(a>)",
                          "(a>01)", "(a>-0)", "(&(a=b))", "(!a=b)", "(a=b",
                          "(a=b)x", "(a=**)", "(a=\0)", "x", "(=a)", "(a>1",
                          "(a=\u00e9\u4e2d)", "(a=\"')", "(\\a=b)", "(a!=b)",
                          "(a=b!)", "(a=b\\!)", "(a=(b))", "((a=b))",
                          "(!" * 30 + "(a=b)" + ")" * 30]
    check.cases("wire", Wire, [[w] for w in wire] + [wire])
