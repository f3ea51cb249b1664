"""P29: pafc executes exactly what was typed.

Command lines built from all combinations of representative tokens are typed
at the real app/pafc, connected to a scripted server giving every kind of
answer; the requests that arrive and what is printed are compared with an
independent reading of the command."""
import datetime
import itertools
import json
import os
import re

import vworld
from choose import batches
from vworld import Clock, OwnedRandom, Violation
from checks.cli import Session

I64 = (1 << 63) - 1
OK = dict(msg_type="complete")
ACC = dict(msg_type="accept")
REASONS = ["permission-denied", "old-generation", "no-hello", "weird one"]


def quote(tok, how=0):
    """A token as typed."""
    if tok and re.fullmatch(r"[\w.()=|/:<>&!*+-]+", tok) and how == 0:
        return tok
    if "'" not in tok and how != 2:
        return "'%s'" % tok
    return '"%s"' % tok.replace("\\", "\\\\").replace('"', '\\"')


def hello_reply(ver):
    return dict(msg_type="complete", protocol_version=ver)


class Server:
    """Answers; the next outcome is set by the script."""

    def __init__(self, ver=3):
        self.ver = ver
        self.next = None

    def __call__(self, m):
        if m["msg-type"] != "request":
            return []
        if self.next is not None:
            n, self.next = self.next, None
            return n
        if m["ta-cmd"] == "hello":
            return [hello_reply(self.ver)]
        if m["ta-cmd"] in ("publish", "unpublish", "unsubscribe", "ping"):
            return [OK]
        if m["ta-cmd"] in ("subscribe", "track"):
            return [ACC]
        return [ACC, OK]


def bad(line, what, out=None):
    raise Violation("%r: %s%s" % (line, what, "" if out is None else
                                  "; printed: %r" % out[:300]))


def typed(b, script, ver=3, args=("ux:srv",), server=None, addr="ux:srv"):
    Clock.now = vworld.T0
    server = server or Server(ver)

    def wrapped(s):
        yield from script(s, server)
    s = Session(list(args), wrapped, server, addr).run()
    b.n += s.commands
    b.states += s.commands
    return s


def expect_normal(s, what=""):
    if s.trouble:
        raise Violation("%s%s" % (what, s.trouble))
    if s.how not in ("exit", "over") or s.code not in (0, None):
        raise Violation("%spafc ends: %s, %r; %s" % (what, s.how, s.code,
                                                     s.rest[-300:]))


def is_ok(out):
    return "OK." in [ln.strip() for ln in out.split("\n")]


def judge(line, got, want, why=None, reason=None):
    """want: the fields of the only request, or None; reason: how it fails"""
    msgs, out = got
    reqs = [{k: v for k, v in m.items() if k not in ("ta-id",)}
            for m in msgs]
    if want is None:
        if msgs:
            bad(line, "malformed, but %r is sent" % reqs, out)
        if not out.strip() or is_ok(out):
            bad(line, "malformed, but not reported", out)
        return
    if len(reqs) != 1 or not same(reqs[0], want):
        bad(line, "%r is sent instead of %r" % (reqs, want), out)
    if reason is None:
        if not is_ok(out):
            bad(line, "succeeds, but is not reported as such", out)
    else:
        if is_ok(out):
            bad(line, "fails, but is reported as successful", out)
        if not out.strip() or reason not in out:
            bad(line, "fails with %r, which is not reported" % reason, out)


def same(got, want):
    if set(got) != set(want):
        return False
    for k, v in want.items():
        g = got[k]
        if k == "service-props":
            if set(g) != set(v):
                return False
            for n in v:
                key = lambda x: (type(x).__name__, x)   # noqa: E731
                if sorted(g[n], key=key) != sorted(v[n], key=key):
                    return False
        elif callable(v):
            if not v(g):
                return False
        elif g != v or type(g) is not type(v):
            return False
    return True


# ----------------------------------------------------------- publish

IDS = [None, "0", "1f", "FFFF", "7fffffffffffffff", "g", "", "-1", "1 2"]
NUMS = ["0", "7", "4711", "9223372036854775807", "x", "", "1.5", "7f"]
NAMES = ["a", "b c", "", "ö", "5", "|x|"]
VALUES = ["0", "-7", "4711", "9223372036854775807", "-9223372036854775808",
          "|5|", "|x|", "||", "|", "|a", "a|", "x", "5 ", " 5", "1_0",
          "\uff15", "\u0663", "1.5", "1e3", "0x10", "", " ", "true", "--5", "a'b", "a\"b",
          "||5||", "- 5", "None", "-", "5\t", "ö", "-|5|"]


def value(tok):
    if len(tok) >= 2 and tok[0] == "|" == tok[-1]:
        return tok[1:-1]
    if re.fullmatch("-?[0-9]+", tok):
        return int(tok)
    return tok


def props(toks):
    out = {}
    for k, v in zip(toks[::2], toks[1::2]):
        vs = out.setdefault(k, [])
        v = value(v)
        if not any(type(o) is type(v) and o == v for o in vs):
            vs.append(v)
    return out


def number(tok):
    return int(tok) if re.fullmatch("[0-9]+", tok) else None


def ident(tok):
    return int(tok, 16) if re.fullmatch("[0-9a-fA-F]+", tok) else None


def publish(toks):
    """The request, or None."""
    if len(toks) < 2 or len(toks) == 1:
        return None
    if len(toks) % 2:
        sid, toks = ident(toks[0]), toks[1:]
        if sid is None:
            return None
    else:
        sid = lambda v: isinstance(v, int) and 0 <= v <= I64  # noqa: E731
    gen, ttl = number(toks[0]), number(toks[1])
    if gen is None or ttl is None:
        return None
    return {"ta-cmd": "publish", "msg-type": "request", "service-id": sid,
            "generation": gen, "service-props": props(toks[2:]), "ttl": ttl}


def publishes(b, lines):
    def script(s, server):
        for toks, how in lines:
            line = " ".join(["publish"] + [quote(t, how) for t in toks])
            want = publish(toks)
            got = yield line
            judge(line, got, want)
            if want is not None and len(toks) % 2 == 0:
                sid = got[0][0]["service-id"]
                if ("%x" % sid) not in got[1]:
                    bad(line, "the id %x is not printed" % sid, got[1])
    expect_normal(typed(b, script))


def publish_lines(t):
    out = []
    for i in IDS:
        for g in NUMS:
            for n in NUMS:
                head = ([] if i is None else [i]) + [g, n]
                for p in ([], ["a", "1"], ["a"], ["a", "x", "b"],
                          ["a", "x", "b", "5"]):
                    # a negative generation is for the server to refuse
                    if not (i == "-1" and len(head + p) % 2 == 0):
                        out.append((head + p, 0))
    for head in (["1f", "1", "5"], ["1", "5"]):
        for k in NAMES:
            for v in VALUES:
                for how in (0, 1, 2):
                    out.append((head + [k, v], how))
        for v, w in itertools.product(VALUES, repeat=2):
            for k in ("a", "b"):
                out.append((head + ["a", v, k, w], 0))
        if t:
            for v, w, x in itertools.product(VALUES, repeat=3):
                for k, m in (("a", "a"), ("a", "b"), ("b", "a")):
                    out.append((head + ["a", v, k, w, m, x], 0))
    out += [([], 0), (["1"], 0), (["x"], 0)]
    return out


# ------------------------------------------------------- simple commands

FILTERS = ["(a=b)", "(name=*)", "(&(a=1)(b>2))", "(a=b c)", "", "x", "((",
           "(a=ö)", "-", "(a=\\*)"]


def simple_lines():
    """(line, request or None)"""
    out = []

    def req(cmd, **kw):
        return dict({"ta-cmd": cmd, "msg-type": "request"},
                    **{k.replace("_", "-"): v for k, v in kw.items()})
    sub_id = lambda v: isinstance(v, int) and 0 <= v <= I64    # noqa: E731
    for f in FILTERS:
        for how in (0, 1, 2):
            q = quote(f, how)
            out.append(("services " + q, req("services", filter=f)))
            out.append(("subscribe " + q, req("subscribe", filter=f,
                                              subscription_id=sub_id)))
            out.append(("services  %s " % q, req("services", filter=f)))
    for f, g in itertools.product(FILTERS[:4] + [""], repeat=2):
        out.append(("services %s %s" % (quote(f), quote(g)), None))
        out.append(("subscribe %s %s" % (quote(f), quote(g)), None))
    for line in ("(a=b", "'(a=b)", '"(a=b)', "(a=b)'", "\\"):
        ok = line == "(a=b"
        out.append(("services " + line, req("services", filter=line)
                    if ok else None))
        out.append(("subscribe " + line, req(
            "subscribe", filter=line, subscription_id=sub_id)
            if ok else None))
        if not ok:
            out.append(("publish 1 2 a " + line, None))
            out.append(("track " + line, None))
    out += [("services", req("services")), ("services ", req("services")),
            ("subscribe", req("subscribe", subscription_id=sub_id)),
            ("clients", req("clients")),
            ("subscriptions", req("subscriptions")),
            ("ping", req("ping"))]
    for cmd, key in (("unpublish", "service_id"),
                     ("unsubscribe", "subscription_id")):
        for i in ["0", "1f", "FFFF", "7fffffffffffffff", "abc", "  5", "5 "]:
            out.append(("%s %s" % (cmd, i), req(cmd, **{key: int(i, 16)})))
        for i in ["", "g", "-1", "1 2", "5x", "0.5", "'", "x y z", "|5|"]:
            out.append(("%s %s" % (cmd, i), None))
    for line in ("nosuch", "publis 1 2", "track nosuch",
                 "track query more", "track query", "track verbose",
                 "track quiet", "track a b c", "unpub 5"):
        out.append((line, None))
    return out


def simple(b, item):
    """Each command, after each other one."""
    first, ver = item
    lines = simple_lines()

    def script(s, server):
        for line, want in lines:
            for ln, w in (lines[first], (line, want)):
                got = yield ln
                judge(ln, got, w)
                if w and w["ta-cmd"] == "subscribe":
                    i = got[0][0]["subscription-id"]
                    if ("%x" % i) not in got[1]:
                        bad(ln, "the id %x is not printed" % i, got[1])
        got = yield "id"
        if got[0] or "%x" % s.hello["client-id"] not in got[1]:
            bad("id", "%r sent" % got[0], got[1])
        got = yield ""
        if got[0] or got[1].strip():
            bad("an empty line", "%r sent" % got[0], got[1])
    expect_normal(typed(b, script, ver))


ONES = ["ping", "hello", "publish 1f 1 5", "publish 1 5 a b", "unpublish 1f",
        "unsubscribe 1f", "services", "services (a=b)", "clients",
        "subscriptions", "subscribe", "subscribe (a=b)", "track"]


def failures(b, item):
    """Failing operations, and that things go on as usual."""
    line, after, ver = item
    cmd = line.split()[0]
    if ver == 2 and cmd == "track":
        return

    def script(s, server):
        multi = cmd in ("services", "clients", "subscriptions")
        for r in REASONS + [None]:
            f = dict(msg_type="fail")
            if r is not None:
                f["fail_reason"] = r
            for pre in ([], [ACC]) if multi else ([],):
                server.next = pre + [f]
                msgs, out = yield line
                if len(msgs) != 1 or msgs[0]["ta-cmd"] != cmd:
                    bad(line, "%r is sent" % msgs, out)
                if is_ok(out):
                    bad(line, "fails, but is reported as successful", out)
                if not out.strip() or (r or "") not in out:
                    bad(line, "the reason %r is not reported" % r, out)
                if r is None and "unknown" not in out:
                    bad(line, "the missing reason is not reported", out)
                msgs, out = yield after
                if len(msgs) != 1 or not is_ok(out) or \
                   msgs[0]["ta-cmd"] != after.split()[0]:
                    bad(after, "after a failure: %r is sent" % msgs, out)
                if after == "track":
                    return
    expect_normal(typed(b, script, ver))


def losses(b, item):
    """Loss of the connection, or rubbish, instead of an answer."""
    line, ans = item

    def script(s, server):
        server.next = [ans]
        msgs, out = yield line
        if is_ok(out):
            bad(line, "%r: reported as successful" % ans, out)
        if not out.strip():
            bad(line, "%r: not reported" % ans, out)
        yield "id"
    s = typed(b, script)
    if s.trouble and "waits" in s.trouble:
        bad(line, s.trouble)
    if is_ok(s.rest):
        bad(line, "%r: reported as successful" % ans, s.rest)


# ------------------------------------------------------------- listings

def shown_props(p):
    """All ways to show the properties."""
    items = []
    for k, vs in p.items():
        for v in vs:
            items.append("'%s': '%s'" % (k, v) if isinstance(v, str) else
                         "'%s': %d" % (k, v))
    return items


def check_props(line, text, p, out):
    items = shown_props(p)
    if not (text.startswith("{") and text.endswith("}")):
        bad(line, "no properties in %r" % text, out)
    body = text[1:-1]
    perms = itertools.permutations(items) if len(items) < 5 else [items]
    if body not in {", ".join(x) for x in perms}:
        bad(line, "properties %r shown as %r" % (p, text), out)


PROPS = [{}, {"a": [1]}, {"a": ["1"]}, {"a": [1, "1"]},
         {"a": ["x y"], "b": [-5]}, {"n": ["s, t"], "m": [0, 2, "z"]},
         {"ö": ["%s %d"]}]
SVCS = [dict(service_id=i, generation=g, service_props=p, ttl=t, client_id=c,
             **({} if o is None else {"orphan_since": o}))
        for i, g, t, c in ((0, 0, 0, 0), (0x1f, 7, 60, 0xabc),
                           (I64, I64, 99999, I64))
        for p in PROPS[:4] for o in (None, 0.5)] + \
       [dict(service_id=5, generation=1, service_props=p, ttl=60,
             client_id=9, orphan_since=o) for p in PROPS
        for o in (0, 1, 30.25)]


def service_rows(b, rows):
    def script(s, server):
        for r in rows:
            r = [dict(x, **({"orphan_since": Clock.now - x["orphan_since"]}
                            if "orphan_since" in x else {})) for x in r]
            server.next = [ACC] + [dict(msg_type="notify", **x)
                                   for x in r] + [OK]
            msgs, out = yield "services"
            judge("services", (msgs, out), {"ta-cmd": "services",
                                            "msg-type": "request"})
            got = [ln for ln in out.split("\n") if "{" in ln]
            if len(got) != len(r):
                bad("services", "%d services, %d shown" % (
                    len(r), len(got)), out)
            for x, ln in zip(r, got):
                i = ln.index("{")
                orphan = "-" if "orphan_since" not in x else "%.1f" % (
                    x["ttl"] - (Clock.now - x["orphan_since"]))
                want = ["%x" % x["service_id"], str(x["generation"]),
                        str(x["ttl"]), orphan, "%x" % x["client_id"]]
                if ln[:i].split() != want:
                    bad("services", "%r shown as %r" % (x, ln), out)
                check_props("services", ln[i:], x["service_props"], out)
    expect_normal(typed(b, script))


def other_rows(b, ver):
    subs = [dict(subscription_id=i, client_id=c, **({} if f is None else
                                                    {"filter": f}))
            for i in (0, 0x1f, I64) for c in (0, 0xabc, I64)
            for f in (None, "(a=b)", "(a=x y)", "-")]
    clis = [dict(dict(client_id=c, client_address=a, time=int(vworld.T0) - u),
                 **(dict(dict(idle=i, protocol_version=v),
                         **({} if la is None else {"latency": la}))
                    if ver == 3 else {}))
            for c in (0, 0xabc, I64) for a in ("ux:", "tls:10.0.0.1:4711")
            for u in (0, 59, 3600, 90000)
            for i, v, la in ((0, 2, None), (1.5, 3, 0.0123), (100, 3, 0))]

    def script(s, server):
        for rows in [[x] for x in subs] + [
                list(p) for p in itertools.product(subs[:9:2], repeat=3)]:
            server.next = [ACC] + [dict(msg_type="notify", **x)
                                   for x in rows] + [OK]
            msgs, out = yield "subscriptions"
            if not is_ok(out):
                bad("subscriptions", "no OK", out)
            want = [("%x %x " % (x["subscription_id"], x["client_id"]) +
                     x.get("filter", "-")) for x in rows]
            got = [re.sub(" +", " ", ln).strip() for ln in out.split("\n")]
            got = [ln for ln in got if ln and ln != "OK."][1:]
            if got != want:
                bad("subscriptions", "%r shown" % (rows,), out)
        for rows in [[x] for x in clis] + [
                list(p) for p in itertools.product(clis[:24:5], repeat=3)]:
            server.next = [ACC] + [dict(msg_type="notify", **x)
                                   for x in rows] + [OK]
            msgs, out = yield "clients"
            if not is_ok(out):
                bad("clients", "no OK", out)
            want = []
            for x in rows:
                up = int(round(Clock.now - x["time"]))
                w = ["%x" % x["client_id"], x["client_address"]] + \
                    str(datetime.timedelta(seconds=up)).split()
                if ver == 3:
                    w += ["%.3f" % x["idle"], "%.1f" % (x["latency"] * 1e3)
                          if "latency" in x else "-",
                          str(x["protocol_version"])]
                want.append(w)
            got = [ln.split() for ln in out.split("\n")]
            got = [ln for ln in got if ln and ln != ["OK."]][1:]
            if got != want:
                bad("clients", "%r shown instead of %r" % (got, want), out)
    expect_normal(typed(b, script, ver))


MATCHES = [dict(match_type=m, service_id=i, **x)
           for m in ("appeared", "modified", "disappeared")
           for i in (0, 0xabc, I64)
           for x in [{}] + [dict(dict(generation=g, service_props=p, ttl=t,
                                      client_id=c),
                                 **({} if o is None else
                                    {"orphan_since": o}))
                            for g, t, c in ((0, 60, 0), (7, 5, I64))
                            for p in PROPS for o in (None, 0, 1.5)]]


def matches(b, first):
    """Notifications for two subscriptions, in any order."""
    def script(s, server):
        got = yield "subscribe"
        a = got[0][0]
        OwnedRandom.value = 0.25
        got = yield "subscribe (x=y)"
        c = got[0][0]
        OwnedRandom.value = 0.5
        ids = {1: a["subscription-id"], 2: c["subscription-id"]}
        tas = {1: a["ta-id"], 2: c["ta-id"]}
        if ids[1] == ids[2]:
            raise RuntimeError("ids")
        for m in MATCHES[first::8]:
            for order in ((1,), (2,), (1, 2), (2, 1), (1, 1)):
                want = []
                for o in order:
                    x = dict(m)
                    if "orphan_since" in m:
                        x["orphan_since"] = Clock.now - m["orphan_since"]
                    s.send(ta_cmd="subscribe", ta_id=tas[o],
                           msg_type="notify", **x)
                    want.append((o, m))
                msgs, out = yield "id"
                # printed once the next line is asked for, at the latest
                msgs2, out2 = yield ""
                out += out2
                if msgs or msgs2:
                    bad("notification", "%r is sent" % (msgs + msgs2,))
                rows = [ln for ln in out.split("\n")
                        if "Subscription" in ln]
                if len(rows) != len(want):
                    bad("notification", "%d notifications, %d shown" % (
                        len(want), len(rows)), out)
                for ln, (o, m) in zip(rows, want):
                    check_match(ln, ids[o], m, out)
        # unsubscribed
        s.send(ta_cmd="subscribe", ta_id=tas[1], msg_type="complete")
        yield "id"
        msgs, out = yield ""
        got = yield "unsubscribe %x" % ids[2]
        judge("unsubscribe", got, {
            "ta-cmd": "unsubscribe", "msg-type": "request",
            "subscription-id": ids[2]})
    expect_normal(typed(b, script))


def check_match(ln, sub, m, out):
    i = ln.find("Properties: ")
    head = ln if i < 0 else ln[:i]
    head = head[head.index("Subscription"):]
    toks = re.split("[:;, ]+", head.strip().rstrip(";"))
    want = ["%x" % sub, m["match_type"], "%x" % m["service_id"]]
    if "generation" in m:
        want.append(str(m["generation"]))
    if "ttl" in m:
        want.append(str(m["ttl"]))
    if "orphan_since" in m:
        want.append("%.1f" % (m["ttl"] - m["orphan_since"]))
    if "client_id" in m:
        want.append("0x%x" % m["client_id"])
    # the values, in this order, among the labels
    pos = 0
    for w in want:
        try:
            pos = toks.index(w, pos) + 1
        except ValueError:
            bad("notification", "%r shown as %r" % (m, ln), out)
    labels = {"Generation": "generation", "TTL": "ttl",
              "Orphan": "orphan_since", "Client": "client_id"}
    for k, f in labels.items():
        if (k in toks) != (f in m):
            bad("notification", "%r shown as %r" % (m, ln), out)
    if ("service_props" in m) != (i >= 0):
        bad("notification", "%r shown as %r" % (m, ln), out)
    if i >= 0:
        check_props("notification", ln[i + 12:].strip(), m["service_props"],
                    out)


def tracking(b, item):
    ver, seq = item

    def script(s, server):
        up = 0
        ta = None
        loud = False
        for op in seq:
            if op == "fail":
                server.next = [dict(msg_type="fail",
                                    fail_reason="track-exists")]
                op = "track"
                if up or ver == 2:
                    server.next = None
                    failing = False
                else:
                    failing = True
            else:
                failing = False
            if op in ("asked", "reply"):
                if not up:
                    continue
                s.send(ta_cmd="track", ta_id=ta, msg_type="notify",
                       track_type="query" if op == "asked" else "reply")
                m1, o1 = yield ""
                m2, o2 = yield ""
                msgs = m1 + m2
                if op == "asked" and loud != bool((o1 + o2).strip()):
                    bad(str(seq), "logging is %s" % (
                        "on" if loud else "off"), o1 + o2)
                if op == "asked":
                    if [(m["ta-cmd"], m["ta-id"], m["msg-type"],
                         m["track-type"]) for m in msgs] != [
                             ("track", ta, "inform", "reply")]:
                        bad(str(seq), "%r is sent upon a query" % msgs)
                elif msgs:
                    bad(str(seq), "%r is sent upon a reply" % msgs)
                continue
            msgs, out = yield op
            if ver == 2 and op == "track":
                # not available
                if msgs or is_ok(out) or not out.strip():
                    bad(op, "with version 2, %r is sent" % msgs, out)
            elif op == "track" and not up:
                if [m["ta-cmd"] for m in msgs] != ["track"]:
                    bad(op, "%r: %r is sent" % (seq, msgs), out)
                if failing == is_ok(out) or \
                   failing and "track-exists" not in out:
                    bad(op, "outcome", out)
                if not failing:
                    up, ta = 1, msgs[0]["ta-id"]
            elif op == "track":
                if msgs or is_ok(out) or not out.strip():
                    bad(op, "%r: %r is sent" % (seq, msgs), out)
            elif op == "track query":
                if up:
                    if [(m["ta-cmd"], m["ta-id"], m["msg-type"],
                         m["track-type"]) for m in msgs] != [
                             ("track", ta, "inform", "query")] or \
                       not is_ok(out):
                        bad(op, "%r: %r is sent" % (seq, msgs), out)
                elif msgs or is_ok(out) or not out.strip():
                    bad(op, "%r: %r is sent" % (seq, msgs), out)
            elif op in ("track verbose", "track quiet"):
                if is_ok(out) != bool(up) or msgs:
                    bad(op, "%r: %r is sent" % (seq, msgs), out)
                loud = op == "track verbose" and bool(up)
    expect_normal(typed(b, script, ver), "%r: " % (seq,))


# ------------------------------------------------------- the command line

def options(b, item):
    args, dom = item
    d = os.path.join(vworld._tmp, "c29.%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    with open(d + "/dom", "w") as f:
        f.write("".join(a + "\n" for a in dom))
    os.environ["PAF_DOMAINS"] = d
    o = dict(zip(args[::2], args[1::2]))
    idx = int(o.get("-n", 0))
    for target in ("dom", "ux:direct"):
        want = None
        if target == "dom" and dom:
            if idx < len(dom):
                want = dom[idx]
        elif "-n" not in o:
            want = target
        if "-p" in o and o["-p"] not in ("2", "3"):
            want = None

        def script(s, server):
            lo, hi = 2, 3
            if "-p" in o:
                lo = hi = int(o["-p"])
            h = s.hello
            if (h["protocol-minimum-version"],
                    h["protocol-maximum-version"]) != (lo, hi):
                bad(args, "offers %r" % h)
            if "-i" in o and h["client-id"] != int(o["-i"], 16):
                bad(args, "uses client id %x" % h["client-id"])
            got = yield "id"
            if "%x" % h["client-id"] not in got[1]:
                bad(args, "another id is shown", got[1])
            got = yield "version"
            got = yield "hello"
            if len(got[0]) != 1 or got[0][0]["client-id"] != \
               h["client-id"] or not is_ok(got[1]):
                bad(args, "hello sends %r" % got[0], got[1])
        ver = 2 if o.get("-p") == "2" else 3
        s = typed(b, script, ver, list(args) + [target],
                  addr=want or "ux:nowhere")
        b.n += 1
        b.states += 1
        if want is None:
            if s.hello is not None or s.code in (0, None) or \
               not s.rest.strip() and not s.how.startswith("exit"):
                bad(args, "%s: ends with %r" % (target, s.code), s.rest)
        else:
            expect_normal(s, "%r %s: " % (args, target))
            if s.hello is None:
                bad(args, "does not connect to %s" % want)
    # listings
    s = typed(b, lambda s, v: iter(()), 3, ["-a", "dom"])
    if s.code != 0 or s.rest.split() != dom:
        bad("-a", "%r lists" % dom, s.rest)
    s = typed(b, lambda s, v: iter(()), 3, ["-l"])
    if s.code != 0 or s.rest.split() != ["dom"]:
        bad("-l", "lists", s.rest)
    for a in ([], ["-x", "dom"], ["dom", "dom"], ["-n"]):
        s = typed(b, lambda s, v: iter(()), 3, a)
        if s.code in (0, None) or s.hello is not None or \
           not s.rest.strip():
            bad(a, "ends with %r" % s.code, s.rest)


def run(check):
    t = check.thorough
    lines = publish_lines(t)
    size = 400
    batches(check, "publish", publishes,
            [lines[i:i + size] for i in range(0, len(lines), size)])
    n = len(simple_lines())
    batches(check, "simple", simple, [(i, 3) for i in range(n)])
    if t:
        batches(check, "simple-v2", simple, [(i, 2) for i in range(n)])
    batches(check, "failures", failures, [
        (a, c, v) for a in ONES for c in ONES for v in (2, 3)
        if not (v == 2 and c == "track")])
    batches(check, "losses", losses, [
        (a, x) for a in ONES for x in (
            "close", b"{", b"[]", b"", json.dumps({
                "ta-cmd": "ping", "ta-id": 77,
                "msg-type": "complete"}).encode())])
    batches(check, "services", service_rows,
            [[[]]] + [[[x] for x in SVCS[i::4]] for i in range(4)] +
            [[list(p) for p in itertools.product(SVCS[i::9], repeat=2)]
             for i in range(9)])
    batches(check, "listings", other_rows, [2, 3])
    batches(check, "notifications", matches, range(8))
    ops = ["track", "fail", "track query", "asked", "reply", "track verbose",
           "track quiet"]
    batches(check, "tracking", tracking,
            [(v, s) for v in (2, 3) for n in range(1, 6 if t else 5)
             for s in itertools.product(ops, repeat=n)])
    opts = []
    for i in ([], ["-i", "0"], ["-i", "7fffffffffffffff"], ["-i", "aB"]):
        for p in ([], ["-p", "2"], ["-p", "3"], ["-p", "4"], ["-p", "1"]):
            for k in ([], ["-n", "0"], ["-n", "1"], ["-n", "2"]):
                for order in {tuple(i + p + k), tuple(k + p + i)}:
                    for dom in ([], ["ux:one"], ["ux:one", "tls:x:2"]):
                        opts.append((order, dom))
    batches(check, "options", options, opts)
