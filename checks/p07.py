"""P07: hostile input."""
import itertools
import json

import model as M
import refproto
from world import World, PROPS_

ATT = 1     # the attacker
ATT_CID = 11

BAD_VALUES = [None, True, False, -1, 0, 1.5, 1e300, "", "x", [], {}, [1],
              {"a": 1}, {"a": [1.5]}, {"a": [None]}, {"a": [[]]},
              {"a": [True]}, {"a": {}}, 1 << 63, 10 ** 30, "\ud800",
              {"a": ["\ud800"]}, {"\ud800": ["x"]}, "(k=\ud800)",
              "((((", "(&", "request", "ping"]
RAW_VALUES = ["NaN", "Infinity", "-Infinity", "1e999", "1" * 5000,
              "[" * 1500 + "]" * 1500, '{"a":' * 1500 + "1" + "}" * 1500,
              '"' + "(!" * 1500 + "(a=b)" + ")" * 1500 + '"',
              '"' + "(&" * 1500 + '"', '"' + "(" * 30000 + '"',
              '"(a=' + "x" * 60000 + ')"', '"(a=*' + "a*" * 20000 + ')"',
              "-0", "1.0", "0e0", '"\\u0000"', '"(a>' + "9" * 5000 + ')"']

BASES = [
    {'ta-cmd': 'hello', 'msg-type': 'request', 'client-id': ATT_CID,
     'protocol-minimum-version': 2, 'protocol-maximum-version': 3},
    {'ta-cmd': 'publish', 'msg-type': 'request', 'service-id': 1,
     'generation': 7, 'service-props': PROPS_[0], 'ttl': 3},
    {'ta-cmd': 'unpublish', 'msg-type': 'request', 'service-id': 1},
    {'ta-cmd': 'subscribe', 'msg-type': 'request', 'subscription-id': 1,
     'filter': "(k=x)"},
    {'ta-cmd': 'unsubscribe', 'msg-type': 'request', 'subscription-id': 1},
    {'ta-cmd': 'subscriptions', 'msg-type': 'request'},
    {'ta-cmd': 'services', 'msg-type': 'request', 'filter': "(k=x)"},
    {'ta-cmd': 'ping', 'msg-type': 'request'},
    {'ta-cmd': 'clients', 'msg-type': 'request'},
    {'ta-cmd': 'track', 'msg-type': 'request'},
    {'ta-cmd': 'track', 'msg-type': 'inform', 'track-type': 'query'},
    {'ta-cmd': 'track', 'msg-type': 'inform', 'track-type': 'reply'},
]

GARBAGE = ["", " ", "{", "}", "[]", "1", "null", '"x"', "{}", "true",
           "\xff\xfe", "\xef\xbb\xbf{}", "{]", "NaN", "{'a': 1}",
           "[" * 2000, "[" * 60000, '{"a":' * 10000, "\x00", "\x00" * 60000,
           '{"ta-cmd": "ping"', '{"ta-cmd": "ping", "ta-id": 1}',
           '{"ta-cmd": "ping", "ta-id": 1, "msg-type": "request"}x',
           '{"ta-cmd": "ping", "ta-id": 1, "msg-type": "request",}',
           '{"ta-cmd": "ping", "msg-type": "request", "ta-id": 1' + "0" * 6000
           + '}']


def texts():
    """All hostile messages, as text; %TA% stands for a transaction id."""
    out = []

    def put(m, raw=None):
        t = json.dumps(m)
        for k, v in (raw or {}).items():
            t = t.replace(json.dumps(k), v)
        out.append(t)
    for b in BASES:
        base = dict(b)
        base['ta-id'] = "%TA%"
        put(base)
        for f in list(base):
            m = dict(base)
            del m[f]
            put(m)
            for v in BAD_VALUES:
                m = dict(base)
                m[f] = v
                put(m)
            for v in RAW_VALUES:
                m = dict(base)
                m[f] = "%RAW%"
                put(m, {"%RAW%": v})
        for f in ("x", "", "filter", "ttl", "fail-reason", "ta_id"):
            if f not in base:
                m = dict(base)
                m[f] = 1
                put(m)
        for t in ('request', 'accept', 'notify', 'inform', 'complete',
                  'fail', 'REQUEST'):
            m = dict(base)
            m['msg-type'] = t
            put(m)
            put({'ta-cmd': base['ta-cmd'], 'ta-id': "%TA%", 'msg-type': t})
        for props in ({"k": [1] * 3}, {"": [""]}, {"k" * 60: ["x"]},
                      {"\u00e5": ["\u00e4"]}, {"k": []}):
            if 'service-props' in base:
                m = dict(base)
                m['service-props'] = props
                put(m)
    seen = set()
    return [t for t in out + GARBAGE if not (t in seen or seen.add(t))]


TEXTS = texts()

STAGES = {
    "fresh": [["connect", ATT, 0, 0, "A"]],
    "refused": [["connect", ATT, 0, 0, "A"], ["hello", ATT, ATT_CID, 7, 9]],
    "v2": [["login", ATT, 0, 0, "A", ATT_CID, 2]],
    "v3": [["login", ATT, 0, 0, "A", ATT_CID, 3]],
    "busy-v2": [["login", ATT, 0, 0, "A", ATT_CID, 2],
                ["pub", ATT, 1, 1, 0, 3], ["sub", ATT, 1, 0]],
    "busy-v3": [["login", ATT, 0, 0, "A", ATT_CID, 3],
                ["pub", ATT, 1, 1, 0, 3], ["track", ATT],
                ["sub", ATT, 1, 0]],
    "unsubscribed": [["login", ATT, 0, 0, "A", ATT_CID, 3],
                     ["sub", ATT, 1, 0], ["unsub", ATT, 1], ["track", ATT],
                     ["tq", ATT]],
}


class Hostile(World):
    """Messages to and drops of the attacker are not judged, nor is what is
    listed on its behalf; everything else is."""
    watch = frozenset({'svc', 'list', 'resp', 'acc', 'res', 'hs', 'sub',
                       'subs', 'clients', 'track', 'stream', 'orphan', 'ta',
                       'unsolicited', 'format', 'drop', 'nodrop', 'idle',
                       'filter', 'ping', 'listen', 'admission'})
    setup = (["login", 2, 0, 0, "B", 12, 3], ["pub", 2, 2, 1, 0, 5],
             ["sub", 2, 2, 0], ["login", 3, 0, 0, "A", 13, 2],
             ["pub", 3, 3, 1, 1, 5])

    def start(self, ep):
        self.pokes = 0
        return World.start(self, ep)

    def stay_reason(self, m, x, now):
        if x.label == ATT:
            return None
        return World.stay_reason(self, m, x, now)

    def drop_reason(self, m, x, t, msgs=()):
        if x.label == ATT:
            return None
        return World.drop_reason(self, m, x, t, msgs)

    def compare(self, m, c, msgs, exp, ver, gone):
        if c == ATT:
            return
        World.compare(self, m, c, msgs, exp, ver, gone)

    def match_bag(self, c, ta, ph, msgs, i):
        _, cmd, items = ph
        mine = [it for it in items if self.owner(cmd, it) == ATT_CID]
        msgs2 = [x for x in msgs[i:] if not (
            x['msg-type'] == 'notify' and x['ta-cmd'] == cmd and
            x.get('client-id') == ATT_CID)]
        n = len(msgs) - i - len(msgs2)
        j = World.match_bag(self, c, ta, ('bag', cmd, [
            it for it in items if it not in mine]), msgs2, 0)
        # what is left in msgs2 after j must be the tail of msgs
        tail = msgs2[j:]
        msgs[i:] = tail
        return i

    def owner(self, cmd, it):
        return it[1] if cmd == 'subscriptions' else it.cid

    def match_svc(self, c, ta, want, msgs, i):
        """Notifications about the attacker's services are not judged."""
        own = {1}
        want = {k: v for k, v in want.items() if k not in own}
        msgs[i:] = [x for x in msgs[i:] if not (
            x['msg-type'] == 'notify' and x['ta-cmd'] == 'subscribe' and
            x.get('service-id') in own)]
        return World.match_svc(self, c, ta, want, msgs, i)

    def match(self, c, ta, phases, msgs):
        if not any(p[0] == 'svc' for p in phases):
            msgs = [x for x in msgs if not (
                x['msg-type'] == 'notify' and x['ta-cmd'] == 'subscribe' and
                x.get('service-id') == 1)]
        World.match(self, c, ta, phases, list(msgs))

    def do(self, ep, a):
        if a[0] == "text":
            yield from self.do_text(ep, TEXTS[a[1]], a[2])
            return
        yield from World.do(self, ep, a)

    def do_text(self, ep, text, tamode):
        x = self.m.conns.get(ATT)
        if x is None:
            return
        ta = self.free_ta(ATT)
        if tamode and x.tas:
            ta = sorted(x.tas)[tamode - 1 if tamode <= len(x.tas) else 0]
        data = text.replace('"%TA%"', str(ta)).encode('latin-1') \
            if not self.unicode(text) else \
            text.replace('"%TA%"', str(ta)).encode('utf-8')
        if len(data) == 0 or len(data) > 65535:
            return
        self.peers[ATT].send_raw(data)
        m = refproto.decode(data)
        if m is None or refproto.check(m, x.ver or 2) is not None or \
                m['msg-type'] not in ('request', 'inform'):
            self.note("malformed")
            self.m.exp.may_drop.add(ATT)
        else:
            self.note("well-formed")
            self.m.message(ATT, m, ep.now)
        self.m.exp.may_drop |= self.m.exp.must_drop
        self.m.exp.must_drop.clear()
        yield
        self.settle()

    def unicode(self, text):
        try:
            text.encode('latin-1')
            return False
        except UnicodeEncodeError:
            return True

    def finish(self, ep):
        # the bystanders go on as if nothing had happened
        yield from self.do(ep, ["ping", 2])
        yield from self.do(ep, ["pub", 2, 2, 2, 1, 5])
        yield from self.do(ep, ["sub", 3, 9, 1])
        yield from self.probe(ep)
        if ATT in self.m.conns:
            yield from self.do(ep, ["close", ATT])
        yield from self.probe(ep)
        yield from self.do(ep, ["login", 5, 0, 0, "A", 15, 3])
        yield from self.do(ep, ["wait", 3.2])
        yield from self.probe(ep)


class Large(Hostile):
    """Well-formed messages up to what the transport takes: what the server
    passes on of them must not be the end of others' connections."""
    setup = Hostile.setup + (["login", 4, 0, 0, "B", 14, 2],
                             ["login", ATT, 0, 0, "A", ATT_CID, 3])

    def do(self, ep, a):
        if a[0] == "large":
            _, kind, size = a
            x = self.m.conns.get(ATT)
            if x is None:
                return
            m = {'ta-cmd': 'publish', 'ta-id': self.free_ta(ATT),
                 'msg-type': 'request', 'service-id': 1, 'generation': 1,
                 'service-props': {}, 'ttl': 3}
            c = "\u00e9" if kind == "accented" else "x"

            def fill(n):
                if kind == "key":
                    m['service-props'] = {c * n: ["v"]}
                elif kind == "values":
                    m['service-props'] = {"k": list(range(n))}
                elif kind == "filter":
                    m['filter'] = "(k=%s)" % (c * n)
                else:
                    m['service-props'] = {"k": [c * n]}
                return json.dumps(m, ensure_ascii=False,
                                  separators=(",", ":")).encode('utf-8')
            if kind == "filter":
                for k in ('service-id', 'generation', 'service-props',
                          'ttl'):
                    del m[k]
                m['ta-cmd'] = 'subscribe'
                m['subscription-id'] = 1
            lo, hi = 1, size
            while hi - lo > 1:          # the longest that fits
                mid = (lo + hi) // 2
                if len(fill(mid)) <= size:
                    lo = mid
                else:
                    hi = mid
            self.peers[ATT].send_raw(fill(lo))
            self.m.message(ATT, m, ep.now)
            self.m.exp.may_drop |= {ATT}
            yield
            self.settle()
            return
        yield from Hostile.do(self, ep, a)

    def finish(self, ep):
        yield from self.do(ep, ["sub", 4, 4, 0])
        for c in (2, 4):
            yield from self.do(ep, ["svcs", c, 0])
            yield from self.do(ep, ["subscriptions", c])
        yield from Hostile.finish(self, ep)


def run(check):
    t = check.thorough
    check.cases("large", Large, [
        [["large", kind, size]]
        for kind in ("value", "values", "key", "accented", "filter")
        for size in (1000, 20000, 64000, 65535)
        if (kind, size) not in (("values", 64000),)])
    n = range(len(TEXTS))
    for stage, path in STAGES.items():
        modes = (0, 1, 2) if stage.startswith("busy") else \
            (0, 1) if stage == "unsubscribed" else (0,)
        check.cases(stage, Hostile,
                    [path + [["text", i, k]] for i in n for k in modes])
    # pairs: a malformed message may be survived; what follows must be, too
    step = 1 if t else 37
    for stage in ("fresh", "v3"):
        first = [i for i in n if i % (7 if t else 53) == 0]
        check.cases("pairs-" + stage, Hostile,
                    [STAGES[stage] + [["text", i, 0], ["text", j, 0]]
                     for i in first for j in n if (i + j) % step == 0])
