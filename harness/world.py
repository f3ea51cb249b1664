"""Scenarios driving the real server and comparing it with the model."""
import json
import os
import sys

import model as M
import reffilter
import vworld
from explore import Scenario
from vworld import Violation, Prune, T0



class Msg(dict):
    """A received message and the moment it arrived."""
    t = None


MAND = {'ta-cmd', 'ta-id', 'msg-type'}
INT, NUM, STR, PROPS = 'int', 'num', 'str', 'props'

# documented fields of server messages:  (cmd, type) -> (required, optional)
FIELDS = {
    ('hello', 'complete'): ({'protocol-version': INT}, {}),
    ('track', 'accept'): ({}, {}),
    ('track', 'notify'): ({'track-type': STR}, {}),
    ('subscribe', 'accept'): ({}, {}),
    ('subscribe', 'notify'): (
        {'match-type': STR, 'service-id': INT},
        {'generation': INT, 'service-props': PROPS, 'ttl': INT,
         'client-id': INT, 'orphan-since': NUM}),
    ('subscribe', 'complete'): ({}, {}),
    ('unsubscribe', 'complete'): ({}, {}),
    ('subscriptions', 'accept'): ({}, {}),
    ('subscriptions', 'notify'): ({'subscription-id': INT, 'client-id': INT},
                                  {'filter': STR}),
    ('subscriptions', 'complete'): ({}, {}),
    ('services', 'accept'): ({}, {}),
    ('services', 'notify'): (
        {'service-id': INT, 'generation': INT, 'service-props': PROPS,
         'ttl': INT, 'client-id': INT}, {'orphan-since': NUM}),
    ('services', 'complete'): ({}, {}),
    ('publish', 'complete'): ({}, {}),
    ('unpublish', 'complete'): ({}, {}),
    ('ping', 'complete'): ({}, {}),
    ('clients', 'accept'): ({}, {}),
    ('clients', 'complete'): ({}, {}),
}
CLIENTS = {2: ({'client-id': INT, 'client-address': STR, 'time': INT}, {}),
           3: ({'client-id': INT, 'client-address': STR, 'time': INT,
                'idle': NUM, 'protocol-version': INT}, {'latency': NUM})}


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def type_ok(kind, v):
    if kind == INT:
        return is_int(v) and 0 <= v < (1 << 63)
    if kind == NUM:
        return (is_int(v) or isinstance(v, float)) and v >= 0
    if kind == STR:
        return isinstance(v, str)
    if not isinstance(v, dict):
        return False
    for vs in v.values():
        if not isinstance(vs, list):
            return False
        for x in vs:
            if not (is_int(x) or isinstance(x, str)):
                return False
    return True


def format_error(m, ver):
    """None, or why a server message does not follow the documentation."""
    for f in MAND:
        if f not in m:
            return "lacks %s" % f
    cmd, t = m['ta-cmd'], m['msg-type']
    if not is_int(m['ta-id']) or not isinstance(cmd, str) or \
       not isinstance(t, str):
        return "has an ill-typed mandatory field"
    if cmd == 'track' and ver != 3:
        return "is a track message outside protocol version 3"
    if t == 'fail':
        req, opt = {}, {'fail-reason': STR}
    elif (cmd, t) == ('clients', 'notify'):
        req, opt = CLIENTS[ver]
    elif (cmd, t) in FIELDS:
        req, opt = FIELDS[cmd, t]
        if (cmd, t) == ('subscribe', 'notify'):
            if m.get('match-type') == 'disappeared':
                opt = {}
            elif m.get('match-type') in ('appeared', 'modified'):
                req = dict(req)
                req.update({k: v for k, v in opt.items()
                            if k != 'orphan-since'})
                opt = {'orphan-since': NUM}
            else:
                return "has an undocumented match type"
    else:
        return "is of an undocumented kind"
    for k, kind in req.items():
        if k not in m:
            return "lacks %s" % k
        if not type_ok(kind, m[k]):
            return "has an ill-typed %s" % k
    for k in m:
        if k in MAND or k in req:
            continue
        if k not in opt:
            return "has the undocumented field %s" % k
        if not type_ok(opt[k], m[k]):
            return "has an ill-typed %s" % k
    return None


def svc_equal(m, s):
    """Does a notification describe this service version?
    Returns None, 'orphan' or 'content'."""
    if m.get('service-id') != s.sid or m.get('generation') != s.gen or \
       m.get('ttl') != s.ttl or m.get('client-id') != s.cid or \
       M.norm_props(m.get('service-props', {})) != s.props or \
       [k for k, v in m.get('service-props', {}).items()
           if len(v) != len(set(v))]:
        return 'content'
    o = m.get('orphan-since')
    if (o is None) != (s.orphan is None):
        return 'orphan'
    if o is not None and abs(o - s.orphan) > 0.01:
        return 'orphan'
    return None


FILTERS = [None, "(k=x)", "(!(k=x))", "(&(k=*)(n>1))", "(k=x*y)", "(k=x",
           ""]
PROPS_ = [{"k": ["x"]}, {"k": ["y"], "n": [2]}, {}, {"k": ["x", 1], "n": [1]},
          {"": [""], "k": [0, "0", ""]},
          {"k": [-(1 << 63), (1 << 63) - 1, "\u2603"], "(": ["\0", "\ud800"]},
          {"k": [], "n": [1, 1]}, {"n": [1]}]

# users: label -> (remote address without port, ski)
USERS = {"L": ("ux:", None), "A": ("tcp:10.0.0.1:", None),
         "B": ("tcp:10.0.0.2:", None),
         "T": ("tls:10.0.0.1:", b"\x01\x02"),
         "U": ("tls:10.0.0.1:", b"\x01\x03"),
         "O": ("tcp:9.9.9.9:", None)}
USERID = {"L": "default", "A": "10.0.0.1", "B": "10.0.0.2", "T": "ski0102",
          "U": "ski0103", "O": "9.9.9.9"}
OBS = 900       # observer label base
OBS_CID = 9000


class World(Scenario):
    """Actions are lists; see do_one. Override alphabet()."""
    watch = frozenset()
    doms = (dict(name="d0", addrs=("ux:d0",)),)
    user_limits = {}
    total_limits = {}
    observers = True
    observer_user = "O"
    setup = ()              # actions performed before exploration
    settle_extra = 0.0
    expiry_slack = 0.05

    @property
    def conf(self):
        lines = ["domains:"]
        for d in self.doms:
            lines.append("- name: %s" % d["name"])
            lines.append("  addrs: [ %s ]" % ", ".join(
                '"%s"' % a for a in d["addrs"]))
            lo, hi = d.get("idle", (4, 1000))
            lines.append("  idle: { min: %d, max: %d }" % (lo, hi))
            if "vers" in d:
                lines.append("  protocol_version: { min: %d, max: %d }" %
                             d["vers"])
        if self.user_limits or self.total_limits:
            lines.append("resources:")
            for n, lim in (("user", self.user_limits),
                           ("total", self.total_limits)):
                if lim:
                    lines.append("  %s: { %s }" % (n, ", ".join(
                        "%s: %d" % kv for kv in sorted(lim.items()))))
        lines.append("log: { syslog: false }")
        return "\n".join(lines) + "\n"

    # ------------------------------------------------------ plumbing

    def mismatch(self, tags, msg):
        tags = {tags} if isinstance(tags, str) else set(tags)
        if tags & self.watch:
            raise Violation(msg, sig="+".join(sorted(tags)))
        self.note("unwatched:" + "+".join(sorted(tags)))
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write("unwatched %s: %s\n  %r\n" % (
                sorted(tags), msg, self.trail))
        raise Prune()

    def start(self, ep):
        self.ep = ep
        self.m = M.Model([M.Dom(d["name"],
                                (self.user_limits, self.total_limits),
                                d.get("idle", (4, 1000)),
                                d.get("vers", (2, 3))) for d in self.doms])
        self.peers = {}
        self.drops = {}         # label -> time the drop was seen
        self.inbox = {}
        self.trail = []
        self.steps = 0
        ep.on_wait = self.on_wait
        yield
        if self.observers:
            for i in range(len(self.doms)):
                yield from self.do(ep, ["login", OBS + i, i, 0,
                                        self.observer_user, OBS_CID,
                                        self.doms[i].get("vers", (2, 3))[0]])
        for a in self.setup:
            yield from self.do(ep, a)

    def on_wait(self):
        self.collect()
        for k, p in self.peers.items():
            if k not in self.drops and not p.closed and p.dropped():
                self.drops[k] = self.ep.now

    def collect(self):
        now = self.ep.now
        for k, p in self.peers.items():
            if not p.closed and p.pending():
                box = self.inbox.setdefault(k, [])
                for m in p.recv():
                    m = Msg(m)
                    m.t = now
                    box.append(m)

    def actions(self):
        return self.alphabet()

    def alphabet(self):
        return []

    def model_key(self):
        return self.m.key(self.ep.now)

    def free_ta(self, c):
        tas = self.m.conns[c].tas
        i = 0
        while i in tas:
            i += 1
        return i

    # ------------------------------------------------------- actions

    def do(self, ep, a):
        self.trail.append(a)
        if a[0] == "par":
            yield from self.do_par(ep, a)
            return
        if a[0] == "seq":
            for b in a[1:]:
                yield from self.do(ep, b)
            return
        if a[0] == "login":
            _, c, d, ai, user, cid, ver = a
            self.inject(["connect", c, d, ai, user])
            yield
            self.inject(["hello", c, cid, ver, ver])
            yield
            self.settle()
            return
        if a[0] == "wait":
            yield a[1]
            for i in range(20):
                # stay clear of moments at which something is about to happen
                if ep.cur_deadline is None or \
                   ep.cur_deadline - ep.now > 0.02:
                    break
                yield 0.021
            self.settle()
            return
        self.inject(a)
        yield
        self.settle()

    def remote(self, user, c):
        base, ski = USERS[user]
        if base == "ux:":
            return base, ski
        return base + str(2000 + c), ski

    def inject(self, a, model=True):
        """Perform an action on the world and (unless par) on the model."""
        if a[0] not in ("connect", "login") and a[1] not in self.m.conns:
            # a fixed case which has come to an early end
            raise Prune()
        ev = self.event(a)
        self.perform(ev)
        if model:
            self.predict(self.m, ev)

    def event(self, a):
        """Turn an action into a concrete event (kind, ...)."""
        op = a[0]
        if op == "connect":
            _, c, d, ai, user = a
            remote, ski = self.remote(user, c)
            return ("connect", c, d, ai, user, remote, ski)
        if op in ("close", "reset"):
            return (op, a[1])
        if op == "raw":
            return ("raw", a[1], a[2])
        return ("msg", a[1], self.build(a))

    def build(self, a):
        op, c = a[0], a[1]

        def req(cmd, **kw):
            m = {'ta-cmd': cmd, 'ta-id': self.free_ta(c),
                 'msg-type': 'request'}
            m.update((k.replace('_', '-'), v) for k, v in kw.items()
                     if v is not None)
            return m
        if op == "hello":
            return req('hello', client_id=a[2], protocol_minimum_version=a[3],
                       protocol_maximum_version=a[4])
        if op == "pub":
            return req('publish', service_id=a[2], generation=a[3],
                       service_props=PROPS_[a[4]], ttl=a[5])
        if op == "unpub":
            return req('unpublish', service_id=a[2])
        if op == "sub":
            return req('subscribe', subscription_id=a[2],
                       filter=FILTERS[a[3]])
        if op == "unsub":
            return req('unsubscribe', subscription_id=a[2])
        if op == "svcs":
            return req('services', filter=FILTERS[a[2]])
        if op in ("subscriptions", "clients", "ping", "track"):
            return req(op)
        if op in ("tq", "tr"):
            m = {'ta-cmd': 'track', 'msg-type': 'inform',
                 'ta-id': self.m.conns[c].track,
                 'track-type': 'query' if op == "tq" else 'reply'}
            if m['ta-id'] is None:
                m['ta-id'] = 77
            return m
        if op == "msg":
            return a[2]
        raise ValueError(op)

    def perform(self, ev):
        k = ev[0]
        if k == "connect":
            _, c, d, ai, user, remote, ski = ev
            p = self.ep.connect(self.doms[d]["addrs"][ai], remote, ski, tag=c)
            if p is None:
                self.mismatch("listen", "nobody listens at %s" %
                              self.doms[d]["addrs"][ai])
            self.peers[c] = p
            self.drops.pop(c, None)
        elif k == "close":
            self.peers[ev[1]].close()
        elif k == "reset":
            self.peers[ev[1]].reset()
        elif k == "raw":
            self.peers[ev[1]].send_raw(ev[2].encode('latin-1'))
        else:
            self.peers[ev[1]].send_raw(json.dumps(ev[2]).encode())

    def predict(self, m, ev):
        k = ev[0]
        now = self.ep.now
        if k == "connect":
            m.connect(ev[1], ev[2], USERID[ev[4]], ev[5], now)
        elif k in ("close", "reset"):
            if ev[1] in m.conns:
                m.disconnect(ev[1], now)
        elif k == "raw":
            if ev[1] in m.conns:
                m.exp.must_drop.add(ev[1])
        elif ev[1] in m.conns and ev[1] not in m.exp.must_drop:
            m.message(ev[1], ev[2], now)

    def do_par(self, ep, a):
        """Several clients act at the same moment; any serial order of the
        events (respecting each client's own) must explain the outcome."""
        evs = [self.event(x) for x in a[2]]
        order = a[1]
        for ev in evs:
            self.perform(ev)
        if order:
            ep.order = lambda r: list(reversed(r))
        yield
        ep.order = None
        import itertools
        obs = self.observe()
        errs = []
        good = {}
        for perm in itertools.permutations(range(len(evs))):
            if any(evs[x][1] == evs[y][1] and x > y
                   for i, x in enumerate(perm) for y in perm[i + 1:]):
                continue
            m = self.m.clone()
            for i in perm:
                self.predict(m, evs[i])
            err = self.judge(m, obs)
            if err is None:
                good.setdefault(repr(m.key(self.ep.now)), m)
            else:
                errs.append(err)
        if not good:
            self.mismatch(errs[0][0], "no serial order explains the "
                          "outcome: " + "; ".join(e[1] for e in errs))
        cands = list(good.values())
        for cmd in ("services", "subscriptions", "clients"):
            # orders that cannot be told apart so far
            if len(cands) == 1 or not self.observers:
                break
            evs = [("msg", OBS + i, {'ta-cmd': cmd, 'msg-type': 'request',
                                     'ta-id': self.free_ta(OBS + i)})
                   for i in range(len(self.doms))]
            for ev in evs:
                self.perform(ev)
            yield
            obs = self.observe()
            left, errs = [], []
            for m in cands:
                for ev in evs:
                    self.predict(m, ev)
                err = self.judge(m, obs)
                if err is None:
                    left.append(m)
                else:
                    errs.append(err)
            if not left:
                self.mismatch(errs[0][0], "no serial order explains the "
                              "outcome: " + "; ".join(e[1] for e in errs))
            cands = left
        self.m = cands[0]

    # ------------------------------------------------------ judgement

    def observe(self):
        self.collect()
        out = {}
        for c, p in self.peers.items():
            box = self.inbox.pop(c, [])
            if c in self.m.conns and not p.closed:
                out[c] = (box, self.drops.get(c))
        return out

    def settle(self):
        err = self.judge(self.m, self.observe())
        if err is not None:
            self.mismatch(*err)

    def judge(self, m, obs):
        """Compare everything observed since last time with the model;
        updates the model. Returns None or (tags, text)."""
        now = self.ep.now
        try:
            self.judge_drops(m, obs, now)
            e = m.take()
            for c in sorted(obs, key=str):
                msgs, dropped = obs[c]
                ver = self.ver_of(m, c)
                exp = e.out.get(c, {})
                self.compare(m, c, msgs, exp, ver, c not in m.conns)
            for c in e.out:
                if c not in obs and c in m.conns:
                    raise Mismatch({'ta'}, "model error: %r" % c)
        except Mismatch as x:
            return x.tags, x.text
        return None

    def ver_of(self, m, c):
        x = m.conns.get(c)
        if x is None:
            x = self.gone.get(c)
        return x.ver if x is not None else None

    def judge_drops(self, m, obs, now):
        """Disconnections, expiries and idle drops in order of time."""
        self.gone = {}
        drops = sorted((t, str(c), c) for c, (_, t) in obs.items()
                       if t is not None and c in m.conns)
        for t, _, c in drops:
            x = m.conns[c]
            m.expire_until(t)
            self.gone[c] = x
            if c in m.exp.must_drop:
                m.exp.must_drop.discard(c)
            elif c in m.exp.may_drop:
                pass
            else:
                why = self.drop_reason(m, x, t, obs[c][0])
                if why is not None:
                    raise Mismatch(why[0], why[1])
            keep = m.exp.out.pop(c, None)
            m.disconnect(c, t)
            if keep:
                pass        # what it was owed is lost with the connection
        for c in m.exp.must_drop:
            if c in m.conns:
                raise Mismatch({'nodrop'}, "client %s violated the protocol "
                               "(or the version rules) but stays connected" %
                               c)
        m.exp.must_drop.clear()
        m.exp.may_drop.clear()
        for c, x in m.conns.items():
            why = self.stay_reason(m, x, now)
            if why is not None:
                raise Mismatch(*why)
        m.expire_until(now)

    def drop_reason(self, m, x, t, msgs=()):
        """Is dropping connection x at t legitimate? None if so."""
        c = x.label
        if not x.hs:
            if t - x.t_accept < 2.0 - 1e-6:
                return {'drop', 'admission'}, \
                    "connection %s dropped %.2f s after being accepted, " \
                    "before the handshake deadline" % (c, t - x.t_accept)
            return None
        if x.ver == 3:
            a, b = m.idle_window(x)
            if t >= a - 1e-6:
                if x.track is not None and x.query_at is None and not any(
                        y.get('ta-id') == x.track and
                        y.get('track-type') == 'query' for y in msgs):
                    return {'drop', 'idle', 'track'}, \
                        "tracked client %s dropped without being queried" % c
                return None
            return {'drop', 'idle'}, \
                "v3 client %s dropped after %.2f s of silence (max idle " \
                "time %s)" % (c, t - x.last_seen, x.m_range)
        return {'drop', 'idle'}, "client %s dropped for no reason" % c

    def stay_reason(self, m, x, now):
        c = x.label
        if not x.hs and not x.exempt and now > x.t_accept + 4.2:
            return {'nodrop', 'admission'}, \
                "connection %s without a handshake still alive after " \
                "%.1f s" % (c, now - x.t_accept)
        if x.hs and x.ver == 3:
            a, b = m.idle_window(x)
            if now > b + 0.05:
                return {'nodrop', 'idle'}, \
                    "silent v3 client %s still connected after %.2f s (max " \
                    "idle time %s)" % (c, now - x.last_seen, x.m_range)
        return None

    def compare(self, m, c, msgs, exp, ver, gone):
        exp = {ta: list(ph) for ta, ph in exp.items()}
        by_ta = {}
        if gone:        # what it was owed is lost with the connection
            return
        for msg in msgs:
            err = format_error(msg, ver or self.guess_ver(msg))
            if err is not None:
                tags = {'format', 'ta'}
                if isinstance(msg.get('ta-cmd'), str) and \
                   msg['ta-cmd'] in M.CMD_TAG:
                    tags.add(M.CMD_TAG[msg['ta-cmd']])
                raise Mismatch(tags, "message %s to client %s" %
                               (short(msg), c) + " " + err)
            by_ta.setdefault(msg['ta-id'], []).append(msg)
        x = m.conns.get(c) or self.gone.get(c)
        for ta, ms in by_ta.items():
            if x is not None and x.track == ta:
                ms = self.server_queries(m, x, ms)
            self.match(c, ta, exp.pop(ta, []), ms)
        for ta, ph in exp.items():
            self.match(c, ta, ph, [])

    def guess_ver(self, msg):
        return 3 if 'idle' in msg or msg.get('ta-cmd') == 'track' else 2

    def server_queries(self, m, x, ms):
        out = []
        for msg in ms:
            if msg['msg-type'] == 'notify' and \
               msg.get('track-type') == 'query':
                if x.query_at is not None:
                    raise Mismatch({'track'}, "server sent a second query "
                                   "to client %s while one is outstanding" %
                                   x.label)
                quiet = msg.t - x.last_seen
                lo = x.m_range[0]
                if x.rival_at is None and quiet < 0.45 * lo - 1e-6:
                    raise Mismatch({'track', 'idle'}, "server queried "
                                   "client %s heard from %.2f s ago" %
                                   (x.label, quiet))
                x.query_at = msg.t
            else:
                out.append(msg)
        return out

    def match(self, c, ta, phases, msgs):
        i = 0
        for ph in phases:
            if ph[0] == 'one':
                _, cmd, mtype, info = ph
                if i >= len(msgs):
                    raise Mismatch({'ta', 'resp', M.CMD_TAG[cmd]} |
                                   reason_tags(info),
                                   "client %s got no %s %s in transaction %d"
                                   % (c, cmd, mtype, ta))
                try:
                    self.match_one(c, ta, ph, msgs[i])
                except Mismatch as x:
                    # not only another outcome, but no proper sequence
                    ts = [y['msg-type'] for y in msgs[i:]
                          if y['ta-cmd'] == cmd]
                    if len(phases) == 1 and (
                            ts[:1] in (['fail'], ['complete']) and ts[1:] or
                            ts[:1] == ['accept'] and
                            {'accept', 'fail'} & set(ts[1:])):
                        x.tags.add('ta')
                    raise
                i += 1
            elif ph[0] == 'bag':
                i = self.match_bag(c, ta, ph, msgs, i)
            else:
                i = self.match_svc(c, ta, ph[1], msgs, i)
        if i < len(msgs):
            msg = msgs[i]
            tags = {'ta', 'unsolicited', M.CMD_TAG.get(msg['ta-cmd'], 'ta')}
            if msg['ta-cmd'] == 'subscribe' and msg['msg-type'] == 'notify':
                tags |= {'stream', 'orphan'} if 'orphan-since' in msg \
                    else {'stream'}
            raise Mismatch(tags, "client %s got unexpected %s" %
                           (c, short(msg)))

    def match_one(self, c, ta, ph, msg):
        _, cmd, mtype, info = ph
        tags = {'resp', M.CMD_TAG[cmd]} | reason_tags(info)
        if msg.get('fail-reason') in M.REASON_TAG:
            tags.add(M.REASON_TAG[msg['fail-reason']])
        if msg['ta-cmd'] != cmd or msg['msg-type'] != mtype:
            if msg['ta-cmd'] != cmd or {msg['msg-type'], mtype} not in (
                    {'fail', 'complete'}, {'fail', 'accept'}):
                tags.add('ta')
            raise Mismatch(tags, "client %s expected %s %s%s in transaction "
                           "%d but got %s" % (
                               c, cmd, mtype, " " + "/".join(sorted(
                                   info.get('reasons', ()))), ta, short(msg)))
        if 'reasons' in info and msg.get('fail-reason') not in \
           info['reasons']:
            raise Mismatch(tags, "client %s expected %s to fail as %s but "
                           "got %s" % (c, cmd, "/".join(sorted(
                               info['reasons'])), short(msg)))
        for k, v in info.get('fields', {}).items():
            if msg.get(k) != v:
                raise Mismatch(tags | {'format'}, "client %s expected %s=%r "
                               "in %s" % (c, k, v, short(msg)))

    def match_bag(self, c, ta, ph, msgs, i):
        _, cmd, items = ph
        left = list(items)
        tag = M.CMD_TAG[cmd]
        while i < len(msgs) and msgs[i]['msg-type'] == 'notify' and \
                msgs[i]['ta-cmd'] == cmd:
            msg = msgs[i]
            best = None
            for it in left:
                r = self.item_equal(cmd, msg, it)
                if r is None:
                    left.remove(it)
                    break
                if best is None or r == 'orphan' or \
                        (best != 'orphan' and r.startswith('near')):
                    best = r
            else:
                tags = {tag}
                if best == 'orphan' or 'orphan-since' in msg:
                    tags.add('orphan')
                raise Mismatch(tags, "listing of %s has %s; expected only %r"
                               % (cmd, short(msg), items))
            i += 1
        if left:
            tags = {tag}
            if cmd == 'services' and any(s.orphan is not None
                                         for s in left):
                tags.add('orphan')
            raise Mismatch(tags, "listing of %s lacks %r" % (cmd, left))
        return i

    def item_equal(self, cmd, msg, it):
        if cmd == 'services':
            return svc_equal(msg, it)
        if cmd == 'subscriptions':
            sub_id, cid, f = it
            if msg['subscription-id'] != sub_id or msg['client-id'] != cid:
                return 'content'
            if (f is None) != ('filter' not in msg):
                return 'near'
            if f is not None:
                try:
                    if reffilter.parse(msg['filter']) != f:
                        return 'near'
                except reffilter.Bad:
                    return 'near'
            return None
        x = it
        if msg['client-id'] != x.cid or msg['client-address'] != x.remote or \
           msg['time'] != int(x.t_accept):
            return 'content'
        if 'idle' in msg:
            if msg['protocol-version'] != x.ver:
                return 'near'
            if abs(msg['idle'] - (self.ep.now - x.last_seen)) > 0.02:
                return 'near'
            lat = msg.get('latency')
            if (lat is None) != (x.track is None or x.latency is None):
                return 'near'
            if lat is not None and abs(lat - x.latency) > 0.02:
                return 'near'
        return None

    def match_svc(self, c, ta, want, msgs, i):
        want = {sid: list(steps) for sid, steps in want.items()}
        while i < len(msgs) and msgs[i]['msg-type'] == 'notify' and \
                msgs[i]['ta-cmd'] == 'subscribe':
            msg = msgs[i]
            steps = want.get(msg['service-id'])
            while steps and steps[0][2] and not self.step_ok(steps[0], msg):
                steps.pop(0)        # a step the server may leave out
            if not steps:
                raise Mismatch(stream_tags(msg), "subscriber %s got "
                               "unexpected %s" % (c, short(msg)))
            r = self.step_ok(steps[0], msg, True)
            if r is not None:
                tags = {'stream'}
                if r == 'orphan' or steps[0][1].orphan is not None or \
                        'orphan-since' in msg:
                    tags.add('orphan')
                raise Mismatch(tags, "subscriber %s expected %s %r but got "
                               "%s" % (c, steps[0][0], steps[0][1],
                                       short(msg)))
            due = steps[0][3]
            if due is not None and not \
                    due - 1e-6 <= msg.t <= due + self.expiry_slack:
                raise Mismatch({'orphan'}, "subscriber %s was told of the "
                               "expiry of %r %.3f s after its TTL elapsed" %
                               (c, steps[0][1], msg.t - due))
            steps.pop(0)
            i += 1
        for sid, steps in want.items():
            for st in steps:
                if not st[2]:
                    raise Mismatch({'stream'} | ({'orphan'} if st[1].orphan
                                                 is not None else set()),
                                   "subscriber %s did not get %s %r" %
                                   (c, st[0], st[1]))
        return i

    def step_ok(self, st, msg, why=False):
        kind, svc = st[:2]
        if msg['match-type'] != kind or msg['service-id'] != svc.sid:
            r = 'content'
        elif kind == 'disappeared':
            r = None
        else:
            r = svc_equal(msg, svc)
        return r if why else r is None

    # --------------------------------------------------------- probe

    def finish(self, ep):
        yield from self.probe(ep)

    def probe(self, ep, cmds=("services", "subscriptions", "clients")):
        """Read the directory through the observers."""
        if not self.observers:
            return
        for i in range(len(self.doms)):
            c = OBS + i
            if c not in self.m.conns:
                continue
            for cmd in cmds:
                ev = ("msg", c, {'ta-cmd': cmd, 'ta-id': self.free_ta(c),
                                 'msg-type': 'request'})
                self.perform(ev)
                self.predict(self.m, ev)
                yield
                self.settle()


def stream_tags(msg):
    t = {'stream'}
    if 'orphan-since' in msg:
        t.add('orphan')
    return t


def reason_tags(info):
    return {M.REASON_TAG[r] for r in info.get('reasons', ())}


class Mismatch(Exception):
    def __init__(self, tags, text):
        Exception.__init__(self, text)
        self.tags = set(tags)
        self.text = text


def short(m):
    return json.dumps(m)[:400]
