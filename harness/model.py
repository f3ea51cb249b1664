"""Reference model of a Pathfinder server, at the level of wire messages.

Written from the protocol documentation; deterministic except where noted
("may"). It predicts, for one client message or event, the messages every
connection must receive."""
import copy

import reffilter

PD = "permission-denied"
IR = "insufficient-resources"
OG = "old-generation"
SG = "same-generation-but-different"
NS = "non-existent-service-id"
NSUB = "non-existent-subscription-id"
SUBX = "subscription-id-exists"
FLT = "invalid-filter-syntax"
CIX = "client-id-exists"
UPV = "unsupported-protocol-version"
NH = "no-hello"
TX = "track-exists"

REASON_TAG = {PD: 'acc', IR: 'res', OG: 'svc', SG: 'svc', NS: 'svc',
              NSUB: 'sub', SUBX: 'sub', FLT: 'filter', CIX: 'hs', UPV: 'hs',
              NH: 'hs', TX: 'track'}
CMD_TAG = {'publish': 'svc', 'unpublish': 'svc', 'subscribe': 'sub',
           'unsubscribe': 'sub', 'services': 'list', 'subscriptions': 'subs',
           'clients': 'clients', 'hello': 'hs', 'ping': 'ping',
           'track': 'track'}
MULTI = ('subscribe', 'services', 'subscriptions', 'clients', 'track')


def norm_props(p):
    return {k: frozenset(v) for k, v in p.items() if len(v) > 0}


class Svc:
    """An immutable service version."""
    __slots__ = ("sid", "gen", "props", "ttl", "cid", "user", "orphan",
                 "host")

    def __init__(self, sid, gen, props, ttl, cid, user, orphan, host):
        self.sid = sid
        self.gen = gen
        self.props = props
        self.ttl = ttl
        self.cid = cid
        self.user = user
        self.orphan = orphan
        self.host = host        # connection label, or None when orphan

    def but(self, **kw):
        n = Svc(*[getattr(self, a) for a in Svc.__slots__])
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self, now):
        return (self.sid, self.gen,
                tuple(sorted((k, tuple(sorted(map(repr, v))))
                             for k, v in self.props.items())),
                self.ttl, self.cid, self.user,
                None if self.orphan is None else round(self.orphan - now, 3),
                self.host)

    def __repr__(self):
        return "service %d gen %d %s ttl %d client %d orphan %s" % (
            self.sid, self.gen, {k: sorted(map(repr, v))
                                 for k, v in self.props.items()},
            self.ttl, self.cid, self.orphan)


class Sub:
    __slots__ = ("sub_id", "conn", "cid", "filter", "ftext", "ta")

    def __init__(self, sub_id, conn, cid, filter, ftext, ta):
        self.sub_id = sub_id
        self.conn = conn
        self.cid = cid
        self.filter = filter
        self.ftext = ftext
        self.ta = ta

    def matches(self, svc):
        return svc is not None and (self.filter is None or
                                    reffilter.match(self.filter, svc.props))


class Conn:
    def __init__(self, label, dom, user, remote, now):
        self.label = label
        self.dom = dom
        self.user = user
        self.remote = remote
        self.cid = None
        self.hs = False
        self.ver = None
        self.tas = {}
        self.track = None
        self.query_at = None        # server query outstanding since
        self.latency = None
        self.t_accept = now
        self.last_seen = None
        self.t_hs = None
        self.m_range = None         # (lo, hi) of max idle since last seen
        self.rival_at = None
        self.exempt = False
        self.failed_track = False


class Dom:
    def __init__(self, name, limits, idle, vrange):
        self.name = name
        self.user_limits, self.total_limits = limits
        self.idle = idle
        self.vrange = vrange
        self.services = {}
        self.subs = {}


class Expect:
    """Expected output: conn -> ta -> list of phases."""

    def __init__(self):
        self.out = {}
        self.must_drop = set()
        self.may_drop = set()

    def phases(self, c, ta):
        return self.out.setdefault(c, {}).setdefault(ta, [])

    def one(self, c, ta, cmd, mtype, **info):
        self.phases(c, ta).append(('one', cmd, mtype, info))

    def bag(self, c, ta, cmd, items):
        self.phases(c, ta).append(('bag', cmd, items))

    def svc(self, c, ta, sid, steps):
        ph = self.phases(c, ta)
        if not ph or ph[-1][0] != 'svc':
            ph.append(('svc', {}))
        ph[-1][1].setdefault(sid, []).extend(steps)


class Model:
    def __init__(self, doms):
        self.doms = doms            # list of Dom
        self.conns = {}
        self.exp = Expect()

    def clone(self):
        n = copy.copy(self)
        n.doms = []
        for d in self.doms:
            e = copy.copy(d)
            e.services = dict(d.services)
            e.subs = dict(d.subs)
            n.doms.append(e)
        doms = dict(zip(map(id, self.doms), n.doms))
        n.conns = {}
        for k, c in self.conns.items():
            e = copy.copy(c)
            e.tas = dict(c.tas)
            e.dom = doms[id(c.dom)]
            n.conns[k] = e
        n.exp = copy.deepcopy(self.exp)
        return n

    def take(self):
        e, self.exp = self.exp, Expect()
        return e

    # -------------------------------------------------- bookkeeping

    def used(self, d, kind, user=None):
        n = 0
        if kind == 'clients':
            for c in self.conns.values():
                if c.dom is d and c.hs and (user is None or c.user == user):
                    n += 1
        elif kind == 'services':
            for s in d.services.values():
                if user is None or s.user == user:
                    n += 1
        else:
            for s in d.subs.values():
                if user is None or self.conns[s.conn].user == user:
                    n += 1
        return n

    def exhausted(self, d, kind, user):
        t = d.total_limits.get(kind)
        u = d.user_limits.get(kind)
        return (t is not None and self.used(d, kind) >= t) or \
            (u is not None and self.used(d, kind, user) >= u)

    def connected(self, d, cid):
        for c in self.conns.values():
            if c.dom is d and c.hs and c.cid == cid:
                return c
        return None

    def owner_user(self, d, cid):
        """User of a client id still owning orphans (or connected)."""
        c = self.connected(d, cid)
        if c is not None:
            return c.user
        for s in d.services.values():
            if s.cid == cid:
                return s.user
        return None

    def change(self, d, old, new, optional=False, due=None):
        """A service changes; optional: the server may leave out telling."""
        sid = (old or new).sid
        if new is None:
            del d.services[sid]
        else:
            d.services[sid] = new
        for s in d.subs.values():
            b, a = s.matches(old), s.matches(new)
            if not b and not a:
                continue
            if a and not b:
                st = ('appeared', new, None, None)
            elif a and b:
                st = ('modified', new, optional, None)
            else:
                st = ('disappeared', old, None, due)
            self.exp.svc(s.conn, s.ta, sid, [st])

    def host_services(self, c):
        return [s for s in c.dom.services.values() if s.host == c.label]

    def max_idle(self, c):
        ttls = [s.ttl for s in self.host_services(c)]
        lo, hi = c.dom.idle
        return min(hi, max(lo, min(ttls))) if ttls else hi

    def note_idle(self, c, reset=False):
        m = self.max_idle(c)
        if reset or c.m_range is None:
            c.m_range = (m, m)
        else:
            c.m_range = (min(m, c.m_range[0]), max(m, c.m_range[1]))

    def seen(self, c, now):
        c.last_seen = now
        c.rival_at = None
        self.note_idle(c, True)

    def idle_window(self, c):
        """(earliest, latest) moment the server must drop a silent client"""
        lo, hi = c.m_range
        a = c.last_seen + 0.95 * lo
        b = c.last_seen + 1.05 * hi
        if c.rival_at is not None:
            # a rival may trigger the half-time query early
            a = min(a, c.rival_at + 0.5 * lo)
            if c.rival_at <= c.last_seen + 0.45 * lo:
                b = min(b, c.rival_at + 0.55 * hi)
        return a, b

    # ------------------------------------------------------- events

    def connect(self, label, d, user, remote, now):
        self.conns[label] = Conn(label, self.doms[d], user, remote, now)

    def disconnect(self, label, now):
        c = self.conns.pop(label)
        d = c.dom
        for sub_id in [i for i, s in d.subs.items() if s.conn == label]:
            del d.subs[sub_id]
        if c.hs:
            for s in list(d.services.values()):
                if s.host == label:
                    self.change(d, s, s.but(orphan=now, host=None))
        self.exp.out.pop(label, None)

    def next_expiry(self):
        best = None
        for d in self.doms:
            for s in d.services.values():
                if s.orphan is not None:
                    t = s.orphan + s.ttl
                    if best is None or t < best[0]:
                        best = (t, d, s)
        return best

    def expire_until(self, now):
        while True:
            e = self.next_expiry()
            if e is None or e[0] > now + 1e-9:
                return
            self.change(e[1], e[2], None, due=e[0])

    def message(self, label, m, now):
        """One client message (a dict), assumed well-formed per the docs."""
        c = self.conns[label]
        d = c.dom
        e = self.exp
        cmd, ta, mtype = m['ta-cmd'], m['ta-id'], m['msg-type']
        if ta in c.tas:
            ocmd = c.tas[ta]
            if mtype == 'inform' and cmd == ocmd == 'track':
                return self.inform(c, m, now)
            e.must_drop.add(label)
            return
        if mtype == 'inform' and cmd == 'track' and c.failed_track:
            # may be an inform of a transaction which recently failed
            e.may_drop.add(label)
            return
        if mtype != 'request' or (cmd == 'track' and c.ver != 3 and
                                  (c.hs or c.cid is None)):
            e.must_drop.add(label)
            return

        def fail(*reasons):
            e.one(label, ta, cmd, 'fail', reasons=set(reasons))

        if cmd == 'hello':
            return self.hello(c, m, now, fail)
        if not c.hs:
            if cmd == 'track':
                e.may_drop.add(label)
            return fail(NH)
        self.seen(c, now)
        if cmd == 'publish':
            self.publish(c, m, now, fail)
        elif cmd == 'unpublish':
            self.unpublish(c, m, now, fail)
        elif cmd == 'subscribe':
            self.subscribe(c, m, now, fail)
        elif cmd == 'unsubscribe':
            s = d.subs.get(m['subscription-id'])
            if s is None:
                return fail(NSUB)
            if s.conn != label:
                return fail(PD)
            del d.subs[s.sub_id]
            del c.tas[s.ta]
            e.one(label, s.ta, 'subscribe', 'complete')
            e.one(label, ta, cmd, 'complete')
        elif cmd == 'services':
            f = None
            if 'filter' in m:
                try:
                    f = reffilter.parse(m['filter'])
                except reffilter.Bad:
                    return fail(FLT)
            e.one(label, ta, cmd, 'accept')
            e.bag(label, ta, cmd,
                  [s for s in d.services.values()
                   if f is None or reffilter.match(f, s.props)])
            e.one(label, ta, cmd, 'complete')
        elif cmd == 'subscriptions':
            e.one(label, ta, cmd, 'accept')
            e.bag(label, ta, cmd, [(s.sub_id, s.cid, s.filter)
                                   for s in d.subs.values()])
            e.one(label, ta, cmd, 'complete')
        elif cmd == 'clients':
            e.one(label, ta, cmd, 'accept')
            e.bag(label, ta, cmd,
                  [copy.copy(o) for o in self.conns.values()
                   if o.dom is d and o.hs])
            e.one(label, ta, cmd, 'complete')
        elif cmd == 'ping':
            e.one(label, ta, cmd, 'complete')
        elif cmd == 'track':
            if c.track is not None:
                c.failed_track = True
                return fail(TX)
            c.track = ta
            c.tas[ta] = 'track'
            e.one(label, ta, cmd, 'accept')
        else:
            raise ValueError(cmd)

    def inform(self, c, m, now):
        t = m['track-type']
        if t == 'query':
            self.seen(c, now)
            self.exp.one(c.label, c.track, 'track', 'notify',
                         fields={'track-type': 'reply'})
        elif t == 'reply':
            if c.query_at is None:
                self.exp.must_drop.add(c.label)
                return
            self.seen(c, now)
            c.latency = now - c.query_at
            c.query_at = None
        else:
            self.exp.must_drop.add(c.label)

    def hello(self, c, m, now, fail):
        cid = m['client-id']
        lo, hi = m['protocol-minimum-version'], m['protocol-maximum-version']
        d = c.dom
        ta = m['ta-id']
        if c.cid is not None and c.cid != cid:
            if c.hs:
                self.seen(c, now)
            return fail(PD)
        c.cid = cid
        if c.hs:
            self.seen(c, now)
            self.exp.one(c.label, ta, 'hello', 'complete',
                         fields={'protocol-version': c.ver})
            return
        v = min(hi, d.vrange[1])
        if v < max(lo, d.vrange[0]):
            return fail(UPV)
        reasons = set()
        o = self.connected(d, cid)
        if o is not None:
            reasons.add(CIX)
            if o.ver == 3 and o.rival_at is None:
                o.rival_at = now
        u = self.owner_user(d, cid)
        if u is not None and u != c.user:
            reasons.add(PD)
        if self.exhausted(d, 'clients', c.user):
            reasons.add(IR)
        c.ver = v
        c.exempt = o is not None or u is not None
        if reasons:
            return fail(*reasons)
        c.hs = True
        c.t_hs = now
        self.seen(c, now)
        self.exp.one(c.label, ta, 'hello', 'complete',
                     fields={'protocol-version': v})

    def publish(self, c, m, now, fail):
        d = c.dom
        sid, gen, ttl = m['service-id'], m['generation'], m['ttl']
        props = norm_props(m['service-props'])
        s = d.services.get(sid)
        new = Svc(sid, gen, props, ttl, c.cid, c.user, None, c.label)
        if s is None:
            if self.exhausted(d, 'services', c.user):
                return fail(IR)
            self.change(d, None, new)
        else:
            if s.user != c.user:
                return fail(PD)
            if gen < s.gen:
                return fail(OG)
            if gen == s.gen and (props != s.props or ttl != s.ttl):
                return fail(SG)
            same = (gen == s.gen and s.cid == c.cid and s.orphan is None)
            victim = self.conns.get(s.host)
            if same:
                d.services[sid] = new
            else:
                self.change(d, s, new)
            if victim is not None and victim is not c:
                self.note_idle(victim)
        self.seen(c, now)
        self.exp.one(c.label, m['ta-id'], 'publish', 'complete')

    def unpublish(self, c, m, now, fail):
        d = c.dom
        s = d.services.get(m['service-id'])
        if s is None:
            return fail(NS)
        if s.user != c.user:
            return fail(PD)
        victim = self.conns.get(s.host)
        if s.orphan is not None or s.cid != c.cid:
            n = s.but(orphan=None, cid=c.cid, host=c.label)
            self.change(d, s, n, optional=s.orphan is None)
            s = n
        self.change(d, s, None)
        if victim is not None:
            self.note_idle(victim)
        self.seen(c, now)
        self.exp.one(c.label, m['ta-id'], 'unpublish', 'complete')

    def subscribe(self, c, m, now, fail):
        d = c.dom
        reasons = set()
        f = None
        if 'filter' in m:
            try:
                f = reffilter.parse(m['filter'])
            except reffilter.Bad:
                reasons.add(FLT)
        sub_id = m['subscription-id']
        if sub_id in d.subs:
            reasons.add(SUBX)
        if self.exhausted(d, 'subscriptions', c.user):
            reasons.add(IR)
        if reasons:
            return fail(*reasons)
        ta = m['ta-id']
        c.tas[ta] = 'subscribe'
        s = Sub(sub_id, c.label, c.cid, f, m.get('filter'), ta)
        d.subs[sub_id] = s
        self.exp.one(c.label, ta, 'subscribe', 'accept')
        for v in d.services.values():
            if s.matches(v):
                self.exp.svc(c.label, ta, v.sid,
                             [('appeared', v, None, None)])

    def key(self, now):
        out = []
        for d in self.doms:
            out.append(tuple(sorted(s.key(now)
                                    for s in d.services.values())))
            out.append(tuple(sorted((s.sub_id, s.conn, s.ftext or "", s.ta)
                                    for s in d.subs.values())))
        for k in sorted(self.conns, key=str):
            c = self.conns[k]

            def r(t):
                return None if t is None else round(t - now, 3)
            out.append((k, c.cid, c.hs, c.ver, tuple(sorted(c.tas.items())),
                        c.track, r(c.query_at), r(c.last_seen), r(c.t_accept),
                        c.m_range, r(c.rival_at), c.latency, c.user,
                        c.failed_track, c.exempt,
                        c.remote))
        return out
