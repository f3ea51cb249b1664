"""P27: library clients and the server share one view.

The real client library (two or three instances) and the real server run
together; every message, in both directions, is under way until the explorer
releases it. Small concurrent programs are run under all orders of delivery.
What the programs' callbacks saw must be explained by one order of all
operations at the server, and once everything is delivered every subscriber's
view must equal the directory, before and after orphans have timed out."""
import itertools
import json

import reffilter
import vworld
from choose import choices
from vworld import Episode, Violation, stub

import paf.client as C

ADDR = "ux:d0"
CONF = "domains:\n- name: d0\n  sockets:\n  - addr: ux:d0\n"
TTL = 5
PROPS = {"A": {"x": {1}}, "B": {"x": {2}, "y": {"z"}}, "C": {}}
FILTERS = {"all": None, "x1": "(x=1)", "y": "(y=*)"}


# ------------------------------------------------------ sequential directory

class Spec:
    """The directory as if operations arrived one at a time."""

    def __init__(self):
        self.svcs = {}      # sid -> (gen, props name, ttl, client, orphan)
        self.subs = {}      # sub -> connection
        self.cids = {}      # connection -> client id
        self.seen = frozenset()     # every version there has been

    def copy(self):
        n = Spec()
        n.svcs, n.subs, n.cids = dict(self.svcs), dict(self.subs), \
            dict(self.cids)
        n.seen = self.seen
        return n

    def key(self):
        return (tuple(sorted(self.svcs.items())),
                tuple(sorted(self.subs.items())),
                tuple(sorted(self.cids.items())), self.seen)

    def put(self, sid, v):
        self.svcs[sid] = v
        self.seen |= {(sid,) + v}

    def apply(self, conn, cid, op):
        """The outcome. Operations: see Prog."""
        k = op[0]
        if k == "hello":
            if cid in self.cids.values():
                return "client-id-exists"
            self.cids[conn] = cid
            return "ok"
        if k == "bye":
            self.cids.pop(conn, None)
            for s in [s for s, c in self.subs.items() if c == conn]:
                del self.subs[s]
            if cid not in self.cids.values():
                for sid, v in self.svcs.items():
                    if v[3] == cid and not v[4]:
                        self.put(sid, v[:4] + (True,))
            return None
        if conn not in self.cids:
            return "no-hello"
        if k == "pub":
            sid, gen, p = op[1:]
            v = (gen, p, TTL, cid, False)
            o = self.svcs.get(sid)
            if o is not None:
                if gen < o[0]:
                    return "old-generation"
                if gen == o[0] and p != o[1]:
                    return "same-generation-but-different"
            self.put(sid, v)
            return "ok"
        if k == "unpub":
            o = self.svcs.pop(op[1], None)
            if o is None:
                return "non-existent-service-id"
            # taken over first
            self.seen |= {(op[1],) + o[:3] + (cid, False)}
            return "ok"
        if k == "sub":
            if op[1] in self.subs:
                return "subscription-id-exists"
            self.subs[op[1]] = conn
            return "ok"
        if k == "unsub":
            if op[1] not in self.subs:
                return "non-existent-subscription-id"
            if self.subs[op[1]] != conn:
                return "permission-denied"
            del self.subs[op[1]]
            return "ok"
        if k == "list":
            return tuple(sorted(
                (sid,) + v for sid, v in self.svcs.items()
                if matches(op[1], PROPS[v[1]])))
        if k == "subs":
            return tuple(sorted((s, self.cids[c])
                                for s, c in self.subs.items()))
        if k == "ping":
            return "ok"
        raise ValueError(k)


def matches(f, props):
    f = FILTERS[f]
    return f is None or reffilter.match(reffilter.parse(f), props)


def prop_name(p):
    for k, v in PROPS.items():
        if v == p:
            return k
    raise Violation("properties nobody published: %r" % (p,))


# ----------------------------------------------------------------- programs

class Call:
    """An operation under way."""

    def __init__(self, conn, op):
        self.conn = conn
        self.op = op
        self.events = []
        self.rows = []
        self.outcome = None
        self.round = None       # which run of the server has seen it

    def __call__(self, ta_id, event, *args, **optargs):
        e = event.name
        if self.op[0] == "sub":
            self.conn.prog.sub_event(self, e, args, optargs)
            if e == "ACCEPT":
                self.done("ok")
            elif e == "FAIL":
                self.done(optargs.get("fail_reason"))
            return
        if e == "COMPLETE":
            if self.op[0] == "list":
                self.done(tuple(sorted(self.rows)))
            elif self.op[0] == "subs":
                self.done(tuple(sorted(self.rows)))
            else:
                self.done("ok")
        elif e == "FAIL":
            self.done(optargs.get("fail_reason"))
        elif e == "NOTIFY":
            if self.op[0] == "list":
                sid, gen, p, ttl, cid = args
                self.rows.append((sid, gen, prop_name(p), ttl, cid,
                                  optargs.get("orphan_since") is not None))
            else:
                self.rows.append((args[0], args[1]))

    def done(self, outcome):
        if self.outcome is not None:
            raise Violation("%s: %r ends with both %r and %r" % (
                self.conn.name, self.op, self.outcome, outcome))
        self.outcome = outcome
        self.conn.next()


class Conn:
    """One connection of a client: a library instance."""

    def __init__(self, prog, client, n):
        self.prog = prog
        self.client = client
        self.cid = client.cid
        self.name = "%s.%d" % (client.name, n)
        self.dead = False       # closed by us
        self.inside = False     # in a callback
        self.lost = None
        self.sent = []          # calls, in order of issue
        stub.stub_hold_new(1)
        conf = C.ServerConf(ADDR, client.ver, client.ver)
        self.hello = Call(self, ("hello",))
        self.sent.append(self.hello)
        self.c = C.connect(conf, client_id=client.cid, ready_cb=self.ready,
                           track=client.track)
        self.ep = stub.stub_fd_ep(self.c.fileno())
        self.sep = stub.stub_peer_of(self.ep)
        if prog.spec.get("window"):
            stub.stub_set_cap(self.ep, prog.spec["window"])
            stub.stub_set_cap(self.sep, prog.spec["window"])

    def ready(self):
        self.hello.done("ok")

    def next(self):
        self.client.turn()

    def issue(self, op):
        call = Call(self, op)
        self.sent.append(call)
        k = op[0]
        if k == "pub":
            self.c.publish(op[1], op[2], PROPS[op[3]], TTL, call)
        elif k == "unpub":
            self.c.unpublish(op[1], call)
        elif k == "sub":
            call.view = {}
            call.ta = self.c.subscribe(op[1], call, filter=FILTERS[op[2]])
        elif k == "unsub":
            self.c.unsubscribe(op[1], call)
        elif k == "list":
            self.c.services(call, filter=FILTERS[op[1]])
        elif k == "subs":
            self.c.subscriptions(call)
        elif k == "ping":
            self.c.ping(call)
        else:
            raise ValueError(k)
        return call

    def process(self):
        """Serve the library as poll() would."""
        for i in range(100):
            if self.dead or self.lost or \
               not stub.stub_fd_ready(self.c.fileno()):
                return
            self.prog.progress += 1
            try:
                self.inside = True
                self.c.process()
                self.inside = False
                self.client.turn()
            except C.Error as e:
                self.inside = False
                self.lost = str(e)
                if self.hello.outcome is None and \
                   isinstance(e, C.ProtocolError):
                    for r in ("client-id-exists", "permission-denied"):
                        if r in str(e):
                            self.hello.outcome = r
                self.bye()
                return
        raise Violation("%s: the library is ready without end" % self.name)

    def bye(self):
        if self.dead:
            return
        self.dead = True
        call = Call(self, ("bye",))
        self.sent.append(call)
        self.c.close()


class Client:
    def __init__(self, prog, name, ops, cid, ver=3, track=False, wait=False):
        self.prog = prog
        self.name = name
        self.cid = cid
        self.ops = list(ops)
        self.ver = ver
        self.track = track
        self.wait = wait        # for each operation before the next
        self.n = 0
        self.conn = None
        self.conns = []
        self.busy = False

    def connect(self):
        self.n += 1
        self.conn = Conn(self.prog, self, self.n)
        self.conns.append(self.conn)
        self.prog.conns.append(self.conn)

    def turn(self):
        """Issues what may be issued now."""
        if self.busy or not self.prog.started:
            return
        self.busy = True
        try:
            while self.ops:
                c = self.conn
                if c.dead and self.ops[0][0] != "connect":
                    return
                if c.hello.outcome is None and not (
                        c.dead or self.ops[0][0] == "bye!"):
                    return
                if self.wait and any(
                        x.outcome is None for x in c.sent
                        if x.op[0] != "bye"):
                    if self.ops[0][0] != "bye!":
                        return
                if c.inside and self.ops[0][0] in ("bye", "bye!", "connect"):
                    return          # not from within a callback
                op = self.ops.pop(0)
                if op[0] in ("bye", "bye!"):
                    c.bye()
                elif op[0] == "connect":
                    self.connect()
                else:
                    c.issue(op)
        finally:
            self.busy = False


class Prog:
    """One execution."""

    def __init__(self, ch, spec):
        self.ch = ch
        self.spec = spec
        self.conns = []
        self.rounds = 0
        self.progress = 0
        self.started = False
        self.arrivals = []
        self.history = []
        self.clients = [Client(self, "c%d" % i, **dict(dict(cid=10 + i),
                                                       **s))
                        for i, s in enumerate(spec["clients"])]
        self.hint = spec.get("hold", "c")

    # ------------------------------------------------------ notifications

    def sub_event(self, call, e, args, optargs):
        conn = call.conn
        call.events.append(e)
        if call.events[0] not in ("ACCEPT", "FAIL") or \
           e in ("ACCEPT", "FAIL") and len(call.events) > 1 or \
           "COMPLETE" in call.events[:-1]:
            raise Violation("subscription events %r" % call.events)
        if e != "NOTIFY":
            return
        view = call.view        # sid -> version
        how, sid = args
        if how == "disappeared":
            if sid not in view:
                raise Violation("%s: service %d disappears, unseen" % (
                    conn.name, sid))
            del view[sid]
            return
        if (how == "appeared") == (sid in view):
            raise Violation("%s: service %d %s, when it was %s" % (
                conn.name, sid, how, view.get(sid, "not there")))
        p = optargs.get("service_props")
        v = (optargs.get("generation"), prop_name(p), optargs.get("ttl"),
             optargs.get("client_id"),
             optargs.get("orphan_since") is not None)
        view[sid] = v
        self.history.append((sid,) + v)
        if not matches(call.op[2], PROPS[v[1]]):
            raise Violation("%s: %r does not match %r" % (
                conn.name, v, call.op))

    # ---------------------------------------------------------- execution

    def live(self):
        return [c for c in self.conns if not c.dead]

    def moves(self):
        out = []
        for i, c in enumerate(self.conns):
            if stub.stub_underway(c.sep):
                out.append(("c", i))
        if "s" in self.hint:
            for i, c in enumerate(self.conns):
                if not c.dead and stub.stub_underway(c.ep):
                    out.append(("s", i))
        if out and self.released:
            out.append(("run", None))
        return out

    def flush(self, c):
        while not c.dead and stub.stub_underway(c.ep):
            stub.stub_release(c.ep)
            if "1" in self.hint:
                c.process()
        c.process()

    def order(self, evs):
        """Descriptors become ready in the order of arrival."""
        def key(ev):
            e = stub.stub_fd_ep(ev[0])
            return self.arrivals.index(e) if e in self.arrivals else -1
        return sorted(evs, key=key)

    def server(self):
        """Has run; its answers."""
        self.arrivals = []
        self.rounds += 1
        self.released = False
        if self.spec.get("window"):
            for c in list(self.conns):
                c.process()
        if "s" not in self.hint and "l" not in self.hint:
            for c in list(self.conns):
                self.flush(c)

    def mark(self, c):
        """The next message of a connection reaches the server."""
        for call in c.sent:
            if call.round is None:
                call.round = self.rounds
                return

    def drive(self, ep):
        yield
        if self.spec.get("prologue"):
            for c in self.clients:
                c.connect()
                yield from self.settle()
            for c, op in self.spec["prologue"]:
                cl = self.clients[c]
                cl.conn.issue(op)
                yield from self.settle()
        else:
            for c in self.clients:
                c.connect()
            if self.spec.get("greeted", True):
                yield from self.settle()
        self.started = True
        for c in self.clients:
            c.turn()
        self.released = False
        batch = self.spec.get("batch")
        while True:
            ms = self.moves()
            if not ms:
                if self.released:
                    yield
                    self.server()
                    continue
                if "l" in self.hint:
                    for c in list(self.conns):
                        self.flush(c)
                    if self.moves():
                        continue
                break
            kind, i = ms[self.ch.choose(len(ms))]
            self.ch.labels.append("%s%s" % (kind, "" if i is None else i))
            self.ch.ops += 1
            if kind == "c":
                c = self.conns[i]
                self.mark(c)
                stub.stub_release(c.sep)
                self.released = True
                self.arrivals.append(c.sep)
                if not batch:
                    yield
                    self.server()
            elif kind == "run":
                yield
                self.server()
            else:
                c = self.conns[i]
                stub.stub_release(c.ep)
                c.process()
                if self.spec.get("window"):
                    yield
        yield from self.finish()

    def settle(self):
        """Deliver everything, in order of issue."""
        self.released = False
        for n in range(1000):
            busy = False
            before = self.progress
            if self.spec.get("window"):
                yield
                self.server()
            for c in list(self.conns):
                while stub.stub_underway(c.sep):
                    self.mark(c)
                    stub.stub_release(c.sep)
                    yield
                    self.rounds += 1
                    busy = True
                if not c.dead and stub.stub_underway(c.ep):
                    busy = True
                    self.flush(c)
            if not busy and self.progress == before:
                return
        raise Violation("the conversation does not end")

    def finish(self):
        if self.spec.get("window"):
            yield from self.settle()
        # nothing is left, and everything is answered
        for c in self.conns:
            if c.lost and c.hello.outcome in (None, "ok"):
                raise Violation("%s is lost: %s" % (c.name, c.lost))
            if c.dead:
                continue
            for x in c.sent:
                if x.outcome is None:
                    raise Violation("%s: %r is never answered" % (c.name,
                                                                  x.op))
        finals = self.linearize()
        probe = Client(self, "probe", [], 99, wait=True)
        probe.connect()
        yield from self.settle()
        first = probe.conn.issue(("list", "all"))
        yield from self.settle()
        if not any(self.listing(f) == first.outcome for f in finals):
            raise Violation("the directory is %r in the end, instead of %r" %
                            (first.outcome, [self.listing(f)
                                             for f in finals]))
        self.converged(first.outcome, "in the end")
        seen = frozenset().union(*[f.seen for f in finals])
        for v in self.history:
            if v not in seen:
                raise Violation("a version %r is reported that never was" %
                                (v,))
        yield from self.expire(probe, first)
        for c in self.live():
            c.bye()
        yield
        self.obs = (first.outcome, [
            [(x.op, x.outcome) for x in c.sent if x.op[0] != "ping"]
            for c in self.conns])

    def expire(self, probe, first):
        """Orphans time out."""
        if not any(v[5] for v in first.outcome):
            return
        for i in range(3):
            yield (TTL + 2) / 3
            for c in self.live():
                c.issue(("ping",))
            yield from self.settle()
        last = probe.conn.issue(("list", "all"))
        yield from self.settle()
        if last.outcome != tuple(v for v in first.outcome if not v[5]):
            raise Violation("after %d s, the directory is %r, after %r" % (
                TTL + 2, last.outcome, first.outcome))
        self.converged(last.outcome, "after orphans are gone")

    def listing(self, f):
        n = f.copy()
        n.cids["probe"] = 99
        return n.apply("probe", 99, ("list", "all"))

    def converged(self, listing, when):
        for c in self.live():
            for call in c.sent:
                if call.op[0] != "sub" or call.outcome != "ok" or \
                   "COMPLETE" in call.events:
                    continue
                want = {v[0]: v[1:] for v in listing
                        if matches(call.op[2], PROPS[v[2]])}
                if call.view != want:
                    raise Violation("%s: %s subscription %d shows %r, the "
                                    "directory has %r" % (
                                        when, c.name, call.op[1],
                                        call.view, want))

    def linearize(self):
        """The final states of all orders that explain the outcomes."""
        rounds = {}
        for c in self.conns:
            for call in c.sent:
                if call.round is not None:
                    rounds.setdefault(call.round, {}).setdefault(
                        c, []).append(call)
        states = [Spec()]
        for r in sorted(rounds):
            lanes = list(rounds[r].values())
            out = {}
            for st in states:
                for f in orders(st, lanes, [0] * len(lanes)):
                    out[f.key()] = f
            states = list(out.values())
            if not states:
                raise Violation(
                    "no order of the operations explains their outcomes: "
                    "%r" % [[(x.conn.name, x.op, x.outcome) for x in lane]
                            for lanes in [rounds[k].values() for k in
                                          sorted(rounds)] for lane in lanes])
        return states


def orders(st, lanes, pos):
    """The states after all orders of what is left of the lanes."""
    done = True
    for i, lane in enumerate(lanes):
        if pos[i] == len(lane):
            continue
        done = False
        call = lane[pos[i]]
        if call.op[0] != "bye" and call.outcome is None and \
           lane[-1].op[0] == "bye":
            # the end of a connection may be noticed before its last messages
            p = list(pos)
            p[i] = len(lane) - 1
            yield from orders(st, lanes, p)
        n = st.copy()
        got = n.apply(call.conn.name, call.conn.cid, call.op)
        # an answer that could not be received anymore may be anything
        if call.outcome is not None and got != call.outcome:
            continue
        p = list(pos)
        p[i] += 1
        yield from orders(n, lanes, p)
    if done:
        yield st


# ---------------------------------------------------------------- scenarios

def execute(spec):
    def fun(ch):
        prog = Prog(ch, spec)
        ep = Episode(CONF)
        ch.labels.append(json.dumps(spec["clients"]))
        ep.order = prog.order
        ep.run(prog.drive(ep))
        if ep.internal:
            raise RuntimeError(ep.internal)
        if ep.error:
            raise ep.error
        if ep.hang:
            raise Violation(ep.hang)
        if ep.died:
            raise Violation(ep.died[1])
        if stub.stub_misuse():
            text = stub.stub_misuse_text().decode()
            stub.stub_misuse_clear()
            raise Violation("misuse of the transport: " + text)
        return prog.obs
    return fun


def programs(ch, specs):
    """Picks the program first."""
    spec = specs[ch.choose(len(specs))]
    return execute(spec)(ch)


OPS = [("pub", 1, 1, "A"), ("pub", 1, 2, "B"), ("unpub", 1),
       ("pub", 2, 1, "B")]
VIEW = [("sub", 5, "all"), ("sub", 6, "x1"), ("list", "all"),
        ("unsub", 5), ("subs",)]


def seqs(ops, n, least=1):
    return [list(p) for k in range(least, n + 1)
            for p in itertools.product(ops, repeat=k)]


def run(check):
    t = check.thorough
    observer = dict(ops=[])
    base = [(0, ("sub", 1, "all")), (0, ("sub", 2, "x1"))]

    def explore(name, specs):
        choices(check, name, lambda ch: programs(ch, specs), 10000)

    some = OPS + [("sub", 5, "all"), ("sub", 5, "x1"), ("list", "all")]
    # concurrent asynchronous operations; the server finds any number of
    # messages waiting
    explore("concurrent", [
        dict(clients=[observer, dict(ops=a), dict(ops=b, ver=2)],
             prologue=base, batch=True)
        for a in seqs(OPS, 2) for b in seqs(some, 2 if t else 1)])
    # longer programs, one message at a time
    explore("longer", [
        dict(clients=[observer, dict(ops=a), dict(ops=b, ver=2)],
             prologue=base)
        for a in seqs(OPS, 3 if t else 2, 2)
        for b in (seqs(some, 2, 2))])
    # answers and notifications are under way, too
    pre = base[:1] + [(0, ("pub", 1, 1, "A"))]
    explore("delayed", [
        dict(clients=[dict(ops=a), dict(ops=b, ver=2)], prologue=pre,
             hold="cs")
        for a in seqs(OPS[1:] + [("unsub", 1), ("list", "x1")], 2 if t else 1)
        for b in seqs(some[1:] + [("unsub", 1)], 2 if t else 1)
        if len(a) + len(b) < 4])
    explore("lazy", [
        dict(clients=[dict(ops=a), dict(ops=b, wait=True), dict(ops=c)],
             prologue=base, hold=h)
        for h in ("cl", "cl1")
        for a in seqs([("unsub", 1), ("list", "all")], 1)
        for b in seqs(OPS, 2, 2)
        for c in seqs(some[1:], 1)])
    # operations issued once the previous one is answered
    explore("waiting", [
        dict(clients=[observer, dict(ops=a, wait=True),
                      dict(ops=b, wait=True, track=True)], prologue=base)
        for a in seqs(OPS, 3 if t else 2, 2)
        for b in seqs(some, 2, 2)])
    # three at once
    explore("three", [
        dict(clients=[observer] + [dict(ops=[x]) for x in p],
             prologue=base, batch=True)
        for p in itertools.combinations_with_replacement(some + VIEW[4:],
                                                         3)])
    # closing, and coming back
    own = [(1, ("pub", 1, 1, "A")), (1, ("sub", 3, "all"))]
    dying = [[("bye",)], [("bye",), ("connect",)],
             [("pub", 1, 2, "B"), ("bye",)], [("pub", 2, 1, "B"), ("bye",)],
             [("unpub", 1), ("bye",)], [("list", "all"), ("bye",)],
             [("bye",), ("connect",), ("pub", 1, 1, "A")],
             [("bye",), ("connect",), ("pub", 1, 2, "B")],
             [("bye",), ("connect",), ("unpub", 1)],
             [("bye",), ("connect",), ("list", "all")],
             [("bye",), ("connect",), ("sub", 3, "all")],
             [("bye",), ("connect",), ("bye",)],
             [("bye",), ("connect",), ("bye!",)],
             [("bye",), ("connect",), ("bye!",), ("connect",)]]
    explore("deaths", [
        dict(clients=[observer, dict(ops=a, wait=w), dict(ops=b, ver=2)],
             prologue=base + own, batch=t or len(a) < 3)
        for w in (False, True) for a in dying
        for b in seqs(some + [("sub", 3, "all"), ("subs",)], 1)])
    if t:
        explore("deaths-longer", [
            dict(clients=[observer, dict(ops=a, wait=w), dict(ops=b, ver=2)],
                 prologue=base + own)
            for w in (False, True) for a in dying
            for b in seqs(some + [("sub", 3, "all"), ("subs",)], 2, 2)])
    explore("deaths-delayed", [
        dict(clients=[dict(ops=[]), dict(ops=a), dict(ops=b, ver=2)],
             prologue=own, hold="cs")
        for a in dying[:12 if t else 4]
        for b in seqs(some[:3] + some[4:5], 1)])
    # handshakes, also with the same client id
    for same in (False, True):
        explore("handshakes-same" if same else "handshakes", [
            dict(clients=[dict(ops=a), dict(ops=b, **(
                dict(cid=10) if same else {}))], greeted=False,
                batch=True, hold=h)
            for h in ("c", "cs")[:2 if t else 1]
            for a in [[]] + seqs(OPS[::2] + [("bye!",), ("list", "all")],
                                 2 if t and h == "c" else 1)
            for b in [[]] + seqs(some[1:] + [("bye!",)], 1)])
    # back-pressure
    explore("pressure-burst", [
        dict(clients=[dict(ops=a), dict(ops=b, ver=2)], prologue=base,
             window=w, hold=h)
        for w in (1, 2) for h in ("c", "cl")
        for a in seqs([("list", "all"), ("unsub", 1), ("ping",)], 1)
        for b in seqs(OPS, 4 if t else 3, 3)])
    explore("pressure", [
        dict(clients=[dict(ops=a), dict(ops=b, ver=2)], prologue=base,
             hold="cs", window=1)
        for a in seqs(OPS[:3], 1)
        for b in seqs(OPS[:3] + [("list", "all")], 2 if t else 1)])
