"""Small helper for demonstrations: the real server against scripted peers.

Transport, clock and epoll are stand-ins (vworld.py, xcmstub.c beside this
file); nothing outside a temporary directory is touched."""
import itertools
import sys

import vworld
from vworld import Episode, stub  # noqa: F401

CONF = '''domains:
- name: d0
  addrs: [ "ux:d0" ]
  idle: { min: 4, max: 1000 }
log: { syslog: false }
'''
_ta = itertools.count(1)


class C:
    def __init__(self, ep, addr="ux:d0", remote="ux:peer", ski=None):
        self.ep = ep
        self.peer = ep.connect(addr, remote, ski)
        assert self.peer is not None, "nobody listens at %s" % addr
        self.msgs = []

    def post(self, cmd, ta=None, type='request', **fields):
        if ta is None:
            ta = next(_ta)
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': type}
        m.update((k.replace('_', '-'), v) for k, v in fields.items())
        self.peer.send_raw(vworld.json.dumps(m).encode())
        return ta

    def collect(self):
        if not self.peer.closed:
            self.msgs += self.peer.recv()
        return self.msgs

    def under(self, ta):
        return [m for m in self.collect() if m['ta-id'] == ta]

    def req(self, cmd, ta=None, **fields):
        """Use with 'yield from'; returns the messages of the transaction."""
        ta = self.post(cmd, ta, **fields)
        yield
        return self.under(ta)

    def hello(self, cid, lo=2, hi=3):
        return self.req('hello', client_id=cid, protocol_minimum_version=lo,
                        protocol_maximum_version=hi)

    def pub(self, sid, gen=1, props=None, ttl=10):
        return self.req('publish', service_id=sid, generation=gen,
                        service_props=props or {}, ttl=ttl)

    def unpub(self, sid):
        return self.req('unpublish', service_id=sid)

    def sub(self, sub_id, **kw):
        return self.req('subscribe', subscription_id=sub_id, **kw)

    def services(self, **kw):
        r = yield from self.req('services', **kw)
        return {m['service-id']: m for m in r if m['msg-type'] == 'notify'}

    def close(self):
        self.peer.close()

    def dropped(self):
        return self.peer.dropped()


def client(ep, cid, addr="ux:d0", remote="ux:peer", ski=None, lo=2, hi=3):
    c = C(ep, addr, remote, ski)
    r = yield from c.hello(cid, lo, hi)
    assert r and r[0]['msg-type'] == 'complete', r
    return c


def ok(r):
    assert r and r[-1]['msg-type'] == 'complete', r


def fails(r, reason=None):
    assert len(r) == 1 and r[0]['msg-type'] == 'fail', r
    assert reason is None or r[0].get('fail-reason') == reason, r


def run(driver, conf=CONF, rnd=0.5, seconds=60):
    """driver(ep): a generator; an AssertionError in it is the failure."""
    ep = Episode(conf, rnd=rnd)
    vworld.arm(seconds)
    ep.run(driver(ep))
    vworld.disarm()
    if ep.internal:
        sys.stderr.write(ep.internal)
        sys.exit("FAILED")
    for what in (ep.error, ep.hang, ep.died):
        if what:
            sys.exit("FAILED: %s" % (what,))
    if not ep.finished:
        sys.exit("FAILED: did not finish")


def done():
    print("OK")
