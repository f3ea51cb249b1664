"""Planted bugs, part 3 (see tools/mkseed.py)."""
H = "from demolib import *\n\n\n"
T = "\n\nrun(drive)\ndone()\n"
SD, SRV, CL, X = "paf/sd.py", "paf/server.py", "paf/client.py", "paf/xcm.py"
S = """import os
import sys
sys.path.insert(0, os.getcwd())
"""
LIMITED = '''

run(drive, CONF + "resources: { total: { services: 0 } }\\n")
done()
'''

BUGS = [
 dict(id="p05-zero-total", property="P05",
  needs="a total limit of zero",
  what="no limit is enforced at all",
  edits=[(SD, "        if limit is not None and limit == self.total(resource_type):",
          "        if limit and limit == self.total(resource_type):")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    fails((yield from a.pub(5)), "insufficient-resources")
    assert not (yield from a.services())
'''+LIMITED),
 dict(id="p12-finished-subscription", property="P12",
  needs="many subscriptions made and given up one after the other",
  what="each one's transaction stays in memory as long as the connection does",
  edits=[(SRV, "            sub_ta = self.sub_tas[sub_id]\n            del self.sub_tas[sub_id]\n",
          "            sub_ta = self.sub_tas[sub_id]\n")],
  demo=H+'''def count():
    import gc
    gc.collect()
    return sum(type(o).__name__ == "Transaction" for o in gc.get_objects())


def drive(ep):
    a = yield from client(ep, 1)
    n = []
    for i in range(20):
        yield from a.sub(100 + i)
        ok((yield from a.req("unsubscribe", subscription_id=100 + i)))
        n.append(count())
    assert n[-1] - n[2] < 10, n
'''+T),
 dict(id="p09-keepalive-v2", property="P09",
  needs="a version 2 client connected by TCP",
  what="nobody notices any longer when its host disappears",
  edits=[(SRV, '        if self.proto_version >= 3 and tp in ("tls", "tcp"):',
          '        if self.proto_version >= 2 and tp in ("tls", "tcp"):')],
  demo=H+'''def drive(ep):
    for c, (lo, hi) in enumerate(((2, 2), (3, 3))):
        a = yield from client(ep, 1 + c, "tcp:127.0.0.1:4711",
                              "tcp:10.0.0.%d:99" % (1 + c), lo=lo, hi=hi)
        assert bool(stub.stub_peer_keepalive(a.peer.ep)) == (lo == 2), lo


run(drive, CONF.replace('"ux:d0"', '"ux:d0", "tcp:127.0.0.1:4711"'))
done()
'''),
 dict(id="p29-mixed-values", property="P29",
  needs="a service one of whose properties has both numbers and strings as values",
  what="listing it fails",
  edits=[("paf/props.py", "        for value in values:\n            if isinstance",
          "        for value in sorted(values):\n            if isinstance")],
  demo=S+'''import paf.props
s = paf.props.to_str({"a": {"x", 3}})
assert s in ("{'a': 'x', 'a': 3}", "{'a': 3, 'a': 'x'}"), s
'''),
 dict(id="p18-leaking-attrs", property="P18",
  needs="two server sockets, the first with TLS attributes which the second lacks",
  what="the second socket gets those of the first one",
  edits=[(SRV, '        xcm_attrs = {"xcm.blocking": False}\n',
          '        xcm_attrs = BASE_XCM_ATTRS\n'),
         (SRV, "\n\nclass Server:", "\n\nBASE_XCM_ATTRS = {\"xcm.blocking\": False}\n\n\nclass Server:")],
  demo=S+'''import types
given = {}
x = types.ModuleType("paf.xcm")
x.error = OSError
x.SO_RECEIVABLE, x.SO_SENDABLE, x.SO_ACCEPTABLE = 1, 2, 4


class Sock:
    def __init__(self, fd):
        self.fd = fd

    def fileno(self):
        return self.fd

    def set_target(self, c):
        pass


def server(addr, attrs={}):
    given[addr] = dict(attrs)
    return Sock(os.pipe()[0])


x.server = server
sys.modules["paf.xcm"] = x
import paf
paf.xcm = x
import paf.eventloop
import paf.server
import paf.sd as sd
conf = types.SimpleNamespace
paf.server.create("d", [conf(addr="tls:*:1", tls_attrs={"cert": "c"}),
                        conf(addr="tls:*:2", tls_attrs={})],
                  sd.resources(), sd.resources(), None, None,
                  paf.eventloop.EventLoop())
assert given["tls:*:1"]["tls.cert_file"] == "c", given
assert "tls.cert_file" not in given["tls:*:2"], given
'''),
 dict(id="p24-bool-as-int", property="P24",
  needs="a boolean attribute set on an existing socket",
  what="the library is given an integer, which it refuses",
  edits=[(X, "        if isinstance(attr_value, bool):\n            set_fun = xcm_attr_set_bool_c\n        elif isinstance(attr_value, int):\n            set_fun = xcm_attr_set_int64_c\n",
          "        if isinstance(attr_value, int):\n            set_fun = xcm_attr_set_int64_c\n        elif isinstance(attr_value, bool):\n            set_fun = xcm_attr_set_bool_c\n")],
  demo=H+'''import paf.xcm as xcm


def drive(ep):
    calls = []
    xcm.xcm_attr_set_bool_c = lambda s, n, v: calls.append(("bool", v)) or 0
    xcm.xcm_attr_set_int64_c = lambda s, n, v: calls.append(("int", v)) or 0
    s = xcm.Socket(1)
    s.set_attr("a", False)
    s.set_attr("a", 7)
    s.xcm_socket = None
    assert calls == [("bool", False), ("int", 7)], calls
    yield
'''+T),
 dict(id="p25-ski-collision", property="P25",
  needs="two TLS clients whose key identifiers differ in where the digits are",
  what="they count as one user",
  edits=[(SRV, '''                    ":".join(["%02x" % b for b in subject_key_id])''',
          '''                    "".join(["%x" % b for b in subject_key_id])''')],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1, "tls:127.0.0.1:4711", "tls:10.0.0.1:5",
                          b"\\x01\\x23")
    b = yield from client(ep, 2, "tls:127.0.0.1:4711", "tls:10.0.0.1:6",
                          b"\\x12\\x03")
    ok((yield from a.pub(5)))
    fails((yield from b.unpub(5)), "permission-denied")


run(drive, CONF.replace('"ux:d0"', '"ux:d0", "tls:127.0.0.1:4711"'))
done()
'''),
 dict(id="p02-unsub-same-user", property="P02",
  needs="two clients of the same user, one of which subscribes",
  what="the other one can end the subscription (and the server fails)",
  edits=[(SD, "        subscription.check_access(self.client_id)\n",
          "        if subscription.user_id != self.user_id:\n            subscription.check_access(self.client_id)\n")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = yield from client(ep, 2)
    yield from a.sub(7)
    fails((yield from b.req("unsubscribe", subscription_id=7)),
          "permission-denied")
'''+T),
 dict(id="p06-accept-then-fail", property="P06",
  needs="a services request with a malformed filter",
  what="the request is accepted and then fails",
  edits=[(SRV, """        try:
            if filter is not None:
                filter = paf.filter.parse(filter)
                self.debug("Accepted list""", """        yield ta.accept()
        try:
            if filter is not None:
                filter = paf.filter.parse(filter)
                self.debug("Accepted list"""),
         (SRV, """                self.debug("Accepted list request for all services.",
                           LogCategory.CORE)
            yield ta.accept()
""", """                self.debug("Accepted list request for all services.",
                           LogCategory.CORE)
""")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    fails((yield from a.req("services", filter="(")),
          "invalid-filter-syntax")
'''+T),
 dict(id="p08-sticky-version", property="P08",
  needs="a client whose first hello was refused, and whose second one offers other versions",
  what="the version chosen need not be one offered",
  edits=[(SRV, """            self.proto_version_limit.get_highest_allowed(min_version,
                                                         max_version)
""", """            self.proto_version or \\
            self.proto_version_limit.get_highest_allowed(min_version,
                                                         max_version)
""")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = C(ep)
    fails((yield from b.hello(1, 2, 3)), "client-id-exists")
    a.close()
    yield
    r = yield from b.hello(1, 2, 2)
    ok(r)
    assert r[0]["protocol-version"] == 2, r
'''+T),
]
