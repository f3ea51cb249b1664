"""Planted bugs, part 1 (see tools/mkseed.py)."""
H = "from demolib import *\n\n\n"
T = "\n\nrun(drive)\ndone()\n"
SD, SRV = "paf/sd.py", "paf/server.py"

BUGS = [
 dict(id="p01-orphan-ttl", property="P01",
  needs="an orphan republished at the same generation but with another TTL",
  what="the republish is accepted although TTL differs; the listing keeps the old TTL",
  edits=[(SD, "if service_props != service.props() or ttl != service.ttl():",
   "if service_props != service.props() or \\\n                   (ttl != service.ttl() and not service.is_orphan()):")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    ok((yield from a.pub(5, 1, {"k": ["x"]}, 20)))
    a.close()
    yield
    b = yield from client(ep, 2)
    fails((yield from b.pub(5, 1, {"k": ["x"]}, 30)),
          "same-generation-but-different")
'''+T),
 dict(id="p02-same-content-capture", property="P02",
  needs="another user publishing exactly the same service at the same generation",
  what="the ownership of the service moves to the other user's client",
  edits=[(SD, """            service.check_access(self.user_id)

            if generation == service.generation():
                if""", """            if generation != service.generation():
                service.check_access(self.user_id)

            if generation == service.generation():
                if""")],
  demo=H+'''CONF = CONF.replace("ux:d0", "tcp:127.0.0.1:7")


def drive(ep):
    a = yield from client(ep, 1, "tcp:127.0.0.1:7", "tcp:10.0.0.1:1")
    b = yield from client(ep, 2, "tcp:127.0.0.1:7", "tcp:10.0.0.2:1")
    ok((yield from a.pub(5, 1, {}, 100)))
    fails((yield from b.pub(5, 1, {}, 100)), "permission-denied")
    assert (yield from a.services())[5]["client-id"] == 1
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p03-orphan-since-last-seen", property="P03",
  needs="an owner which is silent for a while before its connection ends",
  what="the service is marked as orphan since the last message rather than since the end of the connection, and thus removed too early",
  edits=[(SD, "        self.disconnected_at = time.time()\n        self.uninstall",
          "        self.disconnected_at = self.last_seen\n        self.uninstall")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1, hi=2)
    ok((yield from a.pub(5, 1, {}, 10)))
    b = yield from client(ep, 2, hi=2)
    yield 6.0
    t = ep.now
    a.close()
    yield
    s = yield from b.services()
    assert abs(s[5]["orphan-since"] - t) < 0.1, s
    yield 8.0
    s = yield from b.services()
    assert 5 in s, "removed before its TTL"
'''+T),
 dict(id="p03-late-orphan-timer", property="P03",
  needs="an orphan which is republished with a longer TTL by a new client that leaves again before the first deadline",
  what="the timer of the first orphan period is not cancelled when the new owner has a longer TTL, and removes the service",
  edits=[(SD, """            if was_orphan and not is_orphan:
                self.remove_orphan_timer(service)
""", """            if was_orphan and not is_orphan:
                if service.ttl() <= service.prev_ttl():
                    self.remove_orphan_timer(service)
""")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    ok((yield from a.pub(5, 1, {}, 5)))
    a.close()
    yield 3.0
    b = yield from client(ep, 2)
    ok((yield from b.pub(5, 2, {}, 50)))
    m = yield from client(ep, 3)
    b.close()
    yield 6.0
    s = yield from m.services()
    assert 5 in s, "orphan removed by a stale timer"
'''+T),
 dict(id="p04-owner-change-untold", property="P04",
  needs="a service taken over at the same generation by another client of the same user while somebody subscribes",
  what="the subscriber is not told about the new owner",
  edits=[(SD, """            if self.matches(before) and self.matches(after):
                self.match_cb""", """            if self.matches(before) and self.matches(after):
                if service.generation() == service.prev_generation() and \\
                   service.orphan_since() == service.prev_orphan_since():
                    return
                self.match_cb""")],
  demo=H+'''def drive(ep):
    s = yield from client(ep, 9)
    r = yield from s.sub(77)
    ta = r[0]["ta-id"]
    a = yield from client(ep, 1)
    ok((yield from a.pub(5, 1, {"k": ["x"]}, 10)))
    b = yield from client(ep, 2)
    ok((yield from b.pub(5, 1, {"k": ["x"]}, 10)))
    n = s.under(ta)
    assert n[-1].get("client-id") == 2, n
'''+T),
 dict(id="p05-duplicate-sub-leak", property="P05",
  needs="a subscribe request repeating an id in use, then use of the remaining capacity",
  what="the refused request consumes a subscription of the user's allowance",
  edits=[(SD, """        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)

        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)
""", """        self.resource_manager.allocate(self.user_id,
                                       ResourceType.SUBSCRIPTION)

        if self.db.has_subscription(sub_id):
            raise AlreadyExistsError("subscription", sub_id)
""")],
  demo=H+'''CONF += "resources: { user: { subscriptions: 2 } }\\n"


def drive(ep):
    a = yield from client(ep, 1)
    r = yield from a.sub(1)
    assert r[0]["msg-type"] == "accept"
    fails((yield from a.sub(1)), "subscription-id-exists")
    r = yield from a.sub(2)
    assert r[0]["msg-type"] == "accept", r
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p06-failed-sub-hijack", property="P06",
  needs="a client subscribing twice with the same id, and a matching change afterwards",
  what="notifications of the first subscription are sent under the failed transaction",
  edits=[(SRV, """            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
            self.sub_tas[sub_id] = ta
""", """            self.sub_tas[sub_id] = ta
            self.sd.create_subscription(self.client_id, sub_id, filter,
                                        self.subscription_triggered)
""")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    r = yield from a.sub(1)
    ta = r[0]["ta-id"]
    r = yield from a.sub(1)
    fails(r, "subscription-id-exists")
    ta2 = r[0]["ta-id"]
    ok((yield from a.pub(5)))
    assert len(a.under(ta)) == 2, a.msgs
    assert len(a.under(ta2)) == 1, a.msgs
'''+T),
 dict(id="p08-gate-on-version", property="P08",
  needs="a connection whose hello was refused (client id in use) and which goes on to issue commands",
  what="commands are executed, in the name of the connected client, without a successful handshake",
  edits=[(SRV, "        if in_msg.cmd() == proto.CMD_HELLO or self.handshaked:",
          "        if in_msg.cmd() == proto.CMD_HELLO or \\\n           self.proto_version is not None:"),
         ],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    b = C(ep)
    fails((yield from b.hello(1)), "client-id-exists")
    fails((yield from b.pub(5)), "no-hello")
    assert (yield from a.services()) == {}
'''+T),
 dict(id="p09-live-client-dropped", property="P09",
  needs="a v3 client whose last message comes shortly before the idle warning is due",
  what="messages do not put off the idle warning already scheduled, so the client is dropped after little more than half its idle limit",
  edits=[(SD, """        if self.idle_state != IdleState.TIMED_OUT:
            self.idle_state = IdleState.ACTIVE

            if self.idle_limit is not None:
                self.install_idle_warning_timer()
""", """        if self.idle_state != IdleState.TIMED_OUT:
            pending = self.idle_state == IdleState.ACTIVE and \\
                self.idle_timer is not None and len(self.services) == 0
            self.idle_state = IdleState.ACTIVE

            if self.idle_limit is not None and not pending:
                self.install_idle_warning_timer()
""")],
  demo=H+'''CONF = CONF.replace("1000", "10")


def drive(ep):
    a = yield from client(ep, 1)
    yield 4.5
    ok((yield from a.req("ping")))
    yield 8.0
    assert not a.dropped(), "dropped after 8 of 10 s of silence"
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p10-lost-wakeup", property="P10",
  needs="a full domain, a waiting client and the departure of a connection",
  what="listening is not resumed, so the waiting client is never served",
  edits=[(SRV, """        if self.max_clients_reached():
            for source in self.server_socks.keys():
                source.update(xcm.SO_ACCEPTABLE)

        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""", """        if conn.handshaked:
            if self.max_clients_reached():
                for source in self.server_socks.keys():
                    source.update(xcm.SO_ACCEPTABLE)
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""")],
  demo=H+'''CONF += "resources: { total: { clients: 1 } }\\n"


def drive(ep):
    a = C(ep)                  # never says hello
    yield
    b = C(ep)
    yield
    b.post("hello", client_id=2, protocol_minimum_version=2,
           protocol_maximum_version=3)
    yield 6.0
    m = b.collect()
    assert m and m[0]["msg-type"] == "complete", m
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p10-cleanout-iteration", property="P10",
  needs="a connection which never says hello, while another one is still in its first two seconds",
  what="the server dies when dropping the stalled connection",
  edits=[(SRV, """                    if handshake_time > MAX_HANDSHAKE_TIME:
                        failed.append((conn, handshake_time))
            for conn, handshake_time in failed:
                self.clean_out_connection(conn, handshake_time)
""", """                    if handshake_time > MAX_HANDSHAKE_TIME:
                        self.clean_out_connection(conn, handshake_time)
""")],
  demo=H+'''def drive(ep):
    a = C(ep)
    yield 1.5
    b = C(ep)
    yield 2.0
    assert a.dropped()
    c = yield from client(ep, 3)
'''+T),
 dict(id="p11-reorder", property="P11",
  needs="a send that would block while further messages are queued",
  what="the message which could not be sent is put last in the queue",
  edits=[(SRV, "                self.out_wire_msgs.appendleft(out_wire_msg)",
          "                self.out_wire_msgs.append(out_wire_msg)\n                break")],
  demo=H+'''def drive(ep):
    a = yield from client(ep, 1)
    for i in range(5):
        ok((yield from a.pub(i)))
    a.peer.cap(2)
    ta = a.post("services")
    yield
    a.peer.cap(1000)
    yield
    t = [m["msg-type"] for m in a.under(ta)]
    assert t == ["accept"] + ["notify"] * 5 + ["complete"], t
'''+T),
 dict(id="p12-consumer-left", property="P12",
  needs="a user whose last resource is given back by a disconnect",
  what="the accounting record of every user that ever connected is kept for ever",
  edits=[(SD, """        consumer.deallocate(resource_type)
        if not consumer.has_allocations():
            del self.consumers[user_id]
""", """        consumer.deallocate(resource_type)
        if resource_type != ResourceType.CLIENT and \\
           not consumer.has_allocations():
            del self.consumers[user_id]
""")],
  demo=H.replace("*", "*\nimport gc\nimport paf.sd")+'''CONF = CONF.replace("ux:d0", "tcp:127.0.0.1:7")


def drive(ep):
    for i in range(20):
        a = yield from client(ep, 1, "tcp:127.0.0.1:7",
                              "tcp:10.0.0.%d:5" % (i + 1))
        a.close()
        yield
    gc.collect()
    n = len([o for o in gc.get_objects() if isinstance(o, paf.sd.Consumer)])
    assert n < 5, "%d records of users that are gone" % n
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p22-shared-orphan-timers", property="P22",
  needs="two domains with orphans of the same service id at the same time",
  what="the orphan timers of all domains share one table, so one domain's timer handling hits the other's",
  edits=[(SD, """class ServiceDiscovery:
    def __init__""", """class ServiceDiscovery:
    orphan_timers = {}

    def __init__"""), (SD, "        self.db = DB()\n        self.orphan_timers = {}\n",
     "        self.db = DB()\n")],
  demo=H+'''CONF = CONF.replace("\\nlog:", """\\n- name: d1
  addrs: [ "ux:d1" ]
log:""")


def drive(ep):
    a = yield from client(ep, 1, "ux:d0")
    b = yield from client(ep, 1, "ux:d1")
    ok((yield from a.pub(5, 1, {}, 50)))
    ok((yield from b.pub(5, 1, {}, 5)))
    a.close()
    yield
    b.close()
    yield
    a = yield from client(ep, 1, "ux:d0")
    ok((yield from a.pub(5, 1, {}, 50)))
    yield 6.0
    b = yield from client(ep, 2, "ux:d1")
    assert (yield from b.services()) == {}, "orphan not removed"
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p23-terminate-iteration", property="P23",
  needs="SIGTERM while two handshaked clients are connected",
  what="the server dies with an internal error instead of closing its connections",
  edits=[(SRV, """        conns = [conn for conn in chain(self.clientless_connections,
                                        self.client_connections.values())]

        for conn in conns:
            conn.terminate()
""", """        conns = [conn for conn in self.clientless_connections]

        for conn in chain(conns, self.client_connections.values()):
            conn.terminate()
""")],
  demo='''import os
import signal
import sys
from demolib import *

status = []


def drive(ep):
    ep.use_real_fds = True
    a = yield from client(ep, 1)
    b = yield from client(ep, 2)
    os.kill(os.getpid(), signal.SIGTERM)
    yield
    yield


ep = Episode(CONF)
vworld.arm(60)
ep.run(drive(ep))
vworld.disarm()
if ep.internal:
    sys.exit(ep.internal)
if ep.exit_code not in (0, None) or vworld.stub.stub_live() > 0:
    sys.exit("FAILED: exit %r, %d sockets left" %
             (ep.exit_code, vworld.stub.stub_live()))
done()
'''),
 dict(id="p25-ipv6-user", property="P25",
  needs="two TCP clients with different IPv6 addresses sharing a first group",
  what="both are taken for the same user, so one may change the other's services",
  edits=[(SRV, """            ip = ip_port.rsplit(":", 1)[0]""", """            ip = ip_port.split(":")[0]""")],
  demo=H+'''CONF = CONF.replace("ux:d0", "tcp:127.0.0.1:7")


def drive(ep):
    a = yield from client(ep, 1, "tcp:127.0.0.1:7", "tcp:[fd00::1]:5")
    b = yield from client(ep, 2, "tcp:127.0.0.1:7", "tcp:[fd00::2]:5")
    ok((yield from a.pub(5, 1)))
    fails((yield from b.unpub(5)), "permission-denied")
'''+T.replace("run(drive)", "run(drive, CONF)")),
 dict(id="p26-rounded-time", property="P26",
  needs="a client connecting in the second half of a second",
  what="the connection time is listed up to half a second in the future",
  edits=[(SRV, """                            int(conn.connect_time), idle_time,""",
          """                            round(conn.connect_time), idle_time,""")],
  demo=H+'''def drive(ep):
    yield 0.7
    a = yield from client(ep, 1)
    r = yield from a.req("clients")
    n = [m for m in r if m["msg-type"] == "notify"]
    assert n[0]["time"] <= ep.now, (n, ep.now)
'''+T),
 dict(id="p28-second-query", property="P28",
  needs="a tracked client which does not answer a query but sends another command and then goes quiet again",
  what="the server sends a second query while the first is outstanding",
  edits=[(SRV, "        elif self.is_tracked() and not self.has_outstanding_track_query():",
          "        elif self.is_tracked():")],
  demo=H+'''CONF = CONF.replace("1000", "10")


def drive(ep):
    a = yield from client(ep, 1)
    r = yield from a.req("track")
    ta = r[0]["ta-id"]
    yield 6.0
    assert len(a.under(ta)) == 2, a.msgs
    ok((yield from a.req("ping")))
    yield 6.0
    q = [m for m in a.under(ta) if m.get("track-type") == "query"]
    assert len(q) == 1, q
'''+T.replace("run(drive)", "run(drive, CONF)")),
]
