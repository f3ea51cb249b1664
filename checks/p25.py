"""P25: users are told apart by the credentials of the transport."""
import itertools

import world
from world import World

# label -> (remote address, ski or None, attribute unavailable, user)
PEERS = {
    # local transports: one common user whatever the address
    "ux1": ("ux:peer1", None, "L"), "ux2": ("ux:tcp:10.0.0.1", None, "L"),
    "ux3": ("ux:", None, "L"), "uxf": ("uxf:/tmp/x", None, "L"),
    "sctp": ("sctp:10.0.0.1:5", None, "L"),
    # tcp: the address without the port
    "t1": ("tcp:10.0.0.1:5", None, "10.0.0.1"),
    "t1b": ("tcp:10.0.0.1:50001", None, "10.0.0.1"),
    "t2": ("tcp:10.0.0.2:5", None, "10.0.0.2"),
    "t3": ("tcp:110.0.0.1:5", None, "110.0.0.1"),
    "t4": ("tcp:10.0.0.11:5", None, "10.0.0.11"),
    "t6": ("tcp:[fd00::1]:5", None, "[fd00::1]"),
    "t6b": ("tcp:[fd00::1]:6", None, "[fd00::1]"),
    "t6c": ("tcp:[fd00::1:5]:6", None, "[fd00::1:5]"),
    "t6d": ("tcp:[fd00::2]:5", None, "[fd00::2]"),
    "t6e": ("tcp:[::1]:5", None, "[::1]"),
    "t6f": ("tcp:[::]:15", None, "[::]"),
    # a key identifier on a transport other than TLS means nothing
    "ts": ("tcp:10.0.0.1:7", b"\x01\x02", "10.0.0.1"),
    # tls: the key identifier, wherever the peer is
    "s1": ("tls:10.0.0.1:5", b"\x01\x02", "ski:01:02"),
    "s1b": ("tls:10.0.0.9:6", b"\x01\x02", "ski:01:02"),
    "s1c": ("tls:[fd00::1]:6", b"\x01\x02", "ski:01:02"),
    "s2": ("tls:10.0.0.1:5", b"\x01\x03", "ski:01:03"),
    "s3": ("tls:10.0.0.1:5", b"\x01\x02\x03", "ski:01:02:03"),
    "s4": ("tls:10.0.0.1:5", b"\x10\x02", "ski:10:02"),
    "s5": ("tls:10.0.0.1:5", b"\x00", "ski:00"),
    "s6": ("tls:10.0.0.1:5", b"\x0a\xff" * 10, "ski:" + "0aff" * 10),
    "s7": ("tls:10.0.0.1:5", b"\x0a\xff" * 9 + b"\x0a\xfe", "ski:long2"),
    "s8": ("tls:10.0.0.1:5", b"10.0.0.1", "ski:ascii"),
    "s9": ("tls:10.0.0.1:5", b"\x12", "ski:12"),
    "s10": ("tls:10.0.0.1:5", b"\x01\x02\x00", "ski:01:02:00"),
    # tls without one: the address
    "n1": ("tls:10.0.0.1:5", None, "10.0.0.1"),
    "n1b": ("tls:10.0.0.1:6", None, "10.0.0.1"),
    "n2": ("tls:10.0.0.2:6", None, "10.0.0.2"),
    "n6": ("tls:[fd00::1]:6", None, "[fd00::1]"),
    "n6b": ("tls:[fd00::2]:6", None, "[fd00::2]"),
}


class Users(World):
    watch = frozenset({'acc', 'res', 'list', 'svc', 'hs'})
    user_limits = dict(services=2)

    def start(self, ep):
        for k, (addr, ski, user) in PEERS.items():
            world.USERID[k] = user
        return World.start(self, ep)

    def remote(self, user, c):
        if user in PEERS:
            return PEERS[user][:2]
        return World.remote(self, user, c)


def pair(a, b):
    """Who may change whose service, and whose limits are charged?"""
    return [["login", 1, 0, 0, a, 11, 3], ["pub", 1, 1, 1, 0, 5],
            ["login", 2, 0, 0, b, 12, 2], ["pub", 2, 2, 1, 0, 5],
            ["pub", 2, 3, 1, 0, 5],             # third of one user, or not
            ["pub", 2, 1, 2, 1, 5], ["unpub", 1, 2], ["close", 1],
            ["login", 3, 0, 0, b, 11, 3],       # same client id
            ["pub", 2, 4, 1, 0, 5], ["unpub", 2, 1]]


class Story(Users):
    def do(self, ep, a):
        if a[0] in ("pub", "unpub") and (
                a[1] not in self.m.conns or not self.m.conns[a[1]].hs):
            yield
            return
        yield from Users.do(self, ep, a)


def run(check):
    labels = list(PEERS)
    pairs = [(a, b) for a in labels for b in labels]
    check.cases("pairs", Story, [pair(a, b) for a, b in pairs])
    if check.thorough:
        tri = []
        for a, b, c in itertools.permutations(labels, 3):
            tri.append([["login", 1, 0, 0, a, 11, 3], ["pub", 1, 1, 1, 0, 5],
                        ["login", 2, 0, 0, b, 12, 2], ["pub", 2, 2, 1, 0, 5],
                        ["login", 3, 0, 0, c, 13, 2], ["pub", 3, 1, 2, 1, 5],
                        ["pub", 3, 2, 2, 1, 5], ["pub", 3, 3, 1, 1, 5]])
        check.cases("triples", Story, tri)
