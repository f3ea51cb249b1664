"""The daemon as a process of its own, on the virtual transport."""
import errno
import os
import signal
import sys

import vworld
from vworld import Episode, stub, OP_SERVER, Clock
import paf.daemon
import paf.logging


def main(spec):
    addrs, argv, n = [], ["pafd", "-n"], 0
    for k in spec["shape"]:
        d = ["ux:s%d" % (n + i) for i in range(k)]
        n += k
        addrs += d
        argv += ["-m", "+".join(d)]
    if spec["kind"] == "dup":
        argv += ["-m", addrs[-1]]
    if spec["kind"] == "hook":
        argv += ["-r", "p23child.broken_hook"]
    ep = Episode("")
    ep.use_real_fds = True

    def driver():
        peers = []
        yield
        if spec["kind"] == "internal":
            Clock.boom = spec["at"]
            ep.connect(addrs[0], remote="ux:c")
            yield
            Clock.boom = 1
            ep.connect(addrs[0], remote="ux:c")
            yield
        elif spec["kind"] == "signal":
            for c in range(spec["clients"]):
                p = ep.connect(addrs[c % len(addrs)], remote="ux:c%d" % c)
                peers.append(p)
                yield
                if c:
                    p.send(ta_cmd="hello", ta_id=1, msg_type="request",
                           client_id=c, protocol_minimum_version=2,
                           protocol_maximum_version=3)
                    yield
                    if spec["extra"]:
                        p.send(ta_cmd="publish", ta_id=2, msg_type="request",
                               service_id=c, generation=1, service_props={},
                               ttl=10)
                        yield
                    if spec["extra"] == "full":
                        p.cap(p.pending())
                        for i in range(100):
                            p.send(ta_cmd="ping", ta_id=3 + i,
                                   msg_type="request")
                        yield
            os.kill(os.getpid(), spec["signo"])
            yield
        # still there
        sys.stdout.write("the server goes on\n")
        sys.stdout.flush()
        os._exit(99 if spec["kind"] == "signal" else 0)

    ep.gen = driver()
    vworld.CUR = ep
    if spec["kind"] == "fail":
        stub.stub_fail(OP_SERVER, errno.EADDRINUSE, spec["at"], 1)
    paf.daemon.main(argv)


def broken_hook(servers):
    raise ValueError("broken")
