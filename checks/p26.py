"""P26: the clients listing."""
from world import World


class Clients(World):
    watch = frozenset({'clients'})
    # tracked clients are queried after 2 s and dropped after 4 s of silence
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(4, 4)),)
    setup = (["wait", 0.3], ["login", 1, 0, 0, "A", 11, 3], ["track", 1],
             ["wait", 0.43], ["login", 2, 0, 0, "B", 12, 2])
    slots = {1: ("A", 11, 3), 2: ("B", 12, 2), 3: ("T", 11, 3)}

    def mismatch(self, tags, msg):
        tags = {tags} if isinstance(tags, str) else set(tags)
        if 'clients' in tags and tags & {'drop', 'nodrop'}:
            tags.discard('clients')
        World.mismatch(self, tags, msg)

    def alphabet(self):
        acts = []
        for c, (user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, 0, 0, user, cid, ver])
                if c == 3:
                    acts.append(["connect", c, 0, 0, user])
                continue
            if not x.hs:
                acts += [["hello", c, cid, 3, 3], ["hello", c, cid, 4, 7],
                         ["hello", c, cid + 5, 2, 9], ["close", c]]
                continue
            acts += [["ping", c], ["clients", c], ["close", c]]
            if x.ver == 3:
                if x.track is None:
                    acts.append(["track", c])
                else:
                    acts.append(["tq", c])
                    if x.query_at is not None:
                        acts.append(["tr", c])
        acts += [["wait", 0.71], ["wait", 2.13]]
        return acts

    def finish(self, ep):
        # seen through both protocol versions
        for c in (1, 2, 3):
            x = self.m.conns.get(c)
            if x is not None and x.hs:
                yield from self.do(ep, ["clients", c])
        yield from self.probe(ep, ("clients",))


class Latency(Clients):
    """One tracked client: queries, replies and other traffic over time."""
    slots = {1: ("A", 11, 3)}
    setup = (["login", 1, 0, 0, "A", 11, 3],)

    def alphabet(self):
        acts = Clients.alphabet(self)
        if 1 in self.m.conns:
            acts.append(["track", 1])
            acts.append(["pub", 1, 1, 1, 0, 2])
        acts += [["wait", 1.37]]
        return acts


class Limits(Clients):
    """Refused handshakes are not listed."""
    doms = (dict(name="d0", addrs=("ux:d0",)),)
    user_limits = dict(clients=1)
    setup = (["login", 2, 0, 0, "B", 12, 2],)
    slots = {1: ("A", 11, 3), 2: ("B", 12, 2), 3: ("A", 13, 3)}


class Ends(Clients):
    """The least and the greatest client ids."""
    setup = (["wait", 0.3], ["login", 1, 0, 0, "A", 0, 3], ["track", 1],
             ["wait", 0.43], ["login", 2, 0, 0, "B", (1 << 63) - 1, 2])
    slots = {1: ("A", 0, 3), 2: ("B", (1 << 63) - 1, 2), 3: ("T", 0, 3)}


class Crowd(World):
    """Many clients."""
    watch = Clients.watch
    doms = (dict(name="d0", addrs=("ux:d0",), idle=(4, 4)),)
    many = 40

    def start(self, ep):
        yield from World.start(self, ep)
        for i in range(self.many):
            yield from self.do(ep, ["login", 1 + i, 0, 0, "ABT"[i % 3],
                                    100 + i, 2 + i % 2])
            if i % 4 == 1:
                yield from self.do(ep, ["track", 1 + i])

    def alphabet(self):
        acts = [["wait", 0.37], ["wait", 4.5]]
        for c in (1, 2, 40):
            if c in self.m.conns:
                acts += [["close", c], ["clients", c], ["ping", c]]
        return acts


def run(check):
    t = check.thorough
    check.explore("clients", Clients, 5 if t else 4)
    check.explore("extreme-ids", Ends, 4 if t else 3)
    check.explore("crowd", Crowd, 3 if t else 2)
    check.explore("latency", Latency, 7 if t else 5)
    check.explore("limits", Limits, 5 if t else 3)
