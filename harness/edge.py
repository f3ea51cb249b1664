"""Scenarios with the least and greatest ids and values, and with many
services, shared by the properties which depend on them."""
from world import World

MAX = (1 << 63) - 1


class Edges(World):
    """Ids, generations and lifetimes at the ends of their ranges."""
    users = {1: "A", 2: "A"}
    cids = {1: 0, 2: MAX}
    vers = {1: 3, 2: 2}
    ids = (0, MAX)
    what = "psux"       # kinds of commands

    @property
    def setup(self):
        return [["login", c, 0, 0, self.users[c], self.cids[c], self.vers[c]]
                for c in (1, 2)]

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        for c in (1, 2):
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, 0, 0, self.users[c], self.cids[c],
                             self.vers[c]])
                continue
            for i in self.ids:
                if "p" in self.what:
                    acts += [["pub", c, i, g, pv, t] for g, pv, t in
                             ((0, 4, 0), (1, 5, MAX), (MAX, 5, 0),
                              (0, 6, 0), (0, 7, 0))]
                if i in d.services or c == 1:
                    acts.append(["unpub", c, i])
                if "s" in self.what:
                    acts.append(["sub", c, i, 0])
                    acts.append(["unsub", c, i])
            if "s" in self.what:
                acts += [["sub", c, 5, 6], ["svcs", c, 6]]
            if "x" in self.what:
                acts += [["hello", c, 5, 2, 3],
                         ["hello", c, self.cids[c], 2, 3],
                         ["hello", c, self.cids[3 - c], 2, 3]]
            acts.append(["close", c])
        acts.append(["wait", 1.3])
        return acts


class Crowd(World):
    """Hundreds of services in one listing, one activation, one departure."""
    size = 300
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2],
             ["login", 3, 0, 0, "B", 13, 3])

    def start(self, ep):
        yield from World.start(self, ep)
        for i in range(self.size):
            yield from self.do(ep, ["pub", 1, i, 1, i % 4, 3])

    def alphabet(self):
        acts = []
        if 3 in self.m.conns:
            for f in range(5):
                acts += [["svcs", 3, f]]
            acts += [["sub", 3, 1, 0], ["sub", 3, 2, 1], ["clients", 3]]
        if 1 in self.m.conns:
            acts.append(["close", 1])
        last = self.size - 1
        acts += [["pub", 2, last, 1, last % 4, 3], ["pub", 2, last, 2, 0, 9],
                 ["unpub", 2, last], ["wait", 3.5]]
        return acts


def edges(watch_, **kw):
    return type("Edges", (Edges,), dict(kw, watch=watch_))


def crowd(watch_, **kw):
    return type("Crowd", (Crowd,), dict(kw, watch=watch_))
