"""P04: subscription streams reconstruct the directory."""
from edge import crowd, edges
from world import World


class Streams(World):
    watch = frozenset({'stream'})
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2],
             ["login", 3, 0, 0, "B", 13, 2])
    filters = (0, 1, 2)

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        for c, cid in ((1, 11), (2, 12)):
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "A", cid, 3])
                continue
            for sid in (1, 2):
                s = d.services.get(sid)
                g = s.gen if s else 0
                if sid == 2 and c == 2:
                    continue
                for pi in (0, 1):
                    acts.append(["pub", c, sid, g + 1, pi, 2])
                if s is not None:
                    if s.cid != c + 10 or s.orphan is not None:
                        for pi in (0, 1):
                            acts.append(["pub", c, sid, g, pi, 2])
                    acts.append(["unpub", c, sid])
            acts.append(["close", c])
        if 3 in self.m.conns:
            for i, f in enumerate(self.filters):
                if 20 + i in d.subs:
                    acts.append(["unsub", 3, 20 + i])
                else:
                    acts.append(["sub", 3, 20 + i, f])
            acts.append(["close", 3])
        acts += [["wait", 0.6], ["wait", 2.3]]
        return acts


class Own(Streams):
    """Clients which watch what they publish themselves."""
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2],
             ["sub", 1, 20, 0])

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        s = d.services.get(1)
        g = s.gen if s else 0
        for c in (1, 2):
            if c not in self.m.conns:
                acts.append(["seq", ["login", c, 0, 0, "A", 10 + c, 4 - c],
                             ["sub", c, 19 + c, c - 1]])
                continue
            acts += [["pub", c, 1, g + 1, 0, 2], ["pub", c, 1, g + 1, 1, 2]]
            if s:
                acts.append(["unpub", c, 1])
                if s.orphan is not None or s.cid != 10 + c:
                    acts += [["pub", c, 1, g, pi, 2] for pi in (0, 1)]
            acts.append(["unsub", c, 19 + c] if 19 + c in d.subs
                        else ["sub", c, 19 + c, c - 1])
            acts.append(["close", c])
        return acts + [["wait", 0.6], ["wait", 2.3]]


class Racing(Streams):
    """Simultaneous activity; any order of service must explain the rest."""
    setup = Streams.setup + (["sub", 3, 21, 1],)

    def alphabet(self):
        d = self.m.doms[0]
        g = d.services[1].gen if 1 in d.services else 0
        acts = []
        pairs = [
            [["pub", 1, 1, g + 1, 0, 2], ["pub", 2, 1, g + 1, 1, 2]],
            [["pub", 1, 1, g + 1, 1, 2], ["sub", 3, 20, 0]],
            [["pub", 1, 1, g + 1, 0, 2], ["unsub", 3, 21]],
            [["close", 1], ["sub", 3, 20, 2]],
            [["close", 1], ["pub", 2, 1, g + 1, 1, 2]],
            [["unpub", 1, 1], ["close", 3]],
            [["close", 3], ["pub", 1, 1, g + 1, 0, 2]],
            [["unpub", 2, 1], ["pub", 1, 1, g + 1, 0, 2]],
            [["close", 1], ["close", 3], ["pub", 2, 1, g + 2, 0, 2]],
        ]
        for p in pairs:
            if all(a[1] in self.m.conns for a in p):
                acts += [["par", 0, p], ["par", 1, p]]
        if 3 not in self.m.conns:
            acts.append(["seq", ["login", 3, 0, 0, "B", 13, 2],
                         ["sub", 3, 21, 1]])
        if 1 not in self.m.conns:
            acts.append(["login", 1, 0, 0, "A", 11, 3])
        acts.append(["wait", 2.3])
        return acts


class Many(Streams):
    """Two subscribers with all filters and one publisher."""
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 3, 0, 0, "B", 13, 3],
             ["login", 4, 0, 0, "B", 14, 2], ["sub", 3, 30, 0],
             ["sub", 3, 31, 1], ["sub", 3, 32, 3], ["sub", 4, 40, 2],
             ["sub", 4, 41, 4])

    def alphabet(self):
        d = self.m.doms[0]
        acts = []
        if 1 not in self.m.conns:
            acts.append(["login", 1, 0, 0, "A", 11, 3])
        else:
            for sid in (1, 2):
                g = d.services[sid].gen if sid in d.services else 0
                for pi in range(4):
                    acts.append(["pub", 1, sid, g + 1, pi, 2])
                if g:
                    acts.append(["unpub", 1, sid])
            acts.append(["close", 1])
        for c in (3, 4):
            if c in self.m.conns:
                acts.append(["close", c])
        if 3 in self.m.conns:
            acts.append(["unsub", 3, 31] if 31 in d.subs
                        else ["sub", 3, 31, 1])
        acts.append(["wait", 2.3])
        return acts


def run(check):
    t = check.thorough
    check.explore("streams", Streams, 5 if t else 4)
    check.explore("many", Many, 5 if t else 3)
    check.explore("racing", Racing, 5 if t else 4)
    check.explore("edges", edges(Streams.watch, what="ps"), 4 if t else 3)
    check.explore("crowd", crowd(Streams.watch), 4 if t else 2)
    check.explore("own", Own, 6 if t else 5)
