"""P02: access control between users and between clients of one user."""
from edge import edges
from world import World

# slots: (label, user, client id); two of them compete for client id 11
SLOTS = {1: ("A", 11, 3), 2: ("B", 12, 2), 3: ("A", 13, 2), 4: ("B", 11, 3)}
FX = frozenset({'list', 'subs', 'svc', 'sub', 'stream', 'clients', 'drop',
                'orphan', 'hs'})


class Access(World):
    watch = frozenset({'acc'})
    slots = SLOTS
    setup = (["login", 1, 0, 0, "A", 11, 3], ["pub", 1, 1, 1, 0, 5],
             ["login", 2, 0, 0, "B", 12, 2], ["sub", 1, 1, 0])

    def start(self, ep):
        self.denied = False
        return World.start(self, ep)

    def judge(self, m, obs):
        for phs in m.exp.out.values():
            for ph in phs.values():
                for x in ph:
                    if x[0] == 'one' and 'permission-denied' in \
                            x[3].get('reasons', ()):
                        self.denied = True
                        self.note("denials")
        return World.judge(self, m, obs)

    def mismatch(self, tags, msg):
        # once something was denied, any deviation may be its effect
        tags = {tags} if isinstance(tags, str) else set(tags)
        if self.denied and tags & FX:
            tags.add('acc')
        World.mismatch(self, tags, msg)

    def alphabet(self):
        acts = []
        for c, (user, cid, ver) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, 0, 0, user, cid, ver])
                continue
            if not x.hs:
                acts.append(["hello", c, cid, ver, ver])
                acts.append(["close", c])
                continue
            s = self.m.doms[0].services.get(1)
            acts.append(["pub", c, 1, s.gen if s else 1, 0, 5])
            acts.append(["pub", c, 1, (s.gen if s else 0) + 1, 1, 5])
            acts += [["unpub", c, 1], ["sub", c, 1, 0], ["unsub", c, 1],
                     ["close", c]]
        acts.append(["wait", 5.3])
        return acts

    def model_key(self):
        return [World.model_key(self), self.denied]


class SameIp(Access):
    """Users that differ only in their certificate, or only in transport."""
    slots = {1: ("T", 11, 3), 2: ("U", 12, 2), 3: ("A", 13, 2),
             4: ("L", 11, 3)}
    setup = (["login", 1, 0, 0, "T", 11, 3], ["pub", 1, 1, 1, 0, 5],
             ["login", 2, 0, 0, "U", 12, 2], ["login", 3, 0, 0, "A", 13, 2])


def run(check):
    d = 5 if check.thorough else 4
    check.explore("access", Access, d)
    check.explore("same-address", SameIp, 4 if check.thorough else 3)
    check.explore("edges", edges(Access.watch, what="ps",
                                 users={1: "A", 2: "B"}),
                  4 if check.thorough else 3)
