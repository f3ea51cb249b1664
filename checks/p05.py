"""P05: resource limits are exact and never leak."""
from world import World


class Limits(World):
    watch = frozenset({'res'})
    user_limits = dict(clients=2, services=2, subscriptions=1)
    total_limits = dict(clients=30, services=3, subscriptions=2)
    doms = (dict(name="d0", addrs=("ux:d0",)),)
    # label -> (user, client id)
    slots = {1: ("A", 11), 2: ("A", 12), 3: ("A", 13), 4: ("B", 14)}
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 4, 0, 0, "B", 14, 2])
    capacity = {"A": (60, 3), "B": (70, 3)}

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        for c, (user, cid) in self.slots.items():
            x = self.m.conns.get(c)
            if x is None:
                acts.append(["login", c, 0, 0, user, cid, 3])
                continue
            if not x.hs:
                acts += [["hello", c, cid, 2, 3], ["close", c]]
                continue
            for sid in ((1, 2, 3) if c in (1, 4) else (1,)):
                s = d.services.get(sid)
                if s is None:
                    acts.append(["pub", c, sid, 1, 0, 2])
                else:
                    acts.append(["pub", c, sid, s.gen + 1, 1, 2])
                    if s.gen < 3:
                        acts.append(["pub", c, sid, s.gen, s.gen > 1, 2])
                    acts.append(["unpub", c, sid])
            for sub in (1, 2) if c == 1 else (1 + c // 4,):
                acts.append(["unsub", c, sub] if sub in d.subs
                            else ["sub", c, sub, 0])
            if c == 1:
                acts.append(["sub", c, 7, 5])       # malformed filter
            acts.append(["close", c])
            refused = self.refused(c)
            if refused:
                acts.append(["seq"] + refused)
        acts.append(["wait", 2.2])
        return acts

    def refused(self, c):
        """Requests which fail for other reasons than limits."""
        d = self.m.doms[0]
        acts = [["sub", c, s, 0] for s in sorted(d.subs)[:2]]
        for sid, s in sorted(d.services.items())[:2]:
            acts.append(["pub", c, sid, s.gen - 1, 0, 2])
            acts.append(["pub", c, sid, s.gen, 2, 9])
            if s.user != self.m.conns[c].user:
                acts.append(["unpub", c, sid])
        acts += [["unpub", c, 999], ["unsub", c, 999]]
        for s in sorted(d.subs):
            if d.subs[s].conn != c:
                acts.append(["unsub", c, s])
        return acts

    def finish(self, ep):
        """Release everything, then measure the capacity from scratch."""
        yield from self.probe(ep, ("services", "subscriptions"))
        for c in list(self.m.conns):
            if c < 900:
                yield from self.do(ep, ["close", c])
        if self.m.doms[0].services:
            yield from self.do(ep, ["wait", 2.5])
        sid = 100
        for user, (base, n) in self.capacity.items():
            for c in range(base, base + n):
                yield from self.do(ep, ["login", c, 0, 0, user, c, 2])
                if not self.m.conns[c].hs:
                    continue
                for i in range(2):
                    sid += 1
                    yield from self.do(ep, ["pub", c, sid, 1, 0, 2])
                yield from self.do(ep, ["sub", c, c, 0])
        # one more round after giving back one of each
        yield from self.do(ep, ["unpub", 60, 101])
        yield from self.do(ep, ["unsub", 60, 60])
        yield from self.do(ep, ["pub", 61, 150, 1, 0, 2])
        yield from self.do(ep, ["pub", 61, 151, 1, 0, 2])
        yield from self.do(ep, ["sub", 61, 150, 0])
        yield from self.do(ep, ["sub", 60, 151, 0])


class TotalOnly(Limits):
    user_limits = {}
    total_limits = dict(services=1, subscriptions=1)


class UserOnly(Limits):
    user_limits = dict(clients=1, services=1, subscriptions=2)
    total_limits = {}


def none_of(user, total):
    """Limits of zero."""
    class NoneOf(Limits):
        user_limits = user
        total_limits = total
        setup = (["login", 1, 0, 0, "A", 11, 3],)
        slots = {1: ("A", 11), 4: ("B", 14)}
    return NoneOf


class Transfers(Limits):
    """Services moving between clients of one user at the limit."""
    user_limits = dict(clients=3, services=1, subscriptions=3)
    total_limits = {}
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "A", 12, 2],
             ["pub", 1, 1, 1, 0, 2])

    def alphabet(self):
        acts = []
        d = self.m.doms[0]
        s = d.services.get(1)
        for c in (1, 2):
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "A", 10 + c, 3])
                continue
            if s is None:
                acts.append(["pub", c, 1, 1, 0, 2])
            else:
                acts += [["pub", c, 1, s.gen, int(s.gen > 1), 2],
                         ["pub", c, 1, s.gen + 1, 1, 2], ["unpub", c, 1]]
            acts += [["pub", c, 2, 1, 0, 2], ["close", c]]
        acts += [["wait", 0.9], ["wait", 2.2]]
        return acts


def run(check):
    t = check.thorough
    check.explore("limits", Limits, 4 if t else 3)
    check.explore("transfers", Transfers, 6 if t else 4)
    check.explore("total-only", TotalOnly, 4 if t else 2)
    check.explore("user-only", UserOnly, 4 if t else 2)
    for i, (u, a) in enumerate((
            (dict(services=0), {}), (dict(subscriptions=0), {}),
            ({}, dict(services=0)), ({}, dict(subscriptions=0)),
            (dict(services=0, subscriptions=1), dict(subscriptions=0)),
            (dict(services=1, subscriptions=1), dict(services=0)))):
        check.explore("none-%d" % i, none_of(u, a), 3 if t else 2)
