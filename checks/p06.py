"""P06: transactions follow the protocol."""
from edge import edges
from world import World, FILTERS, PROPS_


def rq(cmd, ta, **kw):
    m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': 'request'}
    m.update((k.replace('_', '-'), v) for k, v in kw.items())
    return m


class Transactions(World):
    watch = frozenset({'ta', 'format', 'unsolicited'})
    setup = (["login", 1, 0, 0, "A", 11, 3], ["login", 2, 0, 0, "B", 12, 2])
    ids = (0, 7)
    who = (1, 2)

    def commands(self, c, ta):
        d = self.m.doms[0]
        x = self.m.conns[c]
        yield rq('hello', ta, client_id=10 + c, protocol_minimum_version=2,
                 protocol_maximum_version=3)
        yield rq('hello', ta, client_id=99, protocol_minimum_version=2,
                 protocol_maximum_version=3)
        yield rq('ping', ta)
        g = d.services[c].gen if c in d.services else 1
        yield rq('publish', ta, service_id=c, generation=g + 1,
                 service_props=PROPS_[0], ttl=5)
        yield rq('publish', ta, service_id=3 - c, generation=0,
                 service_props={}, ttl=5)
        yield rq('unpublish', ta, service_id=c)
        yield rq('subscribe', ta, subscription_id=c)
        yield rq('subscribe', ta, subscription_id=1, filter=FILTERS[1])
        yield rq('subscribe', ta, subscription_id=5, filter=FILTERS[5])
        yield rq('unsubscribe', ta, subscription_id=c)
        yield rq('unsubscribe', ta, subscription_id=3 - c)
        yield rq('services', ta)
        yield rq('services', ta, filter=FILTERS[5])
        yield rq('services', ta, filter='')
        yield rq('subscribe', ta, subscription_id=5, filter='')
        yield rq('subscriptions', ta)
        yield rq('clients', ta)
        if x.ver == 3:
            yield rq('track', ta)
            for t in ('query', 'reply'):
                yield {'ta-cmd': 'track', 'ta-id': ta, 'msg-type': 'inform',
                       'track-type': t}

    def alphabet(self):
        acts = []
        for c in self.who:
            if c not in self.m.conns:
                acts.append(["login", c, 0, 0, "AB"[c - 1], 10 + c,
                             4 - c])
                continue
            for ta in self.ids:
                for m in self.commands(c, ta):
                    acts.append(["msg", c, m])
            acts.append(["close", c])
        return acts


class OneClient(Transactions):
    setup = (["login", 1, 0, 0, "A", 11, 3],)
    who = (1,)


class OneClientV2(Transactions):
    setup = (["login", 2, 0, 0, "B", 12, 2],)
    who = (2,)


class Unhandshaked(Transactions):
    """Before any successful hello."""
    setup = (["connect", 1, 0, 0, "A"],)
    who = (1,)
    ids = (0, (1 << 63) - 1)


def run(check):
    t = check.thorough
    check.explore("two-clients", Transactions, 4 if t else 3)
    check.explore("v3", OneClient, 5 if t else 4)
    check.explore("v2", OneClientV2, 5 if t else 4)
    check.explore("before-hello", Unhandshaked, 4 if t else 3)
    check.explore("edges", edges(Transactions.watch), 3 if t else 2)
