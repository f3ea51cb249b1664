"""Reference reading of the documented message formats (versions 2 and 3).

Written from doc/protocol/PROTOCOLv2.md and PROTOCOLv3.md."""
import json
import math

INT, NUM, STR, PROPS = 'int', 'num', 'str', 'props'
MAX_INT = (1 << 63) - 1
REASON = {'fail-reason': STR}

# (cmd, type) -> (required fields in order, optional fields)
COMMON = {
    ('hello', 'request'): ({'client-id': INT, 'protocol-minimum-version': INT,
                            'protocol-maximum-version': INT}, {}),
    ('hello', 'complete'): ({'protocol-version': INT}, {}),
    ('subscribe', 'request'): ({'subscription-id': INT}, {'filter': STR}),
    ('subscribe', 'accept'): ({}, {}),
    ('subscribe', 'notify'): ({'match-type': STR, 'service-id': INT},
                              {'generation': INT, 'service-props': PROPS,
                               'ttl': INT, 'client-id': INT,
                               'orphan-since': NUM}),
    ('subscribe', 'complete'): ({}, {}),
    ('unsubscribe', 'request'): ({'subscription-id': INT}, {}),
    ('unsubscribe', 'complete'): ({}, {}),
    ('subscriptions', 'request'): ({}, {}),
    ('subscriptions', 'accept'): ({}, {}),
    ('subscriptions', 'notify'): ({'subscription-id': INT, 'client-id': INT},
                                  {'filter': STR}),
    ('subscriptions', 'complete'): ({}, {}),
    ('services', 'request'): ({}, {'filter': STR}),
    ('services', 'accept'): ({}, {}),
    ('services', 'notify'): ({'service-id': INT, 'generation': INT,
                              'service-props': PROPS, 'ttl': INT,
                              'client-id': INT}, {'orphan-since': NUM}),
    ('services', 'complete'): ({}, {}),
    ('publish', 'request'): ({'service-id': INT, 'generation': INT,
                              'service-props': PROPS, 'ttl': INT}, {}),
    ('publish', 'complete'): ({}, {}),
    ('unpublish', 'request'): ({'service-id': INT}, {}),
    ('unpublish', 'complete'): ({}, {}),
    ('ping', 'request'): ({}, {}),
    ('ping', 'complete'): ({}, {}),
    ('clients', 'request'): ({}, {}),
    ('clients', 'accept'): ({}, {}),
    ('clients', 'complete'): ({}, {}),
}
for _c in ('hello', 'subscribe', 'unsubscribe', 'subscriptions', 'services',
           'publish', 'unpublish', 'ping', 'clients'):
    COMMON[_c, 'fail'] = ({}, REASON)

FORMATS = {2: dict(COMMON), 3: dict(COMMON)}
FORMATS[2]['clients', 'notify'] = (
    {'client-id': INT, 'client-address': STR, 'time': INT}, {})
FORMATS[3]['clients', 'notify'] = (
    {'client-id': INT, 'client-address': STR, 'time': INT, 'idle': NUM,
     'protocol-version': INT}, {'latency': NUM})
FORMATS[3].update({
    ('track', 'request'): ({}, {}),
    ('track', 'accept'): ({}, {}),
    ('track', 'notify'): ({'track-type': STR}, {}),
    ('track', 'inform'): ({'track-type': STR}, {}),
    ('track', 'complete'): ({}, {}),
    ('track', 'fail'): ({}, REASON),
})
# which message types a command has at all, per kind of transaction; the
# library also knows the remaining combinations, without fields
CLIENT_TYPES = ('request', 'inform')
SERVER_TYPES = ('accept', 'notify', 'complete', 'fail')


def value_ok(kind, v):
    if kind == INT:
        return type(v) is int and 0 <= v <= MAX_INT
    if kind == NUM:
        return (type(v) is int and v >= 0) or \
            (type(v) is float and math.isfinite(v) and v >= 0)
    if kind == STR:
        return type(v) is str
    if type(v) is not dict:
        return False
    return all(type(vs) is list and all(type(x) in (int, str) for x in vs)
               for vs in v.values())


def decode(data):
    """The JSON object in data, or None."""
    try:
        v = json.loads(data.decode('utf-8'))
    except (ValueError, RecursionError):
        return None
    return v if type(v) is dict else None


def check(m, ver):
    """None if m (a decoded object) is a well-formed message of protocol
    version ver, else why not."""
    for f, k in (('ta-cmd', STR), ('ta-id', INT), ('msg-type', STR)):
        if f not in m:
            return "lacks " + f
        if not value_ok(k, m[f]):
            return "bad " + f
    fmt = FORMATS[ver].get((m['ta-cmd'], m['msg-type']))
    if fmt is None:
        return "no such message"
    req, opt = fmt
    for f, k in req.items():
        if f not in m:
            return "lacks " + f
        if not value_ok(k, m[f]):
            return "bad " + f
    for f in m:
        if f in ('ta-cmd', 'ta-id', 'msg-type') or f in req:
            continue
        if f not in opt:
            return "unknown field " + f
        if not value_ok(opt[f], m[f]):
            return "bad " + f
    return None
