"""Reference reading of the documented filter grammar and its meaning.

Written from doc/protocol/PROTOCOLv3.md, not from the code. An abstract
filter is a tuple:
  ('=', key, value) ('>', key, int) ('<', key, int) ('*', key)
  ('sub', key, initial|None, (middle, ...), final|None)
  ('!', f) ('&', f, g, ...) ('|', f, g, ...)
"""

SPECIAL = "!&*()<=>\\|"


class Bad(Exception):
    pass


def parse(text):
    try:
        f, pos = _filter(text, 0)
    except RecursionError:
        raise Bad("nested too deeply")
    if pos != len(text):
        raise Bad("trailing data")
    return f


def accepts(text):
    try:
        parse(text)
        return True
    except Bad:
        return False


def _at(t, p):
    if p >= len(t):
        raise Bad("end of text")
    return t[p]


def _filter(t, p):
    if _at(t, p) != '(':
        raise Bad("expected (")
    p += 1
    c = _at(t, p)
    if c in "&|":
        p += 1
        ops = []
        while _at(t, p) == '(':
            f, p = _filter(t, p)
            ops.append(f)
        if len(ops) < 2:
            raise Bad("too few operands")
        res = (c,) + tuple(ops)
    elif c == '!':
        f, p = _filter(t, p + 1)
        res = ('!', f)
    else:
        key, p = _string(t, p)
        if key == "":
            raise Bad("empty key")
        op = _at(t, p)
        p += 1
        if op in "<>":
            s, p = _string(t, p)
            res = (op, key, _integer(s))
        elif op == '=':
            parts = []
            s, p = _string(t, p)
            parts.append(s)
            while _at(t, p) == '*':
                s, p = _string(t, p + 1)
                parts.append(s)
            if len(parts) == 1:
                if s == "":
                    raise Bad("empty value")
                res = ('=', key, s)
            else:
                mid = tuple(parts[1:-1])
                if "" in mid:
                    raise Bad("empty part")
                if mid == () and parts[0] == "" and parts[-1] == "":
                    res = ('*', key)
                else:
                    res = ('sub', key, parts[0] or None, mid,
                           parts[-1] or None)
        else:
            raise Bad("expected an operator")
    if _at(t, p) != ')':
        raise Bad("expected )")
    return res, p + 1


def _string(t, p):
    out = []
    while True:
        c = _at(t, p)
        if c == '\\':
            e = _at(t, p + 1)
            if e not in SPECIAL:
                raise Bad("bad escape")
            out.append(e)
            p += 2
        elif c in SPECIAL:
            return "".join(out), p
        elif c == '\0':
            raise Bad("NUL")
        else:
            out.append(c)
            p += 1


def _integer(s):
    d = s[1:] if s[:1] == '-' else s
    if d == "" or any(c not in "0123456789" for c in d) or \
       (len(d) > 1 and d[0] == '0'):
        raise Bad("not an integer")
    if len(s) > 4000:
        raise Bad("integer out of any reasonable range")
    return int(s)


def esc(s):
    return "".join("\\" + c if c in SPECIAL else c for c in s)


def text(f):
    op = f[0]
    if op in "&|":
        return "(%s%s)" % (op, "".join(text(g) for g in f[1:]))
    if op == '!':
        return "(!%s)" % text(f[1])
    if op == '*':
        return "(%s=*)" % esc(f[1])
    if op == 'sub':
        return "(%s=%s*%s%s)" % (esc(f[1]), esc(f[2] or ""),
                                 "".join(esc(m) + "*" for m in f[3]),
                                 esc(f[4] or ""))
    return "(%s%s%s)" % (esc(f[1]), op, esc(str(f[2])))


def substring(s, initial, mid, final):
    """Is there a split of s into initial, any, m1, any, ..., final?"""
    pos = 0
    if initial is not None:
        if s[:len(initial)] != initial:
            return False
        pos = len(initial)
    for m in mid:       # leftmost choice is optimal for literal parts
        i = s.find(m, pos)
        if i < 0:
            return False
        pos = i + len(m)
    if final is not None:
        return len(s) - len(final) >= pos and s[len(s) - len(final):] == final
    return True


def match(f, props):
    """props: {key: collection of str/int}"""
    op = f[0]
    if op == '&':
        return all([match(g, props) for g in f[1:]])
    if op == '|':
        return any([match(g, props) for g in f[1:]])
    if op == '!':
        return not match(f[1], props)
    if op == '*':
        return f[1] in props
    values = props.get(f[1], ())
    if op == '=':
        return any(f[2] == (v if isinstance(v, str) else str(v))
                   for v in values)
    if op == '>':
        return any(isinstance(v, int) and v > f[2] for v in values)
    if op == '<':
        return any(isinstance(v, int) and v < f[2] for v in values)
    return any(isinstance(v, str) and substring(v, *f[2:]) for v in values)
