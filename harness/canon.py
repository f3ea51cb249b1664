"""Canonical form of the server's reachable object graph.

Two states with the same canonical form differ only in object identity, in
absolute time (everything time-like is taken relative to now), in the numeric
values of transport handles and descriptors (replaced by the harness label of
the connection) and in the order of unordered collections, none of which the
properties can observe; hence they have the same futures.
"""
import collections
import enum
import re
import types

import vworld
from vworld import FD_BASE, stub

HB = 0x700000000000
SKIP_TYPES = (types.ModuleType, types.BuiltinFunctionType,
              vworld.FakeEpoll)


class Canon:
    def __init__(self, now):
        self.now = now
        self.memo = {}
        self.out = []

    def atom(self, v):
        if v is None or v is True or v is False:
            return repr(v)
        t = type(v)
        if t is int:
            if FD_BASE <= v < FD_BASE + 4096:
                return "fd%d" % stub.stub_fd_tag(v)
            if HB <= v < HB + (1 << 44):
                return "h%d" % stub.stub_handle_tag(v)
            if 500 <= v < 900:
                return "pfd"
            return str(v)
        if t is float:
            if 500000.0 < v < 100000000.0:
                return "t%.4f" % (v - self.now)
            return "%.5f" % v
        if t is str or t is bytes:
            return repr(v)
        if isinstance(v, enum.Enum):
            return "%s.%s" % (t.__name__, v.name)
        if isinstance(v, (int, float, str, bytes)):
            return repr(v)
        return None

    def walk(self, v):
        a = self.atom(v)
        out = self.out
        if a is not None:
            out.append(a)
            return
        k = self.memo.get(id(v))
        if k is not None:
            out.append("#%d" % k)
            return
        t = type(v)
        if isinstance(v, SKIP_TYPES) or isinstance(v, type):
            out.append(getattr(v, "__name__", "~"))
            return
        self.memo[id(v)] = len(self.memo)
        if t is tuple or t is list or isinstance(v, (tuple, list,
                                                    collections.deque)):
            out.append("[")
            for x in v:
                self.walk(x)
                out.append(",")
            out.append("]")
        elif isinstance(v, dict):
            out.append("{")
            keys = []
            for key in v:
                a = self.atom(key)
                if a is None:
                    a = self.sub(key)
                keys.append((a, key))
            keys.sort(key=lambda p: p[0])
            for a, key in keys:
                out.append(a)
                out.append(":")
                if self.atom(key) is None:
                    self.walk(key)
                    out.append("=")
                self.walk(v[key])
                out.append(",")
            out.append("}")
        elif isinstance(v, (set, frozenset)):
            out.append("<")
            items = []
            for x in v:
                a = self.atom(x)
                if a is None:
                    a = self.sub(x)
                items.append((a, x))
            items.sort(key=lambda p: p[0])
            for a, x in items:
                self.walk(x)
                out.append(",")
            out.append(">")
        elif t is types.FunctionType:
            out.append("f:" + v.__qualname__)
            if v.__closure__:
                for c in v.__closure__:
                    try:
                        self.walk(c.cell_contents)
                    except ValueError:
                        pass
        elif t is types.MethodType:
            out.append("m:" + v.__func__.__qualname__ + "@")
            self.walk(v.__self__)
        elif isinstance(v, re.Pattern):
            out.append(repr(v.pattern))
        elif isinstance(v, (types.GeneratorType,)):
            out.append("gen")
        else:
            out.append(t.__name__ + "(")
            d = getattr(v, "__dict__", None)
            if d is not None:
                for name in sorted(d):
                    out.append(name + "=")
                    self.walk(d[name])
                    out.append(";")
            else:
                slots = getattr(t, "__slots__", ())
                for name in slots:
                    if hasattr(v, name):
                        out.append(name + "=")
                        self.walk(getattr(v, name))
                        out.append(";")
                if not slots:
                    out.append("?")
            out.append(")")

    def sub(self, v):
        """Identity-free label of an object used as a key or set member."""
        c = Canon(self.now)
        c.depth = 0
        return shallow(c, v, 2)


def shallow(c, v, depth):
    a = c.atom(v)
    if a is not None:
        return a
    t = type(v)
    if depth == 0:
        return t.__name__
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(shallow(c, x, depth - 1) for x in v) + "]"
    if isinstance(v, (dict, set, frozenset)):
        return "%s%d" % (t.__name__, len(v))
    if isinstance(v, types.MethodType):
        return v.__func__.__qualname__ + "@" + shallow(c, v.__self__,
                                                       depth - 1)
    d = getattr(v, "__dict__", None)
    if d is None or isinstance(v, (types.FunctionType, type,
                                   types.ModuleType)):
        return t.__name__
    return t.__name__ + "(" + ";".join(
        "%s=%s" % (n, shallow(c, d[n], depth - 1)) for n in sorted(d)) + ")"


def canon(roots, now):
    c = Canon(now)
    c.walk(roots)
    return "".join(c.out)


def size(roots):
    """Number of distinct objects and container entries reachable."""
    c = Canon(vworld.Clock.now)
    c.walk(roots)
    return len(c.out)
