"""Exhaustive exploration of choice points by re-execution.

An execution asks a Chooser at every point where something else could happen;
option 0 is always "nothing special". All executions with at most `devs`
non-zero choices (within the first `points` choice points) are run, each from
a fresh start. Direct code (timers, filters, the transport binding ...) is
executed this way without the daemon around it."""
import gc
import hashlib
import json

import vworld
from vworld import Violation, Prune, Hang
from explore import Pool, now_real


class Chooser:
    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.points = []        # number of options at each point
        self.taken = []
        self.labels = []
        self.ops = 0

    def choose(self, n, label=None):
        """0 <= result < n"""
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if c >= n:
            raise RuntimeError("choice %d of %d: not deterministic?" % (c, n))
        self.points.append(n)
        self.taken.append(c)
        return c

    def pick(self, options, label=None):
        o = options[self.choose(len(options))]
        self.labels.append(o)
        return o


class Outcome:
    __slots__ = ("viol", "sig", "pruned", "points", "labels", "ops", "obs",
                 "internal")


def from_repo(e):
    """Was the exception raised by (or beneath) the code under test?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(vworld.REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def execute(fun, prefix, watchdog=20):
    ch = Chooser(prefix)
    out = Outcome()
    out.viol = out.sig = out.obs = out.internal = None
    out.pruned = False
    vworld.arm(watchdog)
    try:
        out.obs = fun(ch)
    except Violation as e:
        out.viol, out.sig = e.msg, e.sig
    except Prune:
        out.pruned = True
    except Hang as e:
        out.viol, out.sig = str(e), "hang"
    except Exception as e:
        import traceback
        if from_repo(e):
            out.viol = "the code fails internally with %s: %s" % (
                type(e).__name__, e)
            out.sig = "exception"
        else:
            out.internal = traceback.format_exc()
    finally:
        vworld.disarm()
    out.points = ch.points
    out.labels = ch.labels
    out.ops = max(ch.ops, 1)
    return out


def successors(prefix, points, devs, maxpoints):
    used = sum(1 for c in prefix if c)
    if used >= devs:
        return
    for i in range(len(prefix), min(len(points), maxpoints)):
        for alt in range(1, points[i]):
            yield list(prefix) + [0] * (i - len(prefix)) + [alt]


def subtree(fun, prefix, devs, maxpoints, limit=None):
    """Runs everything below prefix; returns a summary."""
    n = ops = pruned = longest = 0
    seen = set()
    stack = [list(prefix)]
    samples = []
    while stack:
        p = stack.pop()
        o = execute(fun, p)
        n += 1
        ops += o.ops
        longest = max(longest, len(o.points))
        if n % 200 == 0:
            gc.collect()
        if o.internal:
            return dict(internal="%r: %s" % (p, o.internal))
        if o.viol is not None:
            return dict(viol=(p, o.viol, o.sig, o.labels), n=n, ops=ops,
                        longest=longest, seen=seen, pruned=pruned, samples=samples)
        if o.pruned:
            pruned += 1
            continue
        seen.add(hashlib.blake2b(repr(o.obs).encode(),
                                 digest_size=8).digest())
        if not samples or (len(samples) < 3 and n % 1000 == 0):
            samples.append(o.labels)
        stack.extend(successors(p, o.points, devs, maxpoints))
    return dict(n=n, ops=ops, seen=seen, pruned=pruned, samples=samples,
                longest=longest)


def choices(check, name, fun, devs, points=1000, root=()):
    """All executions of fun with at most devs deviations."""
    if check.violations:
        return
    st = dict(name=name, states=0, transitions=0, depth=devs, complete=True,
              executions=0, longest=0)
    t0 = now_real()
    stats = check.stats
    seen = set()
    pool = None

    def fold(r):
        if "internal" in r:
            raise RuntimeError("%s: %s" % (name, r["internal"]))
        st["executions"] += r["n"]
        st["longest"] = max(st["longest"], r["longest"])
        st["transitions"] += r["ops"]
        stats.pruned += r["pruned"]
        stats.validated += r["n"] - r["pruned"] - ("viol" in r)
        seen.update(r["seen"])
        for s in r["samples"]:
            if len(stats.samples) < 4:
                stats.samples.append("%s: %s" % (name, json.dumps(
                    s, default=repr)[:600]))
        if "viol" in r:
            p, msg, sig, labels = r["viol"]
            return check.violation(
                name, p, "%s [%s]" % (msg, json.dumps(
                    labels, default=repr)[:1500]), sig,
                confirm=lambda: execute(fun, p).viol)

    try:
        # level by level until there is enough to share out
        level = [list(root)]
        while level and len(level) < 300:
            nxt = []
            for p in level:
                o = execute(fun, p)
                r = dict(n=1, ops=o.ops, pruned=int(o.pruned), samples=[],
                         seen=set(), longest=len(o.points))
                if o.internal:
                    r = dict(internal=o.internal)
                elif o.viol is not None:
                    r["viol"] = (p, o.viol, o.sig, o.labels)
                elif not o.pruned:
                    r["seen"].add(hashlib.blake2b(
                        repr(o.obs).encode(), digest_size=8).digest())
                if fold(r):
                    return st
                if not o.pruned and o.viol is None:
                    nxt += list(successors(p, o.points, devs, points))
            level = nxt
        if level:
            pool = Pool(lambda p: subtree(fun, p, devs, points))
            for r in pool.imap(level, chunk=max(1, min(16, len(level) //
                                                       128))):
                if fold(r):
                    return st
        return st
    finally:
        if pool is not None:
            pool.close()
        st["states"] = len(seen)
        st["seconds"] = round(now_real() - t0, 2)
        stats.states += st["states"]
        stats.transitions += st["transitions"]
        if devs >= 1000:        # not bounded at all
            st["depth"] = st["longest"]
        stats.depth = max(stats.depth, st["depth"])
        stats.scenarios.append(st)


class Batch:
    """Accumulates the outcome of many direct evaluations in a worker."""

    def __init__(self):
        self.n = 0
        self.states = 0
        self.viol = None
        self.samples = []
        self.notes = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def batches(check, name, fun, items, watchdog=300):
    """fun(batch, item) evaluates a group of cases, counting transitions in
    batch.n and distinct cases in batch.states, raising Violation(msg)."""
    if check.violations:
        return
    st = dict(name=name, states=0, transitions=0, depth=1, complete=True)
    t0 = now_real()
    stats = check.stats

    def one(item):
        b = Batch()
        r = {}
        vworld.arm(watchdog)
        try:
            vworld.Clock.calls = 0
            fun(b, item)
        except Violation as e:
            r["viol"] = (e.msg, e.sig)
        except Hang as e:
            r["viol"] = (str(e), "hang")
        except Exception as e:
            import traceback
            if from_repo(e):
                r["viol"] = ("the code fails internally with %s: %s" % (
                    type(e).__name__, e), "exception")
            else:
                r["internal"] = traceback.format_exc()
        finally:
            vworld.disarm()
        r.update(n=b.n, states=b.states, samples=b.samples[:3],
                 notes=b.notes)
        return r

    items = list(items)
    pool = Pool(one)
    try:
        for item, r in zip(items, pool.imap(items, chunk=1)):
            if "internal" in r:
                raise RuntimeError("%s: %r: %s" % (name, item,
                                                   r["internal"]))
            st["transitions"] += r["n"]
            st["states"] += r["states"]
            for k, v in r["notes"].items():
                stats.notes[k] = stats.notes.get(k, 0) + v
            for s in r["samples"]:
                if len(stats.samples) < 6:
                    stats.samples.append("%s: %s" % (name, str(s)[:400]))
            if "viol" in r:
                msg, sig = r["viol"]
                if check.violation(name, item, msg, sig,
                                   confirm=lambda: one(item).get("viol")):
                    return st
                continue
            stats.validated += r["n"]
        return st
    finally:
        pool.close()
        st["seconds"] = round(now_real() - t0, 2)
        stats.states += st["states"]
        stats.transitions += st["transitions"]
        stats.depth = max(stats.depth, 1)
        stats.scenarios.append(st)
