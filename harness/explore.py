"""Bounded exhaustive exploration by replay, and the check runner."""
import gc
import hashlib
import json
import os
import pickle
import signal
import struct
import sys
import time as _t

import vworld
from vworld import Episode, Violation, Prune, Hang

now_real = vworld.real_monotonic


class Result:
    __slots__ = ("key", "acts", "viol", "sig", "pruned", "notes", "internal",
                 "pkey", "obs")


class Scenario:
    """Subclass: conf text, start/actions/do/finish, model_key."""
    name = "scenario"
    conf = None
    rnd = 0.5
    watchdog = 30
    dedup = True

    def __init__(self, **params):
        self.params = params
        for k, v in params.items():
            setattr(self, k, v)
        self.notes = {}
        self.obs = []

    def start(self, ep):
        yield None

    def actions(self):
        return []

    def do(self, ep, action):
        yield None

    def finish(self, ep):
        return
        yield

    def model_key(self):
        return ""

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # whether death of the server is judged by the property at hand
    death_counts = True

    def post(self, path, res):
        """Called after an episode without violation; may set res.viol."""

    def excuse(self, path):
        """Called after an episode which ended in a violation: True if the
        cause is something the property at hand does not speak about."""
        return False


def state_key(scn, ep):
    import canon
    roots = vworld.captured_servers
    if roots is None:
        return None
    s = canon.canon([roots, vworld.global_state.roots()], vworld.Clock.now)
    k = s + "|" + repr(scn.model_key())
    if os.environ.get("VERIF_DUMP_KEYS"):
        return k
    return hashlib.blake2b(k.encode('utf-8', 'replace'),
                           digest_size=12).digest()


_episodes = 0


def run_path(make, path, want_key=True, finish=True, want_pkey=False):
    global _episodes
    scn = make()
    res = Result()
    res.key = res.acts = res.viol = res.sig = res.internal = res.pkey = None
    res.pruned = False
    res.notes = scn.notes
    res.obs = scn.obs
    ep = Episode(scn.conf, rnd=scn.rnd)
    scn.ep = ep
    step = ["start"]

    def driver():
        yield from scn.start(ep)
        for i, a in enumerate(path):
            step[0] = a
            if want_pkey and i == len(path) - 1:
                res.pkey = state_key(scn, ep)
            yield from scn.do(ep, a)
        if want_key:
            res.acts = scn.actions()
            res.key = state_key(scn, ep) if scn.dedup else None
        if finish:
            step[0] = "finish"
            yield from scn.finish(ep)

    vworld.arm(scn.watchdog)
    try:
        ep.run(driver())
    except Hang as e:
        ep.hang = str(e)
    finally:
        vworld.disarm()
    if ep.internal:
        res.internal = ep.internal
    elif ep.error is not None:
        res.viol = ep.error.msg
        res.sig = ep.error.sig
    elif ep.hang:
        res.viol = "%s (during %r)" % (ep.hang, step[0])
        res.sig = "hang"
    elif ep.died is not None:
        if scn.death_counts:
            res.viol = "%s (during %r)" % (ep.died[1], step[0])
            res.sig = "died:%s:%s" % (ep.died[0], json.dumps(step[0]))
        else:
            res.pruned = True
    elif ep.pruned:
        res.pruned = True
    elif not ep.finished:
        res.internal = "episode ended without finishing"
    if res.viol is None and not res.internal and not res.pruned:
        scn.post(path, res)
    if res.viol is not None and scn.excuse(path):
        scn.note("excused")
        res.viol = res.sig = None
        res.pruned = True
    _episodes += 1
    if _episodes % 50 == 0:
        gc.collect()
    return res


# ------------------------------------------------------------ parallel

def _send(fd, obj):
    data = pickle.dumps(obj, -1)
    data = struct.pack("<Q", len(data)) + data
    v = memoryview(data)
    while v:
        v = v[os.write(fd, v):]


def _recv(fd):
    def exact(n):
        parts = []
        while n > 0:
            b = os.read(fd, min(n, 1 << 20))
            if not b:
                raise EOFError()
            parts.append(b)
            n -= len(b)
        return b"".join(parts)
    return pickle.loads(exact(struct.unpack("<Q", exact(8))[0]))


class WorkerDied(RuntimeError):
    pass


def _die_with_parent():
    """The code under test catches SIGTERM."""
    import ctypes
    import signal
    ctypes.CDLL(None).prctl(1, int(signal.SIGKILL), 0, 0, 0)


class Pool:
    """Order-preserving parallel map of a closure over forked workers."""

    def __init__(self, fun, procs=None):
        procs = procs or int(os.environ.get("VERIF_PROCS", "8"))
        self.procs = procs
        self.workers = []
        gc.collect()
        sys.stdout.flush()
        sys.stderr.flush()
        for i in range(procs):
            r1, w1 = vworld.real_pipe()
            r2, w2 = vworld.real_pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(w1)
                    os.close(r2)
                    for _, w, r in self.workers:
                        os.close(w)
                        os.close(r)
                    _die_with_parent()
                    gc.freeze()
                    gc.disable()
                    while True:
                        try:
                            chunk = _recv(r1)
                        except EOFError:
                            break
                        try:
                            out = (True, [fun(x) for x in chunk])
                        except BaseException:
                            import traceback
                            out = (False, traceback.format_exc())
                        _send(w2, out)
                    code = 0
                finally:
                    os._exit(code)
            os.close(r1)
            os.close(w2)
            self.workers.append((pid, w1, r2))

    def imap(self, items, chunk=32):
        def gen():
            buf = []
            for x in items:
                buf.append(x)
                if len(buf) == chunk:
                    yield buf
                    buf = []
            if buf:
                yield buf
        src = enumerate(gen())
        done = {}
        want = 0
        busy = {}
        poll = vworld.real_poll()
        for w in self.workers:
            poll.register(w[2], 1)
        idle = list(reversed(self.workers))
        more = True
        while True:
            while more and idle:
                try:
                    n, c = next(src)
                except StopIteration:
                    more = False
                    break
                w = idle.pop()
                _send(w[1], c)
                busy[w[2]] = (n, w)
            if want in done:
                for r in done.pop(want):
                    yield r
                want += 1
                continue
            if not busy:
                return
            for fd, _ in poll.poll():
                if fd not in busy:
                    raise WorkerDied("a worker process ended unexpectedly")
                n, w = busy.pop(fd)
                try:
                    ok, r = _recv(fd)
                except EOFError:
                    raise WorkerDied("a worker process ended unexpectedly")
                if not ok:
                    raise RuntimeError(r)
                done[n] = r
                idle.append(w)

    def map(self, items, chunk=None):
        items = list(items)
        if chunk is None:
            chunk = max(1, min(64, len(items) // (self.procs * 4) or 1))
        return list(self.imap(items, chunk))

    def close(self):
        for pid, w, r in self.workers:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.close(w)
            os.close(r)
        for pid, w, r in self.workers:
            os.waitpid(pid, 0)
        self.workers = []


class Stats:
    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.pruned = 0
        self.divergent = 0
        self.replay_checked = 0
        self.validated = 0
        self.depth = 0
        self.notes = {}
        self.samples = []
        self.complete = True
        self.scenarios = []


def explore(make, name, max_depth, report, stats, max_transitions=None,
            deadline=None, finish_all=True):
    """Breadth-first over action sequences; every transition is an execution
    of the real code from the start. Returns after max_depth levels."""
    # for tools/mutate.py only: survey with reduced depth
    max_depth -= int(os.environ.get("VERIF_SHALLOWER", "0"))
    pool = Pool(lambda t: run_path(make, t[0] + [t[1]], finish=finish_all,
                                   want_pkey=t[2]))
    t0 = now_real()
    st = dict(name=name, states=0, transitions=0, depth=0, complete=True)
    try:
        first = run_path(make, [], finish=finish_all)
        if first.internal:
            raise RuntimeError(first.internal)
        if first.viol:
            report(name, [], first.viol, first.sig)
            return st
        if first.acts is None:
            # the property cannot be judged from here on (the server does
            # not even get this far)
            stats.pruned += 1
            st["complete"] = False
            return st
        seen = {first.key}
        keys = {(): first.key}
        frontier = [([], first.acts)]
        st["states"] = 1
        for depth in range(1, max_depth + 1):
            tasks = [(p, a) for p, acts in frontier for a in acts]
            if not tasks:
                break
            if max_transitions is not None and \
               st["transitions"] + len(tasks) > max_transitions:
                st["complete"] = False
                break
            nxt = []
            cap = False
            it = pool.imap(((p, a, i % 50 == 0)
                            for i, (p, a) in enumerate(tasks)),
                           chunk=max(1, min(24, len(tasks) // 32 or 1)))
            for (p, a), r in zip(tasks, it):
                st["transitions"] += 1
                if r.internal:
                    raise RuntimeError("%s: %r: %s" % (name, p + [a],
                                                       r.internal))
                for k, v in r.notes.items():
                    stats.notes[k] = stats.notes.get(k, 0) + v
                if r.pkey is not None:
                    stats.replay_checked += 1
                    if r.pkey != keys.get(json.dumps(p)) and p:
                        stats.divergent += 1
                if r.viol is not None:
                    if report(name, p + [a], r.viol, r.sig):
                        return st
                    continue
                if r.pruned:
                    stats.pruned += 1
                    continue
                stats.validated += 1
                if r.key is None or r.key not in seen:
                    if r.key is not None:
                        seen.add(r.key)
                    st["states"] += 1
                    nxt.append((p + [a], r.acts))
                    if depth < max_depth:
                        keys[json.dumps(p + [a])] = r.key
                    if len(stats.samples) < 3 and depth == max_depth:
                        stats.samples.append("%s: %s" % (name,
                                                         json.dumps(p + [a])))
                if deadline is not None and now_real() > deadline:
                    cap = True
                    break
            if cap:
                st["complete"] = False
                break
            st["depth"] = depth
            frontier = nxt
        if not stats.samples and frontier:
            stats.samples.append("%s: %s" % (name, json.dumps(
                frontier[0][0])))
        return st
    finally:
        pool.close()
        st["seconds"] = round(now_real() - t0, 2)
        stats.states += st["states"]
        stats.transitions += st["transitions"]
        stats.depth = max(stats.depth, st["depth"])
        stats.complete = stats.complete and st["complete"]
        stats.scenarios.append(st)


def run_cases(make, name, cases, report, stats, key=None):
    """Independent single-path episodes (each case is a whole path)."""
    cases = list(cases)
    pool = Pool(lambda c: run_path(make, c, want_key=False))
    st = dict(name=name, states=0, transitions=0, depth=1, complete=True)
    t0 = now_real()
    distinct = set()
    try:
        for c, r in zip(cases, pool.imap(cases, chunk=max(1, min(
                32, len(cases) // 64 or 1)))):
            st["transitions"] += max(1, len(c))
            if r.internal:
                raise RuntimeError("%s: %r: %s" % (name, c, r.internal))
            for k, v in r.notes.items():
                stats.notes[k] = stats.notes.get(k, 0) + v
            if r.viol is not None:
                if report(name, c, r.viol, r.sig):
                    return st
                continue
            if r.pruned:
                stats.pruned += 1
                continue
            stats.validated += 1
            distinct.add(json.dumps(r.obs) if r.obs else json.dumps(c))
            if len(stats.samples) < 3:
                stats.samples.append("%s: %s" % (name, json.dumps(c)[:600]))
        return st
    finally:
        pool.close()
        st["states"] = len(distinct)
        st["seconds"] = round(now_real() - t0, 2)
        stats.states += st["states"]
        stats.transitions += st["transitions"]
        stats.complete = stats.complete and st["complete"]
        stats.scenarios.append(st)


# -------------------------------------------------------------- runner

VERIF = os.path.dirname(vworld.HERE)


def load_known():
    out = []
    fn = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


class Check:
    """Collects violations, matches known findings, writes evidence."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = now_real()
        self.stats = Stats()
        self.violations = []
        self.known = [k for k in load_known() if k["property"] == pid and
                      k.get("status") == "known"]
        self.known_hit = {}
        self.makers = {}
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def elapsed(self):
        return now_real() - self.t0

    def violation(self, name, path, msg, sig=None, confirm=None):
        """Returns True if exploration of this scenario should stop."""
        for k in self.known:
            if k["scenario"] == name and (
                    ("sig" in k and k["sig"] == sig) or
                    ("path" in k and k["path"] == json.loads(
                        json.dumps(path)))):
                self.known_hit[k["id"]] = k
                return False
        if confirm is None and name in self.makers:
            make = self.makers[name]

            def confirm():
                r = run_path(make, path)
                return r.viol
        if confirm is not None:
            again = [confirm() for _ in range(2)]
            if not any(again):
                self.extra["unconfirmed"] = self.extra.get(
                    "unconfirmed", []) + [[name, path, msg]]
                sys.stderr.write("unconfirmed: %s %r: %s\n" %
                                 (name, path, msg))
                return False
        self.violations.append((name, path, msg, sig))
        return True

    def explore(self, name, make, depth, **kw):
        self.makers[name] = make
        if self.violations:
            return
        return explore(make, name, depth, self.violation, self.stats, **kw)

    def cases(self, name, make, cases):
        self.makers[name] = make
        if self.violations:
            return
        return run_cases(make, name, cases, self.violation, self.stats)

    def finish(self):
        evd = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF,
                                                               "evidence")
        os.makedirs(evd, exist_ok=True)
        s = self.stats
        cov = dict(self.extra)
        cov.update(
            states=s.states, transitions=s.transitions,
            traces_validated_against_impl=s.validated,
            max_depth=s.depth, exhaustive=s.complete,
            pruned=s.pruned, prefix_replays_checked=s.replay_checked,
            prefix_replay_divergences=s.divergent,
            scenarios=s.scenarios, samples=s.samples or ["none"],
            observations=s.notes)
        ev = dict(property=self.pid, tier=self.tier if self.tier in (
            "quick", "thorough") else "quick", seed=self.seed,
            level=self.level, coverage=cov,
            wall_s=round(self.elapsed(), 2),
            violations=len(self.violations))
        with open(os.path.join(evd, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kid, k in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        print("%s %s: %d states, %d transitions in %.1f s%s" % (
            self.pid, self.tier, s.states, s.transitions, self.elapsed(),
            "" if s.complete else " (bounds not completed)"))
        if self.violations:
            for i, (name, path, msg, sig) in enumerate(self.violations[:5]):
                fn = os.path.join(evd, "replay-%s-%d.json" % (self.pid, i))
                with open(fn, "w") as f:
                    json.dump(dict(property=self.pid, scenario=name,
                                   path=path, message=msg, sig=sig), f,
                              indent=1, default=repr)
                print("  %s: %s" % (name, msg[:2000]))
                print("    after %s" % json.dumps(path, default=repr)[:2000])
                print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            return 1
        return 0
