"""P13: timers fire in order, once, on time, and never after cancellation.

The real TimerManager is driven through every sequence of operations up to a
bound; a list of pending (label, time) pairs is the oracle."""
import vworld
from choose import choices
from vworld import Clock, T0, Violation

import paf.timer

PLAIN = ("plain", "shared")
BEHAVE = ("plain", "shared", "add-past", "add-now", "add-later",
          "cancel-first", "cancel-last", "slow")


class Timers:
    def __init__(self):
        Clock.now = T0
        Clock.calls = 0
        self.pending = []       # [label, time, timer]
        self.n = 0
        self.announced = None
        self.fired_equal = set()
        self.in_process = False
        self.tm = None
        self.tm = paf.timer.TimerManager(self.changed)
        self.shared = lambda: self.fire("shared", "plain")

    def changed(self):
        if self.tm is not None:
            self.announced = self.tm.next_timeout()

    def add(self, behave, dt, relative=False):
        self.n += 1
        if behave == "shared":
            label, h = "shared", self.shared
        else:
            label = "%s%d" % (behave, self.n)

            def h():
                self.fire(label, behave)
        t = Clock.now + dt
        rec = [label, t, None]
        self.pending.append(rec)
        if relative:
            rec[2] = self.tm.add(h, dt, relative=True)
        else:
            rec[2] = self.tm.add(h, t)

    def cancel(self, rec):
        self.pending.remove(rec)
        self.tm.remove(rec[2])

    def cancellable(self):
        # of two identical timers it cannot be told which one has fired
        return [r for r in self.pending
                if (r[0], r[1]) not in self.fired_equal]

    def fire(self, label, behave):
        if not self.in_process:
            raise Violation("timer %s fired outside of processing" % label)
        mine = [r for r in self.pending if r[0] == label]
        if not mine:
            raise Violation("timer %s fired though it is not pending "
                            "(cancelled or fired before)" % label)
        first = min(r[1] for r in self.pending)
        rec = min(mine, key=lambda r: r[1])
        if rec[1] > Clock.now:
            raise Violation("timer %s fired %g s early" % (
                label, rec[1] - Clock.now))
        if rec[1] != first:
            raise Violation("timer %s (at %g) fired before the one at %g" %
                            (label, rec[1] - T0, first - T0))
        self.pending.remove(rec)
        self.fired_equal.add((label, rec[1]))
        if behave == "add-past":
            self.add("plain", -1)
        elif behave == "add-now":
            self.add("plain", 0)
        elif behave == "add-later":
            self.add("plain", 1, relative=True)
        elif behave in ("cancel-first", "cancel-last"):
            c = self.cancellable()
            if c:
                f = min if behave == "cancel-first" else max
                self.cancel(f(c, key=lambda r: r[1]))
        elif behave == "slow":
            Clock.now += 1

    def process(self):
        now = Clock.now
        due = [r for r in self.pending if r[1] <= now]
        self.in_process = True
        self.tm.process()
        self.in_process = False
        for r in due:
            if any(r is x for x in self.pending):
                raise Violation("timer %s at %g did not fire at %g" %
                                (r[0], r[1] - T0, now - T0))

    def check(self):
        want = min((r[1] for r in self.pending), default=None)
        got = self.tm.next_timeout()
        if got != want:
            raise Violation("next time-out is %r rather than %r" % (got,
                                                                    want))
        if self.announced != want:
            raise Violation("the announced next time-out is %r rather than "
                            "%r" % (self.announced, want))
        if bool(self.tm.empty()) != (want is None):
            raise Violation("emptiness is wrong")

    def drain(self):
        for i in range(100):
            if not self.pending:
                break
            Clock.now = max(Clock.now, min(r[1] for r in self.pending))
            Clock.calls = 0
            n = len(self.pending)
            self.process()
            self.check()
        if self.pending:
            raise Violation("timers remain: %r" % self.pending)
        Clock.now += 100
        self.process()
        self.check()


def sequences(behave, dts, rel, depth, waits=(0, 1, 2)):
    def fun(ch):
        w = Timers()
        for i in range(depth):
            menu = [None]
            menu += [("add", b, d, False) for b in behave for d in dts]
            menu += [("add", b, d, True) for b in behave[:1] for d in rel]
            menu += [("cancel", k) for k in range(len(w.cancellable()))]
            menu += [("process", d) for d in waits]
            op = ch.pick(menu)
            if op is None:
                break
            ch.ops += 1
            if op[0] == "add":
                w.add(*op[1:])
            elif op[0] == "cancel":
                w.cancel(w.cancellable()[op[1]])
            else:
                Clock.now += op[1]
                w.process()
            w.check()
        state = sorted((r[0].rstrip("0123456789"), r[1] - Clock.now)
                       for r in w.pending)
        w.drain()
        return state
    return fun


PATTERNS = {
    "ascending": lambda i, n: i,
    "descending": lambda i, n: n - i,
    "equal": lambda i, n: 5,
    "pairs": lambda i, n: i // 2,
    "zigzag": lambda i, n: i if i % 2 else n - i,
    "few": lambda i, n: i % 3,
}


def long_lists(sizes):
    """One insertion and one removal at every position of longer lists."""
    def fun(ch):
        n = ch.pick(sizes)
        pat = ch.pick(sorted(PATTERNS))
        behave = ch.pick(("plain", "shared"))
        x = ch.choose(2 * n + 3)
        k = ch.choose(n + 1)
        w = Timers()
        for i in range(n):
            w.add(behave, PATTERNS[pat](i, n))
        w.check()
        w.add("plain", x / 2.0 - 0.5)
        w.check()
        w.cancel(w.pending[k])
        w.check()
        w.drain()
        ch.ops += 2 * n + 2
        return [n, pat, behave, x, k]
    return fun


def run(check):
    t = check.thorough
    choices(check, "handlers", sequences(BEHAVE, (0, 1, 2), (1,),
                                         5 if t else 4), devs=9)
    choices(check, "plain", sequences(("plain",), (-1, 0, 1, 2, 3), (0, 2),
                                      7 if t else 5, (1, 2)), devs=9)
    choices(check, "identical", sequences(("shared", "plain"), (1, 2), (),
                                          7 if t else 6, (1,)), devs=9)
    choices(check, "long", long_lists((0, 1, 2, 3, 4, 7, 8, 9, 16, 33, 65)
                                      if t else (0, 1, 2, 3, 4, 7, 8, 9,
                                                 17)), devs=9)
