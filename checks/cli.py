"""Runs the real app/pafc in this process, with its threads, against a
scripted server on the in-memory transport.

pafc's main thread reads commands from a scripted standard input; its worker
thread is let run until it waits with nothing left to do before the next
command is handed out, so that everything is deterministic."""
import io
import os
import select
import signal
import sys
import threading
import types

import vworld
from vworld import Hang, Peer, Violation, stub

PATH = os.path.join(vworld.REPO, "app", "pafc")


class Exit(BaseException):
    pass


class Killed(BaseException):
    pass


class Over(BaseException):
    pass


class Out(io.TextIOBase):
    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writable(self):
        return True

    def take(self):
        s = "".join(self.parts)
        self.parts = []
        return s


class In:
    """Standard input: the next command is asked for."""

    def __init__(self, sess):
        self.sess = sess

    def readline(self, *a):
        return self.sess.next_line()


class Poll:
    sess = None

    def __init__(self):
        self.reg = {}

    def register(self, fd, mask=select.POLLIN):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        self.reg[fd] = mask

    def unregister(self, fd):
        if hasattr(fd, "fileno"):
            fd = fd.fileno()
        del self.reg[fd]

    modify = register

    def ready(self, timeout=0, wake=None):
        evs = [(fd, select.POLLIN) for fd in self.reg
               if fd >= vworld.FD_BASE and stub.stub_fd_ready(fd)]
        if evs:
            timeout = 0
        p = vworld.real_poll()
        real = [fd for fd in self.reg if fd < vworld.FD_BASE]
        for fd in real:
            p.register(fd, self.reg[fd] & 0x1f)
        if wake is not None:
            p.register(wake, select.POLLIN)
        if real or wake is not None:
            evs += p.poll(timeout)
        return evs

    def poll(self, timeout=None):
        s = Poll.sess
        n = 0
        while True:
            if s is None or s.over:
                raise Over()
            evs = self.ready()
            if evs:
                return evs
            if not any(fd < vworld.FD_BASE for fd in self.reg):
                # a blocking call: the server's turn
                n += 1
                if n > 3:
                    s.problem("a command waits forever")
                    raise Over()
                s.serve()
                continue
            if threading.current_thread() is threading.main_thread():
                s.problem("the main thread waits")
                raise Over()
            with s.cond:
                if not self.ready():
                    s.idle = True
                    s.cond.notify_all()
            evs = self.ready(None, s.wake[0])
            with s.cond:
                s.idle = False
            evs = [e for e in evs if e[0] != s.wake[0]]
            if len(evs) < 1:
                os.read(s.wake[0], 4096)


class Session:
    """script(session): a generator yielding command lines; receives
    (messages sent to the server, what was printed)."""

    def __init__(self, args, script, policy, addr="ux:srv"):
        self.args = args
        self.script = script
        self.policy = policy
        self.addr = addr
        self.over = False
        self.idle = False
        self.cond = threading.Condition()
        self.out = Out()
        self.msgs = []
        self.peer = None
        self.trouble = None
        self.hello = None
        self.error = None
        self.internal = None
        self.code = None
        self.how = None
        self.commands = 0

    def problem(self, what):
        if self.trouble is None:
            self.trouble = what
        self.over = True
        os.kill(os.getpid(), signal.SIGTERM)

    # the server

    def serve(self):
        if self.peer is None:
            s = stub.stub_server_take(self.srv)
            if s < 0:
                return
            self.peer = Peer(s)
        while True:
            m = self.peer.recv1()
            if m is None:
                break
            if m["ta-cmd"] == "hello" and self.hello is None:
                self.hello = m
            else:
                self.msgs.append(m)
            for r in self.policy(m):
                if r == "close":
                    self.peer.close()
                elif isinstance(r, bytes):
                    self.peer.send_raw(r)
                else:
                    self.peer.send(ta_cmd=m["ta-cmd"], ta_id=m["ta-id"], **r)

    def quiesce(self):
        """Until the worker waits with nothing to do."""
        for i in range(200000):
            with self.cond:
                while not self.idle and not self.over:
                    self.cond.wait(20)
                if self.over:
                    return
            if self.peer is not None:
                self.serve()
                if stub.stub_ready(vworld._fds, 4096):
                    with self.cond:
                        self.idle = False
                    os.write(self.wake[1], b"x")
                    continue
            return
        raise Hang("pafc never rests")

    def next_line(self):
        if self.over:
            return ""
        out = self.out.take()
        if out.endswith("> "):
            out = out[:-2]
        if self.worker_there():
            self.quiesce()
        out += self.out.take()
        msgs, self.msgs = self.msgs, []
        try:
            line = self.gen.send((msgs, out) if self.started else None)
            self.started = True
        except StopIteration:
            self.over = True
            self.poke()
            return ""
        except Violation as e:
            self.error = e
            self.over = True
            self.poke()
            return ""
        except Exception:
            import traceback
            self.internal = traceback.format_exc()
            self.over = True
            self.poke()
            return ""
        self.commands += 1
        return line + "\n"

    def worker_there(self):
        return any(t is not threading.main_thread() and t.is_alive()
                   for t in threading.enumerate())

    def poke(self):
        os.write(self.wake[1], b"x")

    def send(self, **fields):
        """The server sends something on its own account."""
        self.peer.send(**fields)

    # the client

    def run(self):
        vworld.fresh_globals()
        stub.stub_reset()
        self.srv = stub.stub_server_new(self.addr.encode())
        self.started = False
        self.gen = self.script(self)
        self.wake = vworld.real_pipe()
        # the daemon threads of this process are pafc's
        saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv, os._exit,
                 select.poll, threading.excepthook,
                 signal.getsignal(signal.SIGTERM))
        def do_exit(code):
            self.code = code
            raise Exit()

        def on_term(signo, frame):
            raise Killed()
        mod = types.ModuleType("__main__")
        mod.__file__ = PATH
        with open(PATH) as f:
            code = compile(f.read(), PATH, "exec")
        main = sys.modules["__main__"]
        errs = Out()
        threads = set(threading.enumerate())
        Poll.sess = self
        try:
            signal.signal(signal.SIGTERM, on_term)
            sys.stdin, sys.stdout, sys.stderr = In(self), self.out, errs
            sys.argv = ["pafc"] + list(self.args)
            os._exit = do_exit
            select.poll = Poll
            threading.excepthook = self.thread_died
            sys.modules["__main__"] = mod
            try:
                exec(code, mod.__dict__)
                self.how = "returned"
            except Exit:
                self.how = "exit"
            except SystemExit as e:
                self.how = "exit"
                self.code = e.code
            except Killed:
                self.how = "killed"
            except Over:
                self.how = "over"
            except Hang as e:
                self.trouble = str(e)
            except Violation:
                raise
            except Exception as e:
                self.how = "%s: %s" % (type(e).__name__, e)
        finally:
            try:
                self.over = True
                os.write(self.wake[1], b"x")
                for t in threading.enumerate():
                    if t not in threads:
                        t.join(10)
            except Killed:
                pass
            finally:
                (sys.stdin, sys.stdout, sys.stderr, sys.argv, os._exit,
                 select.poll, threading.excepthook) = saved[:7]
                sys.modules["__main__"] = main
                signal.signal(signal.SIGTERM, saved[7])
                Poll.sess = None
        for fd in self.wake:
            os.close(fd)
        self.rest = self.out.take()
        self.gen.close()
        if self.internal:
            raise RuntimeError(self.internal)
        if self.error is not None:
            raise self.error
        return self

    def thread_died(self, args):
        if not issubclass(args.exc_type, (Over, Killed)):
            self.trouble = self.trouble or "pafc's worker fails with %s" % \
                args.exc_value
