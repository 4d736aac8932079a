"""Real broker processes: startbroker.py with a configuration file, as a user starts it."""
import os, random, shutil, signal, socket, ssl, subprocess, sys, tempfile, time
from . import wire as W, transport
from .runner import Violation
from .sim import IOP, HarnessError
from .clock import real_monotonic, real_sleep, real_select

_drawn = {}  # each worker process draws ports of its own


def port(kind=socket.SOCK_STREAM):
    """a port below the ephemeral range, free at the moment."""
    if os.getpid() not in _drawn:
        _drawn.clear()
        _drawn[os.getpid()] = random.Random("%s %s" % (os.getpid(), time.time_ns()))
    for _ in range(1000):
        p = _drawn[os.getpid()].randrange(11000, 32000)
        try:
            for k in (socket.SOCK_STREAM, socket.SOCK_DGRAM):
                s = socket.socket(socket.AF_INET, k)
                s.bind(("0.0.0.0", p))
                s.close()
            return p
        except OSError:
            pass
    raise HarnessError("no free port")


def accepts(p, host="127.0.0.1"):
    try:
        socket.create_connection((host, p), 5).close()
        return True
    except OSError:
        return False


class Process:
    """one run of the broker over a directory."""

    def __init__(self, lines, directory, args=None, env=None):
        self.dir = directory
        self.conf = os.path.join(directory, "broker.conf")
        if lines is not None:
            with open(self.conf, "w", encoding="utf-8") as f:
                f.write("\n".join(lines) + "\n")
        self.out = open(os.path.join(directory, "out"), "ab")
        self.start = self.out.tell()
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
        self.p = subprocess.Popen([sys.executable, os.path.join(IOP, "startbroker.py")] + (["-c", self.conf] if args is None else args), cwd=directory,
                                  stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT, env=e, preexec_fn=_child)

    def text(self):
        self.out.flush()
        with open(os.path.join(self.dir, "out"), "rb") as f:
            f.seek(self.start)
            return f.read().decode(errors="replace")

    def ready(self, ports, limit=30):
        """True once it listens on all the ports; False if it ended, or does not."""
        end = real_monotonic() + limit
        todo = list(ports)
        while todo:
            if self.p.poll() is not None:
                return False
            if accepts(todo[0]):
                todo.pop(0)
                continue
            if real_monotonic() > end:
                return False
            real_sleep(.02)
        return True

    def signal(self, sig=signal.SIGTERM):
        self.p.send_signal(sig)

    def wait(self, limit=20):
        """exit status, None if it goes on."""
        end = real_monotonic() + limit
        while self.p.poll() is None and real_monotonic() < end:
            real_sleep(.005)
        return self.p.poll()

    def kill(self):
        if self.p.poll() is None:
            self.p.kill()
        while self.p.poll() is None:
            real_sleep(.01)
        self.out.close()


def _child():
    signal.signal(signal.SIGINT, signal.default_int_handler)


class Space:
    """a directory of its own."""

    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mon-process-")
        self.ps = []
        return self

    def run(self, *a, **kw):
        p = Process(*a, directory=self.dir, **kw)
        self.ps.append(p)
        return p

    def __exit__(self, *a):
        for p in self.ps:
            p.kill()
        shutil.rmtree(self.dir, ignore_errors=True)


class Tap:
    """takes the place of a Sim for clients of a process (Client.log, Client.addr)."""

    def __init__(self, addr):
        self.addr = addr
        self.trace = []

    def log(self, client, kind, pkt=None, raw=None):
        self.trace.append((len(self.trace), 0, client, kind, pkt))

    def dump(self, last=200):
        return ["%s %s %s" % (c, k, W.show(p) if isinstance(p, dict) else p) for n, t, c, k, p in self.trace[-last:]]

    def stop(self):
        pass
