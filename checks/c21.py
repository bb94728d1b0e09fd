"""C21: every client that listens gets the whole stream, byte for byte.

The real server on the loopback; every history of client behaviours up to a
length, each followed by a client that reads to the end; all interleavings of
the steps of two or three clients; file sizes from empty to megabytes; the file
missing for a while; the server killed and started again on the same port.
"""

import ctypes
import itertools
import os
import runpy
import signal
import socket
import struct
import sys
import time

from vlib import env, report

_counter = 0
LIMIT = 30
DEFAULT = 1977         # where the player asks for the stream
PROGRAM = os.path.join(env.REPO, "server", "server.py")
PAUSE = 0.6            # of a client that pauses ...
FASTER = 600           # ... while the server's own timeouts run this much faster


def setup():
    env.use_server()
    import socketserver  # noqa: F401


def content(n):
    return bytes((i * 7 + (i >> 8) * 13 + (i >> 16)) & 255 for i in range(n)) \
        if n < 200000 else (bytes(range(256)) * 17 + b"x") * (n // 4353 + 1)


_cache = {}


def data_of(n):
    if n not in _cache:
        _cache[n] = content(n)[:n]
    return _cache[n]


class Down(Exception):
    pass


def listening(port):
    want = ":%04X" % port
    for name in ("/proc/net/tcp", "/proc/net/tcp6"):
        try:
            with open(name) as f:
                for line in f:
                    w = line.split()
                    if len(w) > 3 and w[1].endswith(want) and w[3] == "0A":
                        return True
        except FileNotFoundError:
            pass
    return False


def hurry():
    """Lets the time limits a server sets on sockets pass quickly."""
    real = socket.socket.settimeout
    real_opt = socket.socket.setsockopt
    real_default = socket.setdefaulttimeout

    def scale(t):
        return max(0.02, t / FASTER) if t else t

    def settimeout(self, t):
        return real(self, scale(t))

    def setsockopt(self, level, opt, *value):
        if level == socket.SOL_SOCKET and opt in (
                socket.SO_SNDTIMEO, socket.SO_RCVTIMEO) and \
                isinstance(value[0], bytes) and len(value[0]) == 16:
            sec, usec = struct.unpack("ll", value[0])
            t = scale(sec + usec / 1e6)
            value = (struct.pack("ll", int(t), int(t % 1 * 1e6)),)
        elif level == socket.IPPROTO_TCP and \
                opt == getattr(socket, "TCP_USER_TIMEOUT", 18):
            value = (int(scale(value[0] / 1e3) * 1e3),)
        return real_opt(self, level, opt, *value)

    socket.socket.settimeout = settimeout
    socket.socket.setsockopt = setsockopt
    socket.setdefaulttimeout = lambda t: real_default(scale(t))


class Server:
    def __init__(self, size, port=None):
        global _counter
        self.size = size
        self.path = os.path.join(env.scratch(), "stream%d" % os.getpid())
        self.put(size)
        # Below the range the system gives to clients.
        for attempt in range(20):
            if port is None:
                _counter += 1
                self.port = 10000 + (os.getpid() * 37 + _counter * 9973) % \
                    20000
                if listening(self.port):
                    continue
            else:
                self.port = port
            if self.start():
                return
            if port is not None:
                break
        raise Down("the server does not start" +
                   (" again on its port" if port else ""))

    def put(self, size, over=False):
        """Gives the server this file; over: the file that is there."""
        self.size = size
        name = self.path if over else self.path + ".new"
        with open(name, "wb") as f:
            f.write(data_of(size))
        if not over:
            os.rename(name, self.path)

    def start(self):
        self.pid = os.fork()
        if self.pid == 0:
            try:
                # Not to outlive a check that is ended.
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1, 2):
                    os.dup2(null, fd)
                hurry()
                sys.argv = [PROGRAM, self.path]
                if self.port != DEFAULT:
                    sys.argv += ["--port", str(self.port)]
                runpy.run_path(PROGRAM, run_name="__main__")
            finally:
                os._exit(1)
        end = time.time() + LIMIT
        while time.time() < end:
            if os.waitpid(self.pid, os.WNOHANG)[0]:
                self.pid = None
                return False
            if listening(self.port):
                return True
            time.sleep(0.002)
        self.stop()
        raise Down("the server does not listen on port %d" % self.port)

    def stop(self):
        if self.pid:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.pid = None


class Client:
    def __init__(self, port):
        self.s = socket.socket()
        self.s.settimeout(LIMIT)
        self.s.connect(("127.0.0.1", port))
        self.got = b""

    def read(self, n):
        """Up to n more bytes; stops at the end of the stream."""
        parts = []
        while n > 0:
            b = self.s.recv(min(n, 1 << 16))
            if not b:
                break
            parts.append(b)
            n -= len(b)
        self.got += b"".join(parts)

    def all(self):
        parts = []
        while True:
            b = self.s.recv(1 << 16)
            if not b:
                break
            parts.append(b)
        self.got += b"".join(parts)

    def close(self):
        self.s.close()

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER,
                          struct.pack("ii", 1, 0))
        self.s.close()


def good(srv, got, part, case, what):
    want = data_of(srv.size)
    if got == want:
        return True
    at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
              min(len(got), len(want)))
    part.violation(case, "%s: received %d bytes of %d, first difference at "
                   "%d" % (what, len(got), len(want), at))
    return False


def behave(srv, what):
    """One client; returns the bytes of one that reads to the end."""
    c = Client(srv.port)
    size = srv.size
    if what == "full":
        c.all()
        c.close()
        return c.got
    if what == "slow":
        while True:
            before = len(c.got)
            c.read(max(1, size // 7))
            if len(c.got) == before:
                break
        c.close()
        return c.got
    if what == "pauses":
        # As the player does when a key is pressed.
        for n in (0, 1000, size // 2):
            c.read(n)
            time.sleep(PAUSE)
        c.all()
        c.close()
        return c.got
    if what == "half-closed":
        c.s.shutdown(socket.SHUT_WR)
        c.all()
        c.close()
        return c.got
    if what == "talks":
        c.s.sendall(b"GET / HTTP/1.0\r\n\r\n")
        try:
            c.all()
        except ConnectionResetError:
            pass                  # unread input makes the close a reset
        c.close()
        return None
    if what == "leaves":
        c.close()
    elif what == "resets":
        c.reset()
    elif what == "resets part":
        c.read(size // 2)
        c.reset()
    elif what == "closes part":
        c.read(size // 3 + 1)
        c.close()
    return None


BEHAVIOURS = ("full", "slow", "half-closed", "talks", "leaves", "resets",
              "resets part", "closes part")
NEW = ("new longer", "new shorter", "new longer over", "new shorter over")


def history(item, part):
    _, size, hist = item
    case = dict(history=[size, list(hist)])
    srv = Server(size)
    try:
        for k, what in enumerate(tuple(hist) + ("full",)):
            if what == "missing":
                # Connecting before the rename would race with the server.
                os.rename(srv.path, srv.path + ".away")
                try:
                    c = Client(srv.port)
                    try:
                        c.all()
                    except ConnectionResetError:
                        pass
                    c.close()
                finally:
                    os.rename(srv.path + ".away", srv.path)
                got = None
            elif what.startswith("new"):
                srv.put(max(1, size // 2) + k if "shorter" in what else
                        size * 2 + k, over="over" in what)
                got = behave(srv, "full")
            else:
                got = behave(srv, what)
            part.count(transitions=1)
            if got is not None and not good(
                    srv, got, part, case, "client %d of %s" % (k, hist[:9])):
                return
            if os.waitpid(srv.pid, os.WNOHANG)[0]:
                srv.pid = None
                part.violation(case, "the server ended after %s" % (
                    hist[max(0, k - 9):k + 1],))
                return
    except (socket.timeout, ConnectionError) as e:
        part.violation(case, "after %s: %s: %s" % (hist[:9], type(e).__name__, e))
    finally:
        srv.stop()
    part.count(states=1, traces=1)
    part.outcome("history of %s" % (len(hist) if len(hist) < 10 else "many"))


def interleave(item, part):
    """Steps of several clients in one order."""
    _, size, order, ends = item
    case = dict(interleave=[size, list(order), list(ends)])
    srv = Server(size)
    clients = {}
    step = {}
    try:
        for who in order:
            k = step[who] = step.get(who, 0) + 1
            part.count(transitions=1)
            if k == 1:
                clients[who] = Client(srv.port)
            elif k == 2:
                clients[who].read(size // 2)
            elif ends[who] == "full":
                clients[who].all()
                clients[who].close()
                if not good(srv, clients[who].got, part, case,
                            "client %d in order %s" % (who, order)):
                    return
            elif ends[who] == "reset":
                clients[who].reset()
        good(srv, behave(srv, "full"), part, case, "client after %s" % (
            order,))
    except (socket.timeout, ConnectionError) as e:
        part.violation(case, "order %s: %s: %s" % (
            order, type(e).__name__, e))
    finally:
        srv.stop()
    part.count(states=1, traces=1)
    part.outcome("interleaving")


def restart(item, part):
    """Killed with connections in every state, started again."""
    _, size, what = item
    case = dict(restart=[size, what])
    try:
        srv = Server(size)
    except Down as e:
        part.violation(case, str(e))
        return
    held = None
    try:
        if what == "held":
            held = Client(srv.port)
            held.read(min(size, 100))
        elif what != "none":
            behave(srv, what)
        srv.stop()
        if held:
            held.close()
        srv = Server(size, srv.port)
        good(srv, behave(srv, "full"), part, case, "after restart (%s)" %
             what)
    except Down as e:
        part.violation(case, "%s after %s" % (e, what))
    except (socket.timeout, ConnectionError) as e:
        part.violation(case, "restart after %s: %s: %s" % (
            what, type(e).__name__, e))
    finally:
        srv.stop()
    part.count(states=1, traces=1, transitions=2)
    part.outcome("restart")


def default_port(item, part):
    """Without an option: the port the player connects to."""
    if listening(DEFAULT):
        return                      # someone else's
    srv = None
    try:
        srv = Server(5000, DEFAULT)
        good(srv, behave(srv, "full"), part, dict(default_port=[]),
             "on the default port")
        part.count(states=1, traces=1, transitions=1)
    except Down as e:
        if not listening(DEFAULT):
            part.violation(dict(default_port=[]), str(e))
    except (socket.timeout, ConnectionError) as e:
        part.violation(dict(default_port=[]), "%s: %s" % (
            type(e).__name__, e))
    finally:
        if srv:
            srv.stop()


PARTS = dict(history=history, interleave=interleave, restart=restart,
             default_port=default_port)
_failed = [0]


def work(item, part):
    if _failed[0] > 2:
        return                      # enough; clients wait long for nothing
    try:
        PARTS[item[0]](item, part)
    except Down as e:
        part.violation({item[0]: list(item[1:])}, str(e))
    _failed[0] += bool(part.nviol)


def orders(n):
    """Interleavings of three steps of each of n clients."""
    return sorted(set(itertools.permutations(sum(
        ([k] * 3 for k in range(n)), []))))


def run(chk):
    setup()
    deep = chk.thorough
    items = []
    big = 6000001
    for size in (0, 1, 2047, 2048, 2049, 65536, 1000000, big):
        for what in BEHAVIOURS + ("missing",):
            items.append(("history", size, (what,)))
    for size in (2048, 1000000, big):
        for hist in (("pauses",), ("pauses", "pauses"),
                     ("closes part", "pauses"), ("pauses", "resets part")):
            items.append(("history", size, hist))
    for size in (1, 5000, 1000000):
        for new in NEW:
            items.append(("history", size, (new,)))
            for what in BEHAVIOURS + NEW:
                items.append(("history", size, (what, new)))
                if deep:
                    items.append(("history", size, (new, what, new)))
    for k in (2, 3):
        for hist in itertools.product(BEHAVIOURS + ("missing",), repeat=k):
            if k == 2 or deep:
                items.append(("history", 50000, hist))
                items.append(("history", big, hist))
            elif "missing" not in hist:
                items.append(("history", 50000, hist))
    for order in orders(2):
        for ends in itertools.product(("full", "reset"), repeat=2):
            items.append(("interleave", 20000, order, ends))
    if deep:
        for order in orders(3):
            items.append(("interleave", 20000, order, ("full",) * 3))
    for what in BEHAVIOURS + ("none", "held"):
        for size in (5000, big):
            items.append(("restart", size, what))
    chk.assumptions += ["the loopback network; time limits a server sets on sockets "
                        "run %d times faster than the pauses of clients" %
                        FASTER,
                        "a client that stops reading "
                        "without leaving may hold up the others"]
    # Many clients in the life of one server.
    many = 1200 if deep else 200
    for what in BEHAVIOURS + ("missing",):
        items.append(("history", 3000, (what,) * many))
    items.append(("history", 3000, (BEHAVIOURS * many)[:many]))
    items.append(("default_port",))
    report.pmap(chk, work, items[::-1])
    chk.sample({"history": items[100]})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all histories of up to 3 of %d client behaviours; "
                          "all interleavings of %d clients' steps; one server "
                          "for %d clients" % (
                              len(BEHAVIOURS), 3 if deep else 2, many))


def replay(case, part):
    setup()
    for k in PARTS:
        if k in case:
            it = case[k]
            work((k,) + tuple(tuple(x) if isinstance(x, list) else x
                              for x in it), part)
