"""C19: converted frames left by earlier runs never spoil a later one.

Every crash point of a conversion run (process killed before or after each
file operation, bmp2dhr stopped after any of several amounts of output), every
pair of crashes, every file of the cache cut to several sizes or missing, and
every sequence of runs with different modes and palettes; afterwards a
complete run of the real frame grabber must deliver exactly the right frames.
"""

import builtins
import io
import itertools
import os
import shutil
import signal
import sys
import time

from vlib import env, report, world
from checks import c18

_w = None
SIZES = (0, 1, 4096, 8191)
TORN_WRITES = (0, 54, 5000)


def setup():
    global _w
    _w = world.World()
    import frame_grabber  # noqa: F401


class Crasher:
    """Counts the events of a run and kills the process at one of them."""

    def __init__(self, at, torn=None):
        self.at, self.torn = at, torn
        self.n = 0
        self.trace = []
        self.active = True

    def event(self, name):
        """True if the driver is to leave a torn file behind."""
        if not self.active:
            return False
        self.n += 1
        self.trace.append(name)
        if self.n == self.at and self.torn is None:
            os._exit(77)
        return self.n == self.at

    def audit(self, name, args):
        if self.active and name in ("open", "os.remove", "os.rename",
                                    "os.mkdir", "os.truncate", "os.link",
                                    "shutil.move", "os.unlink"):
            try:
                path = str(args[0])
            except Exception:
                return
            if "c19_" in path:
                self.event(name + " " + os.path.basename(path))

    def install(self):
        _w.fault = self.world
        sys.addaudithook(self.audit)
        real = builtins.open

        def opener(file, mode="r", *a, **k):
            f = real(file, mode, *a, **k)
            if isinstance(file, (str, bytes, os.PathLike)) and \
                    "c19_" in os.fsdecode(file) and set(mode) & set("wax+") \
                    and not _w.converting:
                return Written(self, f, os.fsdecode(file))
            return f

        builtins.open = io.open = opener

    def world(self, kind, detail):
        if self.event(kind) and kind == "output":
            path, data = detail
            with open(path, "wb") as f:
                f.write(bytes(data)[:self.torn])
            os._exit(77)
        return None


class Written:
    """A file the grabber itself writes; the process may die meanwhile."""

    def __init__(self, crasher, f, path):
        self._c, self._f, self._path = crasher, f, path

    def __getattr__(self, name):
        return getattr(self._f, name)

    def __iter__(self):
        return iter(self._f)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        if not self._f.closed:
            self._f.flush()
            if self._c.event("write"):
                if self._c.torn < os.path.getsize(self._path):
                    os.truncate(self._path, self._c.torn)
                os._exit(77)
        self._f.close()


def convert(case, name, mode, pal, n):
    """Runs the frame grabber to its end; returns what is wrong or None."""
    import frame_grabber
    import palette
    import video_mode
    want = wanted(mode, pal, n)
    _w.frames = want
    fg = frame_grabber.FileFrameGrabber(
        name + ".mp4", video_mode.VideoMode(mode), palette.Palette(pal))
    got = []
    for main, aux in fg.frames():
        got.append((c18.contents(main), c18.contents(aux)))
    if len(got) != n:
        return "%d frames of %d" % (len(got), n)
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            return "frame %d is wrong" % i
    return None


def wanted(mode, pal, n):
    return [(bytes(x ^ (pal * 5 & 0x7F) for x in m),
             None if a is None else bytes(x ^ (pal * 3 & 0x7F) for x in a))
            for m, a in c18.pics(n, mode)]


def child(fn, timeout=60):
    """Runs fn in a forked process; returns its text, "" or "hangs"."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                text = fn() or ""
            except BaseException as e:
                if report.interface_changed(e):
                    text = "INTERFACE %s" % e
                else:
                    text = "%s: %s" % (type(e).__name__, e)
            os.write(w, text.encode("utf8", "replace")[:4000] + b"\0")
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    deadline = time.time() + timeout
    import select
    while True:
        left = deadline - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return "hangs"
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    if not data.endswith(b"\0"):
        return None                       # killed on purpose
    text = data[:-1].decode()
    if text.startswith("INTERFACE"):
        raise report.InterfaceChanged(text)
    return text


def crashing(case, name, mode, pal, n, at, torn):
    c = Crasher(at, torn)

    def fn():
        c.install()
        return convert(case, name, mode, pal, n)

    return child(fn)


def events(name, mode, n):
    """Events of a run without a crash."""
    def fn():
        c = Crasher(0)
        c.install()
        text = convert(None, name, mode, 5, n)
        c.active = False
        return text or "\n".join(c.trace)

    out = child(fn)
    return out.split("\n")


def complete(case, part, name, mode, pal, n, what):
    text = child(lambda: convert(case, name, mode, pal, n))
    part.count(states=1, traces=1, transitions=n)
    if text is None:
        text = "the run was killed"
    if text:
        part.violation(case, "%s, then a complete run: %s" % (what, text))
    return not text


def crash(item, part):
    _, mode, n, points = item
    name = "c19_%d" % os.getpid()
    shutil.rmtree(name, ignore_errors=True)
    for p in points:
        crashing(item, name, mode, 5, n, *p)
        part.count(transitions=1)
    complete(dict(crash=list(item)), part, name, mode, 5, n,
             "killed at %s" % (points,))
    part.outcome("crash x%d" % len(points))
    shutil.rmtree(name, ignore_errors=True)


def torn(item, part):
    _, mode, n, pairs = item
    name = "c19_%d" % os.getpid()
    shutil.rmtree(name, ignore_errors=True)
    child(lambda: convert(None, name, mode, 5, n))
    files = [os.path.join(d, f) for d, _, fs in os.walk(name) for f in fs]
    files.sort()
    store = {f: open(f, "rb").read() for f in files}
    # A file cut short, missing, or (with `pairs`) two files.
    cuts = [(f, s) for f in files for s in SIZES + (None,)]
    combos = [(c,) for c in cuts]
    if pairs:
        combos += [c for c in itertools.combinations(cuts, 2)
                   if c[0][0] != c[1][0]]
    for combo in combos:
        for f in files:
            with open(f, "wb") as h:
                h.write(store[f])
        for f, size in combo:
            if size is None:
                os.remove(f)
            else:
                with open(f, "wb") as h:
                    h.write(store[f][:size])
        if not complete(dict(torn=list(item)), part, name, mode, 5, n,
                        "left behind %s" % [
                            (os.path.basename(f), s) for f, s in combo]):
            break
    part.outcome("cut files", len(combos))
    if not files:
        part.outcome("nothing is kept")
    shutil.rmtree(name, ignore_errors=True)


def runs(item, part):
    """Runs with other modes and palettes in between."""
    _, seq, n = item
    name = "c19_%d" % os.getpid()
    shutil.rmtree(name, ignore_errors=True)
    for k, (mode, pal) in enumerate(seq):
        if not complete(dict(runs=list(item)), part, name, mode, pal, n,
                        "runs %s" % (seq[:k],)):
            break
    part.outcome("run sequences")
    shutil.rmtree(name, ignore_errors=True)


PARTS = dict(crash=crash, torn=torn, runs=runs)


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    setup()
    import palette
    deep = chk.thorough
    chk.assumptions += [
        "a file that has its full length has its full content (bmp2dhr is "
        "stopped part way, but the file system loses nothing it was given)"]
    items = []
    for mode in (0, 1):
        n = 3 if deep else 2
        tr = events("c19_ev", mode, n)
        shutil.rmtree("c19_ev", ignore_errors=True)
        chk.sample({"mode": mode, "events": tr[:12]})
        points = [(k, None) for k in range(1, len(tr) + 1)]
        points += [(k, s) for k, e in enumerate(tr, 1) if e == "output"
                   for s in SIZES]
        points += [(k, s) for k, e in enumerate(tr, 1) if e == "write"
                   for s in TORN_WRITES]
        for p in points:
            items.append(("crash", mode, n, (p,)))
        for p, q in itertools.product(points, repeat=2):
            if deep or (p[0] * 5 + q[0]) % 6 == 0:
                items.append(("crash", mode, n, (p, q)))
        items.append(("torn", mode, n, True))
    pals = sorted(p.value for p in palette.PALETTES)
    confs = [(m, p) for m in (0, 1) for p in pals]
    for k in (2, 3):
        for seq in itertools.product(confs, repeat=k):
            items.append(("runs", seq, 2))
    report.pmap(chk, work, items)
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("every crash point of %d frames, %s pairs of "
                          "crashes, pairs of cut files" % (
                              n, "all" if deep else "a sixth of the"))


def replay(case, part):
    setup()
    for k, fn in PARTS.items():
        if k in case:
            it = case[k]
            if k == "crash":
                it[3] = tuple(tuple(p) for p in it[3])
            if k == "runs":
                it[1] = tuple(tuple(p) for p in it[1])
            fn(tuple(it), part)
