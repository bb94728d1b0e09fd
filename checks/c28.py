"""C28: an interrupted generation of the edit distance tables does no harm.

The real generator, on bitmap classes of few bits, killed before every file
operation and inside every write at every amount of it, and every pair of such
kills; then every table is asked for (right, or an error), the generator runs
again to its end, and every table must be right.
"""

import builtins
import io
import os
import runpy
import shutil
import signal
import sys

import numpy as np

from vlib import enc, env, report
from checks import c17, c19

BITS = {"HGR": 3, "DHGR": 4}
_want = None
_base = None


class Killer(c19.Crasher):
    """Kills the process at an event; a write may get out in part."""

    def audit(self, name, args):
        if self.active and name in ("open", "os.remove", "os.rename",
                                    "os.mkdir", "os.truncate", "os.link",
                                    "os.rmdir"):
            path = str(args[0]) if args else ""
            if name == "open" and not self.writes(args):
                return
            if "transcoder" in path and "data" in path and \
                    not path.endswith(".py"):
                self.event(name)

    @staticmethod
    def writes(args):
        mode, flags = args[1], args[2]
        if isinstance(mode, str):
            return bool(set(mode) & set("wax+"))
        return bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))

    def install(self):
        sys.addaudithook(self.audit)
        real = io.open
        me = self

        def opener(file, mode="r", *a, **k):
            if isinstance(file, (str, bytes, os.PathLike)) and \
                    set(mode) & set("wax+") and "b" in mode:
                f = real(file, mode, *a, **k)
                return Torn(me, f)
            return real(file, mode, *a, **k)

        builtins.open = io.open = opener
        import zipfile
        if getattr(zipfile, "io", None) is not None:
            zipfile.io = type("io", (), dict(
                (n, getattr(io, n)) for n in dir(io)))
            zipfile.io.open = staticmethod(opener)


class Torn(io.RawIOBase):
    """An unbuffered file: every write is an event that may be cut short."""

    def __init__(self, killer, f):
        self._k, self._f = killer, f

    def write(self, b):
        b = bytes(b)
        if not b:
            return 0
        if self._k.event("write %d" % len(b)):
            self._f.write(b[:self._k.torn])
            self._f.flush()
            os._exit(77)
        n = self._f.write(b)
        self._f.flush()
        return n

    def readable(self):
        return self._f.readable()

    def writable(self):
        return True

    def seekable(self):
        return self._f.seekable()

    def readinto(self, b):
        return self._f.readinto(b)

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def flush(self):
        if not self._f.closed:
            self._f.flush()

    def fileno(self):
        return self._f.fileno()

    @property
    def name(self):
        return self._f.name

    @property
    def mode(self):
        return self._f.mode

    def close(self):
        self._f.close()
        super().close()


def prepare():
    """Small classes under the names the generator uses."""
    global _want, _base
    screen = enc.modules()[0]
    import make_data_tables as mdt
    import palette
    _want = {}
    classes = {}
    for mode in ("HGR", "DHGR"):
        classes[mode] = c17.tiny_class(mode, BITS[mode], mode)
    for mode, cls in classes.items():
        for pid, pal in palette.PALETTES.items():
            _want[mode, pid] = c17.reference_table(
                mode, cls, BITS[mode], c17.cost_matrix(pal))
    screen.HGRBitmap = classes["HGR"]
    screen.DHGRBitmap = classes["DHGR"]
    for n, v in list(vars(mdt).items()):
        if isinstance(v, type) and issubclass(v, screen.Bitmap):
            setattr(mdt, n, classes["DHGR" if "DHGR" in n else "HGR"])
    # The difference of two colours does not depend on what is on the disk.
    real = getattr(mdt, "compute_diff_matrix", None)
    if callable(real):
        known = {p: real(p) for p in palette.PALETTES.values()}
        mdt.compute_diff_matrix = lambda pal: known[pal].copy()
    if not callable(getattr(mdt, "main", None)):
        raise report.InterfaceChanged("make_data_tables.main")


def generate(killer=None):
    import make_data_tables as mdt
    if killer:
        killer.install()
    sys.argv = ["make_data_tables.py"]
    mdt.main()


def run_killed(at, torn):
    """Generates in a child that is killed at an event; True if it was."""
    pid = os.fork()
    if not pid:
        rc = 1
        try:
            generate(Killer(at, torn))
            rc = 0
        except SystemExit:
            rc = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(rc)
    st = os.waitpid(pid, 0)[1]
    return os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1


def tables_state():
    """Asks for every table; maps it to right, refused or wrong."""
    screen = enc.modules()[0]
    res = {}
    for (mode, pid), ref in _want.items():
        cls = c17.tiny_class(mode, BITS[mode], mode)
        try:
            got = np.asarray(cls.edit_distances(pid)).astype(np.int64)
            ok = got.size == ref.size and np.array_equal(
                got.reshape(ref.shape), ref)
            res[mode, pid] = "right" if ok else "wrong"
        except Exception:
            res[mode, pid] = "refused"
    assert screen
    return res


def fresh(start):
    shutil.rmtree("transcoder")
    os.mkdir("transcoder")
    if start == "empty":
        os.mkdir("transcoder/data")
    elif start == "complete":
        shutil.copytree(_base, "transcoder/data")


def trace_run(start):
    """The events of an undisturbed run, through a pipe from a child."""
    fresh(start)
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            k = Killer(-1)
            generate(k)
            os.write(w, "\n".join(k.trace).encode())
            os._exit(0)
        except BaseException:
            os._exit(1)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    return data.decode().split("\n") if data else []


def kills(trace, every):
    """All (event, torn) of a run; every: step between torn lengths."""
    out = []
    for n, ev in enumerate(trace, 1):
        out.append((n, None))
        if ev.startswith("write "):
            size = int(ev.split()[1])
            out += [(n, t) for t in sorted(set(
                list(range(1, size, every)) + [size - 1])) if 0 < t < size]
    return out


def name(key):
    return "%s palette %s" % (key[0], key[1].name)


def history(case, part):
    fresh(case["start"])
    for at, torn in case["kills"]:
        rc = run_killed(at, torn)
        if rc == 1:
            part.violation(case, "the generator failed on what an interrupted "
                           "one left")
            return
        part.outcome("killed" if rc == 77 else "finished before the kill")
        st = tables_state()
        part.count(states=1, transitions=len(st))
        for k, v in st.items():
            part.outcome("after a kill: " + v)
            if v == "wrong":
                part.violation(case, "after an interrupted generation the "
                               "wrong table is used for " + name(k))
                return
    if case.get("again", True):
        rc = run_killed(-1, None)
        st = tables_state()
        part.count(states=1, transitions=len(st), traces=1)
        bad = [k for k, v in st.items() if v != "right"]
        if rc or bad:
            part.violation(case, "after generating again the table for %s is "
                           "%s" % (name(bad[0]), st[bad[0]]) if bad else
                           "generating again fails")


def worker(item, part):
    d = os.path.join(env.scratch(), "c28_%d" % os.getpid())
    os.makedirs(d + "/transcoder", exist_ok=True)
    os.chdir(d)
    for case in item:
        history(case, part)
        if part.nviol > 3:
            break


def setup():
    global _base
    prepare()
    # A complete set of tables, made without any interference.
    d = os.path.join(env.scratch(), "c28_base")
    os.makedirs(d + "/transcoder")
    os.chdir(d)
    rc = run_killed(-1, None)
    _base = os.path.join(d, "transcoder", "data")
    return rc == 0 and set(tables_state().values()) == {"right"}


def as_program():
    """The generator started as the program it is; what is wrong, or None."""
    d = os.path.join(env.scratch(), "c28_program")
    os.makedirs(d + "/transcoder")
    os.chdir(d)
    pid = os.fork()
    if not pid:
        rc = 1
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            sys.argv = ["transcoder/make_data_tables.py"]
            runpy.run_path(os.path.join(
                env.REPO, "transcoder", "make_data_tables.py"),
                run_name="__main__")
            rc = 0
        except SystemExit as e:
            rc = 1 if e.code else 0
        except BaseException:
            import traceback
            traceback.print_exc()
        os._exit(rc)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return None             # it works on the large classes
    bad = [k for k, v in tables_state().items() if v != "right"]
    if os.WEXITSTATUS(st) or bad:
        return "started as a program the generator %s" % (
            "fails" if os.WEXITSTATUS(st) else
            "does not make the table for " + name(bad[0]))
    return None


def run(chk):
    deep = chk.thorough
    ok = setup()
    if not ok:
        chk.violation({"kills": [], "start": "none"}, "an undisturbed "
                      "generation does not make the right tables")
        return
    text = as_program()
    if text:
        chk.violation({"program": 1, "kills": [], "start": "none"}, text)
        return
    d = os.path.join(env.scratch(), "c28_plan")
    os.makedirs(d + "/transcoder")
    os.chdir(d)
    cases = []
    for start in ("none", "empty", "complete"):
        trace = trace_run(start)
        chk.sample({"start": start, "events": trace[:14]})
        one = kills(trace, 1 if deep else 48)
        few = kills(trace, 1 << 30) if deep else \
            [(n, None) for n, ev in enumerate(trace, 1)]
        cases += [dict(start=start, kills=[k]) for k in one]
        if start != "complete" or deep:
            step = 1 if deep else 3
            cases += [dict(start=start, kills=[a, b]) for a in few[::step]
                      for b in few[::step]]
    n = 64
    report.pmap(chk, worker, [cases[i::n] for i in range(n)])
    chk.assumptions += [
        "writes reach the disk in order and are cut at a byte",
        "the generator is run on bitmap classes of 3 and 4 bits"]
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = (
        "generation from no directory, an empty and a complete one; every "
        "single kill (writes cut at every %s byte), every pair%s of kills" % (
            "" if deep else "48th", "" if deep else " of every third"))


def replay(case, part):
    if setup():
        if case.get("program"):
            text = as_program()
            if text:
                part.violation(case, text)
            return
        worker([case], part)
    else:
        part.violation(case, "an undisturbed generation is wrong")
