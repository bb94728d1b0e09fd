"""Locates /repo, prepares a private scratch directory and imports the code.

Everything a check does happens in a scratch directory under /tmp which is
removed when the check ends.  The directory looks like the repository root to
the code under test (relative paths `player/iivision.dbg`, `transcoder/data/`).
"""

import atexit
import os
import shutil
import subprocess
import sys
import tempfile
import types

sys.dont_write_bytecode = True

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NCPU = max(1, min(8, os.cpu_count() or 1))

_scratch = None


def scratch():
    """Creates (once) and enters the scratch directory."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="verif-")
        pid = os.getpid()

        def _clean(path=_scratch):
            if os.getpid() == pid:
                os.chdir("/")
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(_clean)
        os.symlink(os.path.join(REPO, "player"),
                   os.path.join(_scratch, "player"))
        os.makedirs(os.path.join(_scratch, "transcoder", "data"))
        os.chdir(_scratch)
    return _scratch


_used = 0


def unique(prefix):
    """A name for files that no earlier case used.

    A converter thread of an earlier case may still be at work among its own.
    """
    global _used
    _used += 1
    return "%s_%d_%d" % (prefix, os.getpid(), _used)


def use_transcoder():
    scratch()
    path = os.path.join(REPO, "transcoder")
    if path not in sys.path:
        sys.path.insert(0, path)


def use_simulator():
    scratch()
    sys.path.insert(0, os.path.join(REPO, "simulator"))


def use_server():
    scratch()
    sys.path.insert(0, os.path.join(REPO, "server"))


def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class _Anything:
    def __getattr__(self, name):
        return self

    def __call__(self, *a, **k):
        return _jit


def stub_librosa_deps():
    """librosa itself is installed; numba and scikit-learn are not.

    librosa only uses them for jit decorators and for functions the transcoder
    never calls, so identity decorators and empty modules are enough.
    """
    if "numba" in sys.modules:
        return

    def mod(name, **kw):
        m = types.ModuleType(name)
        m.__dict__.update(kw)
        sys.modules[name] = m
        return m

    numba = mod("numba", jit=_jit, njit=_jit, vectorize=_jit,
                guvectorize=lambda *a, **k: (lambda f: f), stencil=_jit,
                prange=range)
    numba.__getattr__ = lambda a: _Anything()

    def cls_attr(a):
        if a.startswith("__"):
            raise AttributeError(a)
        return type(a, (), {})

    sk = mod("sklearn")
    sk.__path__ = []
    sk.__getattr__ = cls_attr
    for sub in ("decomposition", "cluster", "feature_extraction",
                "neighbors"):
        m = mod("sklearn." + sub)
        m.__getattr__ = cls_attr
        setattr(sk, sub, m)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       **kw)
    if p.returncode:
        raise RuntimeError("%r failed:\n%s" % (
            cmd, p.stdout.decode("utf8", "replace")[-3000:]))
    return p.stdout


def ctool(name):
    """Compiles csrc/<name>.c into the scratch directory."""
    out = os.path.join(scratch(), name)
    if not os.path.exists(out):
        run(["gcc", "-O3", "-march=native", "-std=gnu11", "-pthread", "-o",
             out, os.path.join(VERIF, "csrc", name + ".c"), "-lm"])
    return out
