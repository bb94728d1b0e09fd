"""C31: a transcoding that fails says so and leaves no complete stream.

A fault at every point where the real main program takes something in (probing
the video, opening it, each picture, each conversion and file of it, opening
the sound, each block of it) and at many sizes of the file it writes.  A run
that ends without an error must have made the stream of the undisturbed run.
"""

import itertools
import os
import pickle
import resource
import select
import shutil
import signal

from vlib import enc, env, report, world

RATE = 1470
FPS = 10
NFRAMES = 6
PIECE = 256
LIMIT = 60                # seconds for a run of a fraction of a second

_w = _codec = None
_refs = {}


def setup():
    global _w, _codec
    if _w is None:
        _w = world.World()
        _codec = world.Codec()
    import main  # noqa: F401
    for mode in ("HGR", "DHGR"):
        enc.load(mode, 5)


class Raised(Exception):
    """An error of a kind the transcoder does not know."""


def kinds():
    import audioread
    return dict(OSError=OSError(5, "Input/output error"),
                FileNotFoundError=FileNotFoundError(2, "gone"),
                BrokenPipeError=BrokenPipeError(32, "Broken pipe"),
                ValueError=ValueError("bad data"),
                IndexError=IndexError("index out of range"),
                KeyError=KeyError("video"),
                EOFError=EOFError("end of file"),
                RuntimeError=RuntimeError("ffmpeg"),
                MemoryError=MemoryError(),
                DecodeError=audioread.DecodeError(),
                Raised=Raised("unknown"),
                KeyboardInterrupt=KeyboardInterrupt())


class Sound(world.Pieces):
    """Decoder that fails as the case says."""

    size = PIECE
    opened = 0
    hook = None

    def __init__(self, path):
        n = Sound.opened
        Sound.opened += 1
        Sound.hook("open", (n, 0))
        super().__init__(path)
        self._pass = n

    def read_data(self, *a, **k):
        k = -1
        for k, b in enumerate(super().read_data()):
            Sound.hook("sound", (self._pass, k))
            yield b
        Sound.hook("sound", (self._pass, k + 1))

    __iter__ = read_data


def marker(k):
    return (8 + k) * 256 + 20


def pictures(mode):
    res = []
    for k in range(NFRAMES):
        im = enc.image({10: 0x2A, marker(k): 0x33})
        res.append((im, im if mode == "DHGR" else None))
    return res


def transcode(case, d):
    """Runs the real main program; ("ok"|"error", text, stream or None)."""
    import audioread
    faults = [tuple(tuple(x) if isinstance(x, list) else x for x in f)
              for f in case["faults"]]
    table = {f[:2]: f[2] for f in faults}
    outputs = {}

    def fail(where):
        what = table.get(where)
        if what in KINDS:
            raise KINDS[what]
        return what

    def event(kind, detail):
        if kind == "output":
            path, data, idx = detail
            n = outputs[idx] = outputs.get(idx, -1) + 1
            what = fail(("output", (idx, n)))
            if what == "none":
                # Written and lost again: the file system is full.
                raise Raised("bmp2dhr")
            if what:
                return dict(empty=bytearray(), short=data[:-1],
                            half=data[:4096])[what] or Nothing()
            return None
        if kind == "exit":
            return fail(("exit", (detail, 0))) and 1
        fail((kind, (detail, 0)))
        return None

    KINDS = kinds()
    enc.Lcg(1).install()
    mode = case["mode"]
    _w.frames = pictures(mode)
    _w.rate = "%d/1" % FPS
    _w.fault = event
    Sound.opened, Sound.hook = 0, lambda kind, at: fail((kind, at))
    del audioread.BACKENDS[:]
    audioread.BACKENDS[:] = [Sound]
    import skvideo.io
    probe, reader = skvideo.io.ffprobe, skvideo.io.FFmpegReader
    # As installed by the world; looked up when called.
    skvideo.io.ffprobe = lambda *a, **k: (fail(("probe", (0, 0))),
                                          probe(*a, **k))[1]
    skvideo.io.FFmpegReader = lambda *a, **k: (fail(("reader", (0, 0))),
                                               reader(*a, **k))[1]
    if "space" in case:
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE,
                           (case["space"], resource.RLIM_INFINITY))
    name = d + "/in.wav"
    out = case.get("output") or d + "/in.a2m"
    argv = [name, "--video_mode", mode, "--audio_bitrate", str(RATE),
            "--every_n_video_frames", str(case["every"])]
    if case["normalization"]:
        argv += ["--audio_normalization", str(case["normalization"])]
    if case["limit"]:
        argv += ["--max_output_mb", str(case["limit"])]
    if case.get("output"):
        argv += ["--output", out]
    res = "ok", ""
    try:
        world.program(*argv)
    except BaseException as e:
        if report.interface_changed(e) and not isinstance(e, Raised):
            res = "interface", str(e)
        else:
            res = "error", repr(e)
    data = None
    if os.path.isfile(out):
        with open(out, "rb") as f:
            data = f.read()
    return res + (data,)


class Nothing:
    """Contents of an empty file that are true."""

    def __bytes__(self):
        return b""


def run_case(case):
    """transcode() in a process of its own, with a time limit."""
    d = os.path.join(env.scratch(), "c31_%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    world.write_wav(d + "/in.wav", [2000, -2000, 3000, 0] * (
        case["samples"] // 4), RATE)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            null = os.open(os.devnull, os.O_RDWR)
            os.dup2(null, 1)
            os.dup2(null, 2)
            if "space" in case:
                # The pictures are there; only the stream needs room.
                free = dict(case)
                del free["space"]
                sub = os.fork()
                if sub == 0:
                    try:
                        transcode(free, d)
                    finally:
                        os._exit(0)
                os.waitpid(sub, 0)
                if os.path.exists(d + "/in.a2m"):
                    os.remove(d + "/in.a2m")
            res = transcode(case, d)
        except BaseException:
            res = "broken", report.brief_tb(), None
        with os.fdopen(w, "wb") as f:
            pickle.dump(res, f)
        os._exit(0)
    os.close(w)
    raw = b""
    try:
        while True:
            if not select.select([r], [], [], LIMIT)[0]:
                return "hang", "", None
            b = os.read(r, 1 << 16)
            if not b:
                break
            raw += b
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        shutil.rmtree(d, ignore_errors=True)
    if not raw:
        return "error", "the process ended", None
    return pickle.loads(raw)


def telling(data, mode):
    """What must be the same: every pulse, and the pictures in order."""
    ticks = _codec.check_framing(data, ["HGR", "DHGR"].index(mode))
    where = {marker(k): k for k in range(NFRAMES)}
    seen = []
    for t in ticks:
        if t[2] == 0x33:
            for x in t[3]:
                k = where.get((t[1] - 32) * 256 + x)
                if k is not None and k not in seen:
                    seen.append(k)
    return [t[0] for t in ticks], seen


CONFIG = ("mode", "every", "normalization", "limit", "samples")


def undisturbed(case):
    key = tuple(case[k] for k in CONFIG)
    if key not in _refs:
        how, text, data = run_case(dict(
            {k: case[k] for k in CONFIG}, faults=[]))
        if how != "ok":
            raise report.InterfaceChanged("%s: %s" % (how, text)) \
                if how == "interface" else RuntimeError("%s: %s" % (how, text))
        _refs[key] = telling(data, case["mode"])
        if not _refs[key][1]:
            raise RuntimeError("no picture is shown")
    return _refs[key]


def judge(case, part):
    ref = undisturbed(case)
    how, text, data = run_case(case)
    part.count(states=1, transitions=len(ref[0]), traces=1)
    if how == "interface":
        raise report.InterfaceChanged(text)
    if how == "broken":
        raise RuntimeError(text)
    if how == "hang":
        part.violation(case, "the program does not end")
        return
    if how == "error":
        part.outcome("reported")
        if data and not case.get("output") and "space" not in case:
            try:
                _codec.parse(data)
            except world.BadStream:
                return
            part.violation(case, "the program fails (%s) and leaves a stream "
                           "that ends like a complete one" % text[:80])
        return
    try:
        if data is None:
            raise world.BadStream("no stream")
        got = telling(data, case["mode"])
    except world.BadStream as e:
        part.violation(case, "no error, but %s" % e)
        return
    part.outcome("made no difference")
    if got != ref:
        part.violation(case, "no error, but %d pulses instead of %d, "
                       "pictures %s instead of %s" % (
                           len(got[0]), len(ref[0]), got[1], ref[1]))


def work(cases, part):
    for case in cases:
        judge(case, part)
        if part.nviol > 5:
            return


def points(pieces, passes):
    res = [("probe", (0, 0)), ("reader", (0, 0))]
    res += [("read", (k, 0)) for k in range(NFRAMES)]
    res += [("read-end", (NFRAMES, 0))]
    res += [("exit", (k, 0)) for k in range(NFRAMES)]
    res += [("open", (p, 0)) for p in range(passes)]
    res += [("sound", (p, k)) for p in range(passes)
            for k in range(pieces + 1)]
    return res


def cases(deep):
    names = [k for k in kinds() if k != "KeyboardInterrupt"]
    few = ["OSError", "RuntimeError", "ValueError"]
    configs = []
    for mode in ("HGR", "DHGR"):
        for every, norm, limit, samples in (
                (1, 1, None, 1000), (1, None, None, 800),
                (2, None, .004, 1000)):
            configs.append(dict(mode=mode, every=every, normalization=norm,
                                limit=limit, samples=samples))
    res = []
    for n, c in enumerate(configs):
        pieces = -(-2 * c["samples"] // PIECE)
        passes = 1 if c["normalization"] else 2
        pts = points(pieces, passes)
        for kind, at in pts:
            for what in names if deep or n == 1 else few:
                res.append(dict(c, faults=[(kind, at, what)]))
            if kind in ("probe", "open", "sound"):
                res.append(dict(c, faults=[(kind, at, "KeyboardInterrupt")]))
        for k in range(NFRAMES):
            for j in range(2 if c["mode"] == "DHGR" else 1):
                for what in ("none", "empty", "short", "half") + tuple(few):
                    res.append(dict(c, faults=[("output", (k, j), what)]))
        res.append(dict(c, faults=[], output="/dev/full"))
        size = 4096 if c["limit"] else 6144
        for space in sorted(set(
                [0, 1, 6, 7, 8, 100] +
                list(range(0, size, 512 if not deep else 64)) +
                [k + j for k in range(2048, size, 2048)
                 for j in (-4, -1, 1)])):
            res.append(dict(c, faults=[], space=space))
        if deep:
            for a, b in itertools.combinations(pts, 2):
                if a[0] != b[0]:
                    res.append(dict(c, faults=[a + ("OSError",),
                                               b + ("ValueError",)]))
    return res


def run(chk):
    setup()
    todo = cases(chk.thorough)
    report.pmap(chk, work, [todo[i::64] for i in range(64)])
    chk.assumptions += [
        "bmp2dhr, ffmpeg and the decoder of the sound are represented by what "
        "they hand over, or the error they raise"]
    chk.sample(todo[len(todo) // 2])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("one fault%s at every point of six transcodings of "
                          "%d pictures, %d runs" % (
                              " or two" if chk.thorough else "", NFRAMES,
                              len(todo)))


def replay(case, part):
    setup()
    judge(case, part)
