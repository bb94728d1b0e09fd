"""C30: transcoding holds only a bounded part of its input.

The real movie, frame grabber and main program work on inputs that are long
compared with what they may hold, under schedules that let the converter run
ahead as far as it can, never, or by turns; every read of a picture, every
block of sound handed out and the files on disk are placed against what has
been encoded so far.
"""

import itertools
import os
import shutil
import threading

from vlib import enc, env, report, sched, world

RATE = 14700
PICTURES = 64            # read ahead of the one shown
SOUND = 1 << 22          # bytes of sound decoded ahead ...
LOOK = 11 << 20          # ... and looked at once to find its level
UNWRITTEN = 1 << 19      # bytes encoded but not yet in a file

_w = None


def setup():
    global _w
    if _w is None:
        _w = world.World()
    import main  # noqa: F401
    import movie  # noqa: F401


class TooFar(Exception):
    """The bound is broken; there is no need to see how far it goes."""


def make(case, d):
    import movie
    import palette
    import video_mode
    mode = case["mode"]
    world.write_wav(d + "/a.wav", [0] * case["samples"],
                    case.get("rate", RATE), case.get("channels", 1))
    return movie.Movie(
        d + "/a.wav", every_n_video_frames=case.get("every", 1),
        audio_bitrate=case.get("rate", RATE),
        audio_normalization=case.get("normalization"),
        max_bytes_out=case.get("limit"),
        video_mode=video_mode.VideoMode[mode], palette=palette.Palette(5))


def scene(mode, n):
    """Pictures with little in them, the same few over and over."""
    few = [(enc.image({(k % 32) * 256 + 10: 1 + k}),
            enc.image({(k % 32) * 256 + 11: 1 + k}) if mode == "DHGR"
            else None) for k in range(4)]
    return [few[k % 4] for k in range(n)]


def directory():
    d = os.path.join(env.scratch(), env.unique("c30"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


# The threads with higher numbers were started by those with lower ones.
def ahead(ready):
    return max(range(len(ready)), key=lambda k: ready[k].index)


def behind(ready):
    return min(range(len(ready)), key=lambda k: ready[k].index)


def shifts(first, second):
    """One side goes first for so many choices, then the other, and again."""
    n = itertools.count()

    def choose(ready):
        return (ahead if next(n) % (first + second) < first
                else behind)(ready)
    return choose


POLICIES = {"ahead": lambda: ahead, "behind": lambda: behind,
            "turns": lambda: lambda ready: 1}


def policy(name):
    return POLICIES[name]() if isinstance(name, str) else shifts(*name)


def pictures(case, part):
    """How far the reader of the video gets ahead of the picture shown."""
    import frame_grabber
    mode, fps, n = case["mode"], case["fps"], case["frames"]
    rate = case["rate"]
    d = directory()
    _w.frames = scene(mode, n)
    _w.rate = "%d/1" % fps
    _w.calls, _w.look = [], False
    sent = [0]
    worst = [0]
    old = set(threading.enumerate())     # at work for earlier cases

    def event(kind, detail):
        if threading.current_thread() in old - {threading.main_thread()}:
            return None
        if kind == "read":
            ticks = max(sent[0] - 7, 0) // 7
            shown = ticks * fps // rate
            worst[0] = max(worst[0], detail - shown)
            if worst[0] > PICTURES:
                raise TooFar()
        return None

    def consumer():
        m = make(case, d)
        for _ in m.emit_stream(m.encode()):
            sent[0] += 1

    s = sched.Sched()
    s.MAX_OPS = 10 ** 7
    s.policy = policy(case["policy"])
    _w.fault = event
    try:
        with sched.Patched(s, [frame_grabber]):
            s.run(consumer)
    except (TooFar, sched.Deadlock):
        pass
    except Exception as e:
        if report.interface_changed(e):
            raise
        if worst[0] <= PICTURES:
            raise
    finally:
        _w.fault = None
        shutil.rmtree(d, ignore_errors=True)
    part.count(states=1, transitions=sent[0], traces=1)
    part.outcome("pictures at most %s ahead" % (
        "12" if worst[0] <= 12 else str(PICTURES)))
    if worst[0] > PICTURES:
        part.violation(case, "a picture is read %d before it is due" %
                       worst[0])


class Counting(world.Pieces):
    """Decoder that counts the bytes it handed out."""

    handed = 0
    limit = None

    def read_data(self, *a, **k):
        for b in super().read_data():
            Counting.handed += len(b)
            if Counting.limit is not None and \
                    Counting.handed > Counting.limit():
                raise TooFar()
            yield b

    __iter__ = read_data


def real_decoder():
    """The decoder of WAV files that audioread has, counting."""
    from audioread import rawread

    class Real(rawread.RawAudioFile):
        def read_data(self, *a, **k):
            for b in super().read_data(*a, **k):
                Counting.handed += len(b)
                if Counting.limit is not None and \
                        Counting.handed > Counting.limit():
                    raise TooFar()
                yield b

        def __iter__(self):
            return self.read_data()

    return Real


def sound(case, part):
    """How far the decoder of the sound gets ahead of what is encoded."""
    d = directory()
    _w.frames = scene(case["mode"], 3)
    _w.rate = "1/1000"
    sent = [0]
    worst = [0]
    Counting.handed = 0
    looked = 0 if case.get("normalization") else LOOK
    import audioread
    saved = list(audioread.BACKENDS)
    audioread.BACKENDS[:] = [
        type("Counting%d" % case["piece"], (Counting,),
             dict(size=case["piece"])) if case["piece"] else real_decoder()]
    width = 2 * case.get("channels", 1)
    Counting.limit = lambda: looked + width * (sent[0] // 7) + SOUND
    broken = None
    try:
        m = make(case, d)
        for b in itertools.islice(m.emit_stream(m.encode()), case["bytes"]):
            sent[0] += 1
            worst[0] = max(worst[0], Counting.handed)
    except TooFar:
        broken = sent[0]
    except Exception as e:
        if report.interface_changed(e):
            raise
        broken = sent[0] if Counting.handed > Counting.limit() else None
        if broken is None:
            raise
    finally:
        Counting.limit = None
        audioread.BACKENDS[:] = saved
        shutil.rmtree(d, ignore_errors=True)
    part.count(states=1, transitions=sent[0], traces=1)
    part.outcome("sound")
    if broken is not None:
        part.violation(case, "%d bytes of sound decoded when %d samples were "
                       "encoded" % (Counting.handed, broken // 7))


def written(case, part):
    """Whether the real main program writes the stream as it goes."""
    mode, n, each = case["mode"], case["frames"], case["each"]
    d = directory()
    _w.frames = scene(mode, n)
    _w.rate = "%d/%d" % (RATE, each)
    _w.calls, _w.look = [], False
    name = d + "/in.wav"
    world.write_wav(name, [0] * (n * each), RATE)
    behind = []
    old = set(threading.enumerate())     # at work for earlier cases

    def event(kind, detail):
        if threading.current_thread() in old - {threading.main_thread()}:
            return None
        if kind == "read" and not behind:
            least = 7 * each * (detail - PICTURES) - UNWRITTEN
            if least > 0:
                size = max([os.stat(os.path.join(r, f)).st_size
                            for r, _, fs in os.walk(d) for f in fs
                            if f != "in.wav"] + [0])
                if size < least:
                    behind.append((detail, size, least))
        return None

    _w.fault = event
    try:
        argv = [name, "--video_mode", mode, "--every_n_video_frames", "1",
                "--audio_normalization", "1"]
        world.program(*argv)
    finally:
        _w.fault = None
        shutil.rmtree(d, ignore_errors=True)
    part.count(states=1, transitions=n * each, traces=1)
    part.outcome("written out")
    if behind:
        part.violation(case, "when picture %d was read, %d bytes of the "
                       "stream were in a file, not the %d of long before" %
                       behind[0])


PARTS = dict(pictures=pictures, sound=sound, written=written)


def work(case, part):
    enc.Lcg(1).install()
    PARTS[case["part"]](case, part)


def cases(deep):
    res = []
    for mode in ("HGR", "DHGR"):
        res.append(dict(part="written", mode=mode, frames=400, each=500))
    for mode in ("HGR", "DHGR"):
        for n in (5, 100, 200) + ((500, 1000) if deep else ()):
            for policy in POLICIES:
                for every in (1, 3) if deep or n == 200 else (1,):
                    for limit in (None, 20000):
                        res.append(dict(
                            part="pictures", mode=mode, frames=n, rate=300,
                            fps=30, policy=policy, every=every, limit=limit,
                            samples=n * 10 + 5, normalization=1.0))
    lengths = (1, 2, 5, 12, 40) + ((100, 300) if deep else ())
    for first in lengths:
        for second in lengths:
            res.append(dict(
                part="pictures", mode="HGR", frames=150, rate=300, fps=30,
                policy=[first, second], every=1, limit=None, samples=1505,
                normalization=1.0))
    for channels in (1, 2, 6):
        for norm in (None, 1.0):
            res.append(dict(part="sound", mode="HGR", samples=12 << 20,
                            normalization=norm, piece=None, bytes=60000,
                            channels=channels))
    for piece in (4096, 131072):
        for norm in (None, 1.0):
            res.append(dict(part="sound", mode="HGR", samples=12 << 20,
                            normalization=norm, piece=piece, bytes=60000))
    return res


def run(chk):
    setup()
    for mode in ("HGR", "DHGR"):
        enc.load(mode, 5)
    report.pmap(chk, work, cases(chk.thorough))
    chk.assumptions += [
        "what the reader of the video hands out ahead of time is bounded by "
        "the schedules in which the converter always goes first, or one of "
        "the two threads for so many choices and then the other"]
    chk.sample(dict(part="pictures", frames=200, policy="ahead"))
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("videos of up to %d pictures, 24 MB of sound, "
                          "streams of 1.4 MB; %d schedules" % (
                              1000 if chk.thorough else 200, 52 if chk.thorough else 28))


def replay(case, part):
    setup()
    enc.load(case["mode"], 5)
    work(case, part)
