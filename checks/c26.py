"""C26: each option of the transcoder does what it says, whatever the others.

Every combination of every option left out or given (one to two values each)
through the real command line parser and main program; the stream and what was
asked of the converter are compared with what the options' descriptions say.
"""

import itertools
import os
import shutil

import numpy as np

from vlib import enc, env, refdiff, report, world

_w = _codec = None
WAV_RATE = 44100
SAMPLES = 8820
FPS = 25
LEVEL = 2048
NFRAMES = 6
PLACE = {"a": (0, 10), "b": (4, 10)}      # (page, offset)
VALUES = dict(
    video_mode=(None, "HGR", "DHGR"),
    palette=(None, "NTSC", "IIGS"),
    every_n_video_frames=(None, 1, 3),
    audio_bitrate=(None, 22050),
    audio_normalization=(None, 1, 3.5),
    max_output_mb=(None, 0.01, 0.00390625),
    output=(None, "asked.bin"))
DEFAULTS = dict(video_mode="DHGR", palette="NTSC", every_n_video_frames=2,
                audio_bitrate=14700, audio_normalization=None,
                max_output_mb=0, output=None)
PALETTES = dict(NTSC=5, IIGS=0)
# Values that stand for less common ones; in all pairs of options.
EXTRA = dict(
    every_n_video_frames=(2, 4, 5, 100),
    audio_bitrate=(14700, 22500, 11025, 44100),
    audio_normalization=(0, 0.5, 30),
    max_output_mb=(0, 0.002, 5))
_telling = {}
_counter = itertools.count()


def setup():
    global _w, _codec
    _w = world.World()
    _codec = world.Codec()
    import main  # noqa: F401
    for mode in ("HGR", "DHGR"):
        for pal in PALETTES.values():
            enc.load(mode, pal)
        _telling[mode] = telling(mode)


def telling(mode):
    """Byte values (a, b, m): a is the largest error with NTSC colours, b with
    those of the IIGS."""
    err = []
    for pal in (5, 0):
        metric = refdiff.Metric(mode, pal)
        z = np.zeros((32, 256), dtype=np.int64)
        e = {}
        for v in range(1, 128):
            t = z.copy()
            t[0, 10] = v
            e[v] = int(metric.diff([z, z], [t, z], 0)[0, 10])
        err.append(e)
    n, i = err
    m = min(n, key=lambda v: max(n[v], i[v]))
    gain, a, b = max((min(n[a] - max(n[b], n[m]), i[b] - max(i[a], i[m])),
                      a, b) for a in n for b in n)
    if gain <= 0:
        raise RuntimeError("no two bytes tell the palettes apart")
    return a, b, m


def frames(mode):
    a, b, m = _telling[mode]
    res = []
    for k in range(NFRAMES):
        cells = {PLACE["a"][0] * 256 + PLACE["a"][1]: a,
                 PLACE["b"][0] * 256 + PLACE["b"][1]: b,
                 marker(k): m}
        res.append((enc.image(cells),
                    enc.image(cells) if mode == "DHGR" else None))
    return res


def marker(k):
    return (8 + k) * 256 + 20


def judge(case, part):
    opts = case["options"]
    eff = dict(DEFAULTS)
    eff.update({k: v for k, v in opts.items() if v is not None})
    mode = eff["video_mode"]
    pal = PALETTES[eff["palette"]]
    part.count(states=1)
    del _w.calls[:]
    # A converter that is ahead when the stream ends goes on for a while.
    d = os.path.join(env.scratch(), "c26_%d_%d" % (os.getpid(),
                                                   next(_counter)))
    os.makedirs(d)
    name = d + "/in.wav"
    world.write_wav(name, [LEVEL] * SAMPLES, WAV_RATE)
    _w.frames = frames(mode)
    _w.rate = "%d/1" % FPS
    try:
        argv = [name]
        for k, v in opts.items():
            if v is not None:
                argv += ["--" + k, d + "/" + v if k == "output" else str(v)]
        enc.Lcg(1).install()
        world.program(*argv)
        want = d + "/" + (eff["output"] or "in.a2m")
        if not os.path.exists(want):
            part.violation(case, "no output file %s" % os.path.basename(want))
            return
        with open(want, "rb") as f:
            data = f.read()
        ticks = _codec.check_framing(data, ["HGR", "DHGR"].index(mode))
    except world.BadStream as e:
        part.violation(case, str(e))
        return
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    part.count(transitions=len(ticks), traces=1)
    calls = [args for _, args, _ in list(_w.calls)
             if args[1].startswith(d + "/")]
    text = compare(eff, mode, pal, ticks, calls)
    if text:
        part.violation(case, text)
    part.outcome("%s %s" % (mode, eff["palette"]))


def size(k):
    return 7 + 7 * k + 4 * (0 if k < 291 else 1 + (k - 291) // 292)


def compare(eff, mode, pal, ticks, calls):
    n = len(ticks)
    # --audio_bitrate, --max_output_mb
    full = SAMPLES * eff["audio_bitrate"] / WAV_RATE
    limit = eff["max_output_mb"] * 1024 * 1024
    if limit:
        if n < full - 1 and size(n) < limit or n and size(n - 1) >= limit:
            return "%d opcodes are %d bytes, the limit is %g" % (
                n, size(n), limit)
    elif abs(n - full) > 1:
        return "%d opcodes, %g samples" % (n, full)
    # --audio_normalization
    mids = sorted(t[0] for t in ticks)
    got = (mids[n // 2] - 34) / 2
    norm = eff["audio_normalization"]
    if norm is None:
        ok = got >= 15
    else:
        level = LEVEL * norm / 1024
        # resampling may keep the level or the energy
        keep = (WAV_RATE / eff["audio_bitrate"]) ** .5
        ok = min(abs(got - min(16, level)),
                 abs(got - min(16, level * keep))) <= 1
    if not ok:
        return "a steady sample of %d becomes %g steps at normalization %s" % (
            LEVEL, got, norm)
    # --palette, --video_mode
    if not calls:
        return "no image was converted"
    for args in calls:
        if args[2] != mode.lower() or "P%d" % pal not in args:
            return "images are converted by %s" % " ".join(args)
    first = "a" if pal == 5 else "b"
    a, b, m = _telling[mode]
    page, x = PLACE[first]
    if ticks[0][1] - 32 != page or ticks[0][3][0] != x or \
            ticks[0][2] != (a if first == "a" else b):
        return "the first opcode %s does not repair the largest error" % (
            ticks[0][:4],)
    # --every_n_video_frames
    seen = set()
    for t in ticks:
        for x in t[3]:
            if t[2]:
                seen.add((t[1] - 32) * 256 + x)
    every = eff["every_n_video_frames"]
    for k in range(NFRAMES - 1):
        start = k * eff["audio_bitrate"] / FPS
        shown = marker(k) in seen
        if k % every:
            if shown:
                return "frame %d is shown, one in %d should be" % (k, every)
        elif start + 50 < n and not shown:
            return "frame %d is not shown" % k
    return None


def long_case(case, part):
    """Defaults that show only in a long stream: rate and size limit."""
    mode, n = case["options"]["video_mode"] or "DHGR", case["long"]
    d = os.path.join(env.scratch(), "c26l_%d_%d" % (os.getpid(),
                                                    next(_counter)))
    os.makedirs(d)
    world.write_wav(d + "/in.wav", [LEVEL] * n, 14700)
    _w.frames = frames(mode)
    _w.rate = "%d/%d" % (14700 * NFRAMES, n + 14700)
    try:
        enc.Lcg(1).install()
        world.program(d + "/in.wav", *[x for k, v in case["options"].items()
                                       if v is not None
                                       for x in ("--" + k, v)])
        with open(d + "/in.a2m", "rb") as f:
            got = len(_codec.check_framing(
                f.read(), ["HGR", "DHGR"].index(mode)))
    except world.BadStream as e:
        part.violation(case, str(e))
        return
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    part.count(states=1, transitions=n, traces=1)
    part.outcome("long stream")
    if abs(got - n) > 1:
        part.violation(case, "the stream of %d samples has %d opcodes" %
                       (n, got))


def group(cases, part):
    for c in cases:
        if "long" in c:
            long_case(c, part)
        else:
            judge(c, part)
        if part.nviol > 5:
            return


def run(chk):
    setup()
    names = list(VALUES)
    cases = [dict(options=dict(zip(names, v)))
             for v in itertools.product(*VALUES.values())]
    whole = len(cases)
    for mode, pal in itertools.product(VALUES["video_mode"],
                                       VALUES["palette"]):
        base = dict(video_mode=mode, palette=pal)
        for k, values in EXTRA.items():
            for v in values:
                cases.append(dict(options=dict(base, **{k: v})))
        if mode == pal is None or mode and pal:
            for k, j in itertools.combinations(EXTRA, 2):
                for v, u in itertools.product(EXTRA[k], EXTRA[j]):
                    cases.append(dict(options=dict(base, **{k: v, j: u})))
    long = [dict(options=dict(video_mode=m, palette=p),
                 long=3000000 if chk.thorough else
                 450000 if m or p else 1600000)
            for m in (None, "HGR") for p in (None, "IIGS")]
    report.pmap(chk, group, [[c] for c in long] +
                [cases[i::64] for i in range(64)])
    chk.assumptions += ["bmp2dhr is represented by what it writes",
                        "edit distance tables as built from the current tree "
                        "(C17)"]
    chk.sample(cases[len(cases) // 2])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all %d combinations of options left out or with " \
        "one or two values; less common values in pairs (%d)" % (
            whole, len(cases) - whole)


def replay(case, part):
    setup()
    group([case], part)
