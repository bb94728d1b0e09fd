"""C07: picture and sound keep step, whatever the rates.

Every combination of frame rate, audio bitrate, frame skipping and mode runs
through the real transcoder on a video whose frame k shows a recognisable
byte, with video shorter, equal and longer than the audio.  The opcodes say
which frame is being drawn at every audio sample; the schedule they must
follow is computed with exact fractions.  The frame clock alone is followed
over long runs.
"""

import math
import os
import shutil
from fractions import Fraction

from vlib import enc, env, report, world

RATES = ("24000/1001", "24/1", "25/1", "30000/1001", "30/1", "60/1",
         "12000/1001", "15/1", "50/1", "60000/1001")
NVALS = 23

_w = _codec = None
_vals = {}


def setup():
    global _w, _codec
    _w = world.World()
    _codec = world.Codec()


def values(mode):
    """Bytes that look different from each other in the first column."""
    if mode not in _vals:
        _vals[mode] = [(k * 5 + 2) % 127 + 1 for k in range(NVALS)]
    return _vals[mode]


def movie_frames(mode, n):
    vals = values(mode)
    pics = []
    for v in vals:
        mem = bytearray(8192)
        mem[0] = v
        pics.append((bytes(mem), bytes(mem) if mode else None))
    return [pics[k % NVALS] for k in range(n)]


def schedule(case):
    """(samples shown, [(first sample, frame index)]) by exact arithmetic."""
    fps = Fraction(case["fps"])
    tpf = case["bitrate"] / fps
    end = case["samples"]
    starts = []
    k = 0
    while True:
        t = max(1, math.ceil(k * tpf))
        if t > case["samples"]:
            break
        if k == case["frames"]:
            end = t - 1
            break
        if k % case["every"] == 0:
            starts.append((t, k))
        k += 1
    return end, starts


def observe(case, name):
    import movie
    import palette
    import video_mode
    _w.rate = case["fps"]
    _w.frames = movie_frames(case["mode"], case["frames"])
    world.write_wav(name + ".wav", [0] * case["samples"], case["bitrate"])
    m = movie.Movie(
        name + ".wav", every_n_video_frames=case["every"],
        audio_bitrate=case["bitrate"], audio_normalization=1.0,
        video_mode=video_mode.VideoMode(case["mode"]),
        palette=palette.Palette(5))
    data = bytes(int(b) for b in m.emit_stream(m.encode()))
    return _codec.check_framing(data, case["mode"])


def judge(case, part):
    name = env.unique("c07")
    try:
        try:
            ticks = observe(case, name)
        finally:
            for p in (name + ".wav",):
                if os.path.exists(p):
                    os.remove(p)
            shutil.rmtree(name, ignore_errors=True)
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())
        return
    end, starts = schedule(case)
    part.count(states=1, transitions=len(ticks), traces=1)
    if abs(len(ticks) - end) > 1:
        part.violation(case, "%d audio samples sent, expected %d" % (
            len(ticks), end))
        return
    vals = values(case["mode"])
    seen = []
    prev = None
    for t, op in enumerate(ticks, 1):
        c = op[2]
        # A neighbour that looks wrong may be stored to (as 0) first.
        if c and c != prev:
            seen.append((t, c))
            prev = c
    want = [(t, vals[k % NVALS], k) for t, k in starts]
    # A frame may start one sample later than the last one sent.
    while len(want) > len(seen) and want and want[-1][0] >= len(ticks) - 1:
        want.pop()
    for i in range(max(len(want), len(seen))):
        w = want[i] if i < len(want) else None
        s = seen[i] if i < len(seen) else None
        if s is None:
            part.violation(case, "frame %d is due at sample %d and never "
                           "drawn" % (w[2], w[0]))
            return
        if w is None:
            part.violation(case, "sample %d starts drawing $%02X, no frame "
                           "is due" % s)
            return
        if s[1] != w[1]:
            part.violation(case, "sample %d starts drawing $%02X; due is "
                           "frame %d ($%02X) at sample %d" % (
                               s[0], s[1], w[2], w[1], w[0]))
            return
        if not -1 <= s[0] - w[0] <= 3:
            part.violation(case, "frame %d starts at sample %d, due at %d" % (
                w[2], s[0], w[0]))
            return
    part.outcome("video ends first" if end < case["samples"]
                 else "audio ends first")


def clock(item, part):
    """The frame clock followed for hours: no drift, no frame twice."""
    import video
    import video_mode

    _, fps, bitrate, nticks = item
    f = Fraction(fps)

    class Grabber:
        input_frame_rate = f.numerator / f.denominator

    v = video.Video(Grabber(), ticks_per_second=bitrate,
                    mode=video_mode.VideoMode(0))
    num, den = bitrate * f.denominator, f.numerator
    k = 0
    for t in range(1, nticks):
        if v.tick(t):
            # Due at t >= k * num / den; allow one sample either way.
            if not (t - 1) * den <= max(k * num, den) <= (t + 1) * den:
                part.violation(dict(clock=list(item)), "frame %d announced "
                               "at sample %d, due at %s" % (
                                   k, t, Fraction(k * num, den)))
                return
            k += 1
    due = nticks * den // num
    part.count(states=k, transitions=nticks, traces=1)
    if abs(k - due) > 2:
        part.violation(dict(clock=list(item)), "%d frames announced in %d "
                       "samples, due %d" % (k, nticks, due))


def sound(item, part):
    """Clicks in the sound come at their time, to the end of a long file."""
    import audio
    _, rate, bitrate, channels, size, n = item
    case = dict(sound=list(item))
    step = 7001 * rate // 44100
    width = 2 * -(-rate // bitrate)
    s = [0] * n
    at = list(range(step // 2, n - step // 2, step))
    for p in at:
        for k in range(width):
            s[p + k - width // 2] = 6000
    name = "c07_%d.wav" % os.getpid()
    world.write_wav(name, [x for x in s for _ in range(channels)], rate,
                    channels)
    world.Pieces.install(size)
    try:
        got = [abs(int(x)) for x in audio.Audio(
            name, bitrate=bitrate, normalization=1.0).audio_stream()]
    finally:
        world.Pieces.install(None)
        os.remove(name)
    part.count(states=len(at), transitions=len(got), traces=1)
    want = n * bitrate / rate
    if abs(len(got) - want) > 2:
        part.violation(case, "%d samples at %d Hz are %d at %d Hz, not %.1f" %
                       (n, rate, len(got), bitrate, want))
        return
    reach = step * bitrate // rate // 2
    for p in at:
        due = p * bitrate / rate
        lo = max(0, int(due) - reach)
        there = got[lo:int(due) + reach]
        if not there or max(there) < 2:
            part.violation(case, "the click at input sample %d is gone" % p)
            return
        peak = lo + there.index(max(there))
        if abs(peak - due) > 5:
            part.violation(case, "the click due at sample %.1f comes at "
                           "sample %d" % (due, peak))
            return


def work(item, part):
    if item[0] == "clock":
        clock(item, part)
        return
    if item[0] == "sound":
        sound(item, part)
        return
    for c in item[1]:
        judge(c, part)
        if part.nviol > 3:
            return


def cases(deep):
    res = []
    for mode in (0, 1):
        for fps in RATES:
            for bitrate in (14700, 22500):
                tpf = bitrate / Fraction(fps)
                for every in (1, 2, 3, 4) if deep else (1, 2, 3):
                    nfr = 13 * every if deep else 5 * every
                    n = int(tpf * nfr)
                    for frames, samples in (
                            (nfr, n + 2500), (nfr + 20, n + 7),
                            (nfr, n)) if deep or every == 2 else (
                                (nfr, n + 2500),):
                        res.append(dict(mode=mode, fps=fps, bitrate=bitrate,
                                        every=every, frames=frames,
                                        samples=samples))
    for frames in range(1, 8):
        for samples in (1, 2, 489, 490, 491, 981, 2939, 2940, 2941):
            res.append(dict(mode=0, fps="30/1", bitrate=14700, every=2,
                            frames=frames, samples=samples))
    # Long: many skipped frames.
    for fps in ("30000/1001", "24000/1001"):
        res.append(dict(mode=1, fps=fps, bitrate=14700, every=100,
                        frames=1500 if deep else 700, samples=900000))
    return res


def run(chk):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    cs = cases(chk.thorough)
    chk.assumptions += ["librosa's resampling of one block keeps sounds where "
                        "they are in the block"]
    items = [("run", cs[i::48]) for i in range(48)]
    nt = 20000000 if chk.thorough else 2000000
    for fps in RATES:
        for br in (14700, 22500):
            items.append(("clock", fps, br, nt))
    # Sound at other rates, in the pieces that decoders hand out.
    for rate in (44100, 48000, 32000, 22050, 11025, 14700, 96000):
        for bitrate in (14700, 22500, 14364):
            for ch, size in ((2, 8192), (1, 8192), (2, 4096), (1, None),
                             (6, 8192)):
                n = 400000 if chk.thorough else 120000
                items.append(("sound", rate, bitrate, ch, size, n))
    report.pmap(chk, work, items[::-1])
    chk.sample(cs[0])
    chk.sample(cs[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("%d frame rates x 2 bitrates x skipping x both "
                          "modes x which ends first; frame clock for %d "
                          "samples" % (len(RATES), nt))


def replay(case, part):
    setup()
    if "sound" in case:
        sound(tuple(case["sound"]), part)
        return
    if "clock" in case:
        clock(tuple(case["clock"]), part)
        return
    enc.load("HGR" if not case["mode"] else "DHGR", 5)
    judge(case, part)
