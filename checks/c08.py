"""C08: every sound sample becomes one speaker pulse of the right width.

Every 16-bit sample value at several normalizations, every pair of levels in
two channels, sample counts around the size of an audio chunk, every amplitude
under automatic normalization, every share of loud peaks, and resampling from
common rates, through the real transcoder; the pulse widths are read back from
the opcodes.
"""

import itertools
import math
import os
import shutil
import wave

import numpy as np

from vlib import enc, env, report, world

CHUNK = 128 * 1024

_w = _codec = None


def setup():
    global _w, _codec
    _w = world.World()
    _codec = world.Codec()
    _w.frames = [(bytes(8192), None)] * 4
    _w.rate = "1/60"


def pulses(samples, norm, rate=14700, bitrate=14700, channels=1):
    """Pulse widths the player is told to make for a sound."""
    import movie
    import palette
    import video_mode
    name = env.unique("c08")
    world.write_wav(name + ".wav", samples, rate, channels)
    try:
        m = movie.Movie(name + ".wav", audio_bitrate=bitrate,
                        audio_normalization=norm,
                        video_mode=video_mode.VideoMode(0),
                        palette=palette.Palette(5))
        data = bytes(int(b) for b in m.emit_stream(m.encode()))
    finally:
        os.remove(name + ".wav")
        shutil.rmtree(name, ignore_errors=True)
    return [op[0] for op in _codec.check_framing(data, 0)]


def levels(samples, norm, channels=1):
    """The same, without the video part of the stream (much faster)."""
    import audio
    name = env.unique("c08")
    world.write_wav(name + ".wav", samples, 14700, channels)
    try:
        return [int(x) for x in audio.Audio(
            name + ".wav", bitrate=14700,
            normalization=norm).audio_stream()]
    finally:
        os.remove(name + ".wav")


def ideal(sample, norm):
    """Deflection wanted, in steps of two cycles either side of 34."""
    return min(16.0, max(-15.0, sample * norm / 1024.0))


def check_map(case, part, got, samples, norm, width=True):
    if len(got) != len(samples):
        part.violation(case, "%d samples became %d pulses" % (
            len(samples), len(got)))
        return False
    for i, (g, s) in enumerate(zip(got, samples)):
        level = (g - 34) / 2.0 if width else g
        if not -15 <= level <= 16 or \
                abs(level - ideal(s, norm)) >= 1.0005 or \
                (s == 0 and level != 0):
            part.violation(case, "sample %d (value %s) became level %s, "
                           "ideal is %.2f" % (i, s, level, ideal(s, norm)))
            return False
    return True


def values(item, part):
    _, norm, bitrate, lo, hi = item
    case = dict(values=list(item))
    samples = list(range(lo, hi))
    got = pulses(samples, norm, rate=bitrate, bitrate=bitrate)
    part.count(states=len(samples), transitions=len(samples), traces=1)
    if not check_map(case, part, got, samples, norm):
        return
    if any(b < a for a, b in zip(got, got[1:])):
        part.violation(case, "a louder sample made a shorter pulse")
    for g in set(got):
        part.outcome("width %d" % g)


def stereo(item, part):
    _, norm, steps = item
    grid = [int(-32768 + k * 65535 / (steps - 1)) for k in range(steps)]
    data, mono = [], []
    for a in grid:
        for b in grid:
            data += [a, b]
            mono.append((a + b) / 2)
    got = pulses(data, norm, channels=2)
    part.count(states=len(mono), transitions=len(mono), traces=1)
    check_map(dict(stereo=list(item)), part, got, mono, norm)


def tone(n):
    """A sound without a short period, ever audible."""
    return [((k * 7919) % 30011 + (k // 65536) * 97) % 60000 - 30000
            for k in range(n)]


def lengths(item, part):
    """Nothing lost, repeated or reordered, whatever the length."""
    _, n, channels, full = item
    mono = tone(n)
    data = [s for s in mono for _ in range(channels)]
    case = dict(lengths=list(item))
    if full:
        got = pulses(data, 1.0, channels=channels)
    else:
        got = levels(data, 1.0, channels)
    part.count(states=1, transitions=n, traces=1)
    check_map(case, part, got, mono, 1.0, width=full)


def amplitudes(item, part):
    """Automatic normalization of a square wave: full deflection, no more."""
    _, lo, hi, step = item
    for a in range(lo, hi, step):
        case = dict(amplitudes=[a, a + 1, 1])
        got = levels([a, -a] * 50, None)
        part.count(states=1, transitions=100, traces=1)
        if not check_map(case, part, got, [a, -a] * 50, 16384.0 / a, False):
            return


def peaks(item, part):
    """Automatic normalization clips under 1% of the samples."""
    _, k, m, ratio = item
    base = 1500
    top = int(base * ratio)
    n = 1000
    s = [base if i % 2 else -base for i in range(n)]
    for i in range(k):
        s[(i * 37) % 500 * 2 + 1] = top
    for i in range(m):
        s[(i * 41) % 500 * 2] = -top
    got = levels(s, None)
    part.count(states=1, transitions=n, traces=1)
    case = dict(peaks=list(item))
    if len(got) != n:
        part.violation(case, "%d pulses" % len(got))
        return
    if max(got) < 15 and min(got) > -15:
        part.violation(case, "levels only reach %d..%d" % (min(got),
                                                           max(got)))
        return
    # The scale in use, from the samples that are not clipped.
    quiet = [abs(g) for g, x in zip(got, s) if abs(x) == base]
    scale = max(quiet)
    clipped = 0 if scale < 14 and scale * ratio < 17 else k + m
    if scale < 15 and scale + 1 < 16 / ratio - 1:
        part.violation(case, "normalized to level %d, peaks would allow "
                       "%.1f" % (scale, 16 / ratio))
    if clipped > n * 0.011 + 1 and scale * ratio > 18 and k + m > 12:
        part.violation(case, "%d of %d samples clip" % (clipped, n))
    part.outcome("peaks clip" if scale * ratio > 17 else "peaks fit")


def late(item, part):
    """A soft beginning, and ten megabytes of sound at most."""
    _, soft, loud, channels = item
    import audio
    case = dict(late=list(item))
    name = "c08_%d.wav" % os.getpid()
    period = np.repeat(np.array([1, -1], dtype="<i2"), 20 * channels)
    s = np.concatenate([np.tile(period * 3000, soft // 40),
                        np.tile(period * 20000, loud // 40)])
    with wave.open(name, "wb") as f:
        f.setnchannels(channels)
        f.setsampwidth(2)
        f.setframerate(14700)
        f.writeframes(s.tobytes())
    try:
        got = [int(x) for x in itertools.islice(
            audio.Audio(name).audio_stream(), 200)]
    finally:
        os.remove(name)
    part.count(states=1, transitions=soft + loud, traces=1)
    # The loud ones are more than can be let clip.
    want = 16 * 3000 / 20000
    if abs(max(got) - want) > 1:
        part.violation(case, "a tenth of the sound or more has a level of "
                       "20000; normalized to it the beginning has level %.1f, "
                       "but it has %d" % (want, max(got)))


def silence(item, part):
    _, n, channels, norm = item
    got = pulses([0] * (n * channels), norm, channels=channels)
    part.count(states=1, transitions=n, traces=1)
    if got != [34] * n:
        part.violation(dict(silence=list(item)), "silence made pulses of %s "
                       "cycles (%d of them)" % (sorted(set(got)), len(got)))


def resample(item, part):
    """Other input rates: duration and shape survive."""
    _, rate, bitrate, n, channels = item
    case = dict(resample=list(item))
    freq = 40.0
    s = [int(12000 * math.sin(2 * math.pi * freq * i / rate))
         for i in range(n)]
    got = pulses([x for x in s for _ in range(channels)], None, rate=rate,
                 bitrate=bitrate, channels=channels)
    part.count(states=1, transitions=len(got), traces=1)
    want = n * bitrate / rate
    if abs(len(got) - want) > 1 + n // CHUNK:
        part.violation(case, "%d samples at %d Hz became %d pulses at %d Hz, "
                       "expected %.1f" % (n, rate, len(got), bitrate, want))
        return
    if n < rate / freq * 4:
        return
    # Away from the ends of a chunk (which is resampled on its own) the sine
    # is there, at full deflection.
    edge = int(bitrate / freq / 2)
    chunk = CHUNK * bitrate / rate
    for i in range(edge, len(got) - edge):
        if not edge < i % chunk < chunk - edge:
            continue
        w = 16 * math.sin(2 * math.pi * freq * i / bitrate)
        if abs((got[i] - 34) / 2.0 - min(16, max(-15, w))) > 3:
            part.violation(case, "pulse %d is %d cycles, the input sine "
                           "there wants %.1f" % (i, got[i], 34 + 2 * w))
            return


def pieces(item, part):
    """However the decoder cuts the sound up, and for any channels."""
    _, n, channels, size, full = item
    case = dict(pieces=list(item))
    mono = tone(n)
    data = [s for s in mono for _ in range(channels)]
    world.Pieces.install(size)
    try:
        got = pulses(data, 1.0, channels=channels) if full else \
            levels(data, 1.0, channels)
        auto = levels(data, None, channels)
    finally:
        world.Pieces.install(None)
    part.count(states=1, transitions=n, traces=1)
    if not check_map(case, part, got, mono, 1.0, width=full):
        return
    if len(auto) != n:
        part.violation(case, "%d samples became %d pulses with automatic "
                       "normalization" % (n, len(auto)))


PARTS = dict(late=late, pieces=pieces, values=values, stereo=stereo, lengths=lengths, silence=silence,
             amplitudes=amplitudes, peaks=peaks, resample=resample)


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    setup()
    enc.load("HGR", 5)
    deep = chk.thorough
    chk.assumptions += ["16-bit WAV input; librosa's resampler is trusted "
                        "for anything but length, order and coarse shape"]
    items = []
    for norm in (1.0, 0.25, 0.5, 0.9, 1.7, 3.0, 100.0) + (
            (0.01, 0.75, 0.999, 1.001, 1.25, 2.0, 8.0, 1000.0)
            if deep else ()):
        for br in (14700, 22500) if deep or norm in (1.0, 1.7) else (14700,):
            for lo in range(-32768, 32768, 16384):
                items.append(("values", norm, br, lo, lo + 16384))
    items.append(("values", 0.0, 14700, -2000, 2000))
    for norm in (1.0, 0.5, 1.3):
        items.append(("stereo", norm, 97 if deep else 41))
    for ch in (1, 2):
        for n in (list(range(0, 40)) + [1023, 1024, 1025, 4095, 4096]):
            items.append(("lengths", n, ch, True))
        for k in (1, 2, 3) if deep else (1,):
            for d in (-2, -1, 0, 1, 2):
                items.append(("lengths", k * CHUNK + d, ch, False))
        items.append(("lengths", CHUNK + 500, ch, True))
        for n in (0, 1, 2, 100, 1000):
            for norm in (None, 1.0, 0.0, 50.0):
                items.append(("silence", n, ch, norm))
    step = 1 if deep else 16
    for lo in range(1, 32768, 512):
        items.append(("amplitudes", lo, min(lo + 512, 32768), step))
    items.append(("amplitudes", 1, 300, 1))
    for k in range(0, 21):
        for m in range(0, 21):
            for r in (2.0, 5.0, 20.0):
                items.append(("peaks", k, m, r))
    for ch in (1, 2):
        for soft in (400, 4000, 20000, 60000, 80000, 150000, 600000) + (
                (2000000,) if deep else ()):
            items.append(("late", soft, soft // 8 + 400, ch))
        # just below the ten megabytes that are looked at
        items.append(("late", 4600000 // ch, 600000 // ch, ch))
    for ch in (1, 2, 3, 4, 5, 6, 8):
        for size in (8192, 4096, 1, 2, 3, 7, 10, 1000):
            for n in (1, 2, 3, 683, 1365):
                if size > 3 or n < 100:
                    items.append(("pieces", n, ch, size, n == 683))
        items.append(("pieces", 9000, ch, 8192, False))
    for rate in (44100, 22050, 48000, 32000, 11025, 29400):
        for bitrate in (14700, 22500):
            for ch in (1, 2):
                for n in (3, 10, 101, 1000, rate // 2):
                    items.append(("resample", rate, bitrate, n, ch))
        if rate == 44100:
            items.append(("resample", rate, 14700, CHUNK + 5000, 1))
    report.pmap(chk, work, items)
    chk.sample({"values": "all 65536 sample values, normalization 1.0"})
    chk.sample(items[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all sample values x %d normalizations; amplitudes "
                          "1..32767 step %d; all shares of 0..20 per mille "
                          "peaks" % (15 if deep else 7, step))


def replay(case, part):
    setup()
    enc.load("HGR", 5)
    for k, fn in PARTS.items():
        if k in case:
            it = case[k]
            fn(tuple(it) if it[0] == k else (k,) + tuple(it), part)
