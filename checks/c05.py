"""C05: framing of the byte stream for every length and every size limit.

Enumerates every number of opcodes (several frames) and every output limit for
both modes through the real Movie.emit_stream; an independent decoder judges
the bytes.  The same for whole transcodings (the encoder's work may influence
the framing): images that keep either bank busy for every one of several
numbers of opcodes, so that banks go idle around frame boundaries.
"""

import itertools
import os
import shutil

from vlib import enc, env, report, world

_w = _codec = None
WAV = "a.wav"


def setup():
    global _w, _codec
    _w = world.World()
    _codec = world.Codec()
    world.write_wav(WAV, [0] * 10)


def op_seq(seed):
    """Endless deterministic tick opcodes with varied operands."""
    for k in itertools.count():
        yield (4 + 2 * ((k * 5 + seed) % 32), 32 + (k * 7 + seed) % 32,
               (k * 11 + seed) & 0x7F, ((k * 3) & 255, (k + 1) & 255,
                                        (k * 13 + 5) & 255, (255 - k) & 255))


def encode(case):
    import movie
    import opcodes
    import video_mode
    mode = video_mode.VideoMode(case["mode"])
    m = movie.Movie(WAV, audio_normalization=1.0, video_mode=mode,
                    max_bytes_out=case["limit"])
    src = op_seq(case["seed"])
    if case["n"] is not None:
        src = itertools.islice(src, case["n"])

    def ops():
        yield opcodes.Header(mode=mode)
        for t, p, c, offs in src:
            yield opcodes.TICK_OPCODES[(t, p)](c, offs)

    return bytes(int(b) for b in m.emit_stream(ops()))


def judge(case, part):
    part.count(states=1)
    try:
        data = encode(case)
        ticks = _codec.check_framing(data, case["mode"])
    except world.BadStream as e:
        part.violation(case, str(e))
        return
    except Exception as e:
        part.violation(case, "%s: %s\n%s" % (type(e).__name__, e,
                                             report.brief_tb()))
        return
    part.count(transitions=len(ticks), traces=1)
    want = list(itertools.islice(op_seq(case["seed"]), len(ticks)))
    if [t[:4] for t in ticks] != want:
        bad = [i for i, (a, b) in enumerate(zip(ticks, want)) if a[:4] != b]
        part.violation(case, "opcode %d of the stream is %s, encoded %s" % (
            bad[0], ticks[bad[0]], want[bad[0]]))
        return
    if data[:6] != b"\xff" * 6:
        part.violation(case, "header padding %s" % data[:6].hex())
        return
    limit = case["limit"]
    nops = len(ticks)
    # Bytes of header, opcodes and acknowledgements for k opcodes.
    size = lambda k: 7 + 7 * k + 4 * acks(k)
    if limit:
        full = case["n"] is not None and nops == case["n"]
        if not full and size(nops) < limit:
            part.violation(case, "stopped after %d bytes of %d allowed" % (
                size(nops), limit))
            return
        if nops and size(nops - 1) >= limit:
            part.violation(case, "went on to %d bytes, limit %d" % (
                size(nops), limit))
            return
        part.outcome("limited" if not full else "limit not reached")
    else:
        if nops != case["n"]:
            part.violation(case, "%d of %d opcodes sent" % (nops, case["n"]))
            return
        part.outcome("unlimited")


def busy(n, salt):
    """An image that takes at least about n opcodes to draw."""
    cells = {}
    for a in range(8192):
        if len(cells) >= n:
            break
        # Different values on a page share no opcode.
        p, x = (a * 5 + salt) % 32, a // 32
        if enc.VISIBLE[p * 256 + x] and x % 2 == 0:
            cells[p * 256 + x] = 1 + (len(cells) * 7 + salt) % 127
    return enc.image(cells)


def whole(case, part):
    """A transcoding from images and sound to bytes."""
    import movie
    import palette
    import video_mode
    mode = case["mode"]
    part.count(states=1)
    _w.frames = [(busy(n, 3 * k), busy(x, 11 + k) if mode else None)
                 for k, (n, x) in enumerate(case["busy"])]
    _w.frames.append(_w.frames[-1])
    _w.rate = "14700/%d" % case["each"]
    name = env.unique("w")
    wav = name + ".wav"
    world.write_wav(wav, [(k * 977) % 30000 - 15000
                          for k in range(case["samples"])])
    try:
        enc.Lcg(1).install()
        m = movie.Movie(wav, audio_normalization=1.0,
                        video_mode=video_mode.VideoMode(mode),
                        palette=palette.Palette(5),
                        max_bytes_out=case["limit"])
        data = bytes(int(b) for b in m.emit_stream(m.encode()))
        ticks = _codec.check_framing(data, mode)
    except world.BadStream as e:
        part.violation(case, str(e))
        return
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())
        return
    finally:
        shutil.rmtree(name, ignore_errors=True)
        os.remove(wav)
    part.count(transitions=len(ticks), traces=1)
    part.outcome("whole, %d acknowledgements" % acks(len(ticks)))
    want = case["samples"]
    if not case["limit"] and len(ticks) != want:
        part.violation(case, "%d opcodes for %d samples" % (len(ticks), want))


def acks(k):
    """Acknowledgements after k opcodes (291 in the first frame, then 292)."""
    return 0 if k < 291 else 1 + (k - 291) // 292


def group(cases, part):
    for c in cases:
        (whole if "busy" in c else judge)(c, part)
        if part.nviol > 5:
            return


def run(chk):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    chk.assumptions += ["frames are 2048 bytes, as the player's refill "
                        "code requires"]
    cases = []
    deep = chk.thorough
    for mode in (0, 1):
        for n in range(0, 3000 if deep else 900):
            cases.append(dict(mode=mode, n=n, limit=None, seed=n & 7))
        for lim in range(1, 14400 if deep else 4600):
            cases.append(dict(mode=mode, n=None, limit=lim, seed=lim & 7))
        # main passes the limit as a float number of bytes
        for mb in range(1, 120 if deep else 40):
            cases.append(dict(mode=mode, n=None,
                              limit=1024. * 1024 * (mb / 4096.), seed=3))
        for lim in list(range(2000, 2100)) + [0]:
            for n in (0, 100, 289, 290, 291, 292, 293, 600):
                cases.append(dict(mode=mode, n=n, limit=lim, seed=1))
    # Positions beyond 2^16 and 2^20.
    for mode in (0, 1):
        for lim in range(65522, 65552, 1 if deep else 3):
            cases.append(dict(mode=mode, n=None, limit=lim, seed=lim & 7))
        for n in (9353, 9354, 9355, 18800, 40000):
            cases.append(dict(mode=mode, n=n, limit=None, seed=n & 7))
        for lim in (1024. * 1024 * 0.25, 2 ** 20 - 1, 2 ** 20 + 3,
                    1024. * 1024 * 1.5):
            cases.append(dict(mode=mode, n=None, limit=lim, seed=5))
    work = (0, 1, 289, 290, 291, 292, 293) + ((2, 100, 400, 583) if deep
                                               else ())
    for a, b in itertools.product(work, repeat=2):
        cases.append(dict(mode=1, busy=[(a, b)], each=1600, samples=1500,
                          limit=None))
        cases.append(dict(mode=1, busy=[(a, b), (b, a)], each=700,
                          samples=1300, limit=None))
        if b == 0:
            cases.append(dict(mode=0, busy=[(a, 0)], each=1000, samples=900,
                              limit=None))
        if a == b:
            for lim in (2040, 2044, 2048, 4090, 4096):
                cases.append(dict(mode=1, busy=[(a, b)], each=1600,
                                  samples=1500, limit=lim))
    report.pmap(chk, group, [cases[i::64] for i in range(64)])
    chk.sample(cases[700])
    chk.sample(cases[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all lengths 0..%d opcodes, all limits 1..%d " \
        "bytes; %d whole transcodings" % (
            3000 if deep else 900, 14400 if deep else 4600,
            sum("busy" in c for c in cases))


def replay(case, part):
    setup()
    if "busy" in case:
        enc.load("HGR", 5)
        enc.load("DHGR", 5)
    group([case], part)
