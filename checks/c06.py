"""C06: what goes in as video comes out on the Apple's screen.

Every sequence of up to three still images from a set, with every one of
several display times for all but the last, in both modes, runs through the
real transcoder's main program; the file it writes is played by the real
player binary, whose screen is compared at every frame with an independent
reading of the stream, and in the end with the last image.
"""

import itertools
import os
import shutil

from vlib import apple, enc, env, play, report, world
from checks import c11

_w = _codec = _player = None


def setup():
    global _w, _codec, _player
    _player = apple.Player()
    _w = world.World()
    _codec = world.Codec()
    import main  # noqa: F401


def images(mode):
    """[(main, aux or None)]: sparse images, garbage in the screen holes."""
    name = "DHGR" if mode else "HGR"
    res = []
    for k, (_, planes) in enumerate(enc.small(name)):
        if mode == 0 and k == 2:
            continue
        res.append(tuple(holes(enc.image(c), k) for c in planes))
    # A few hundred bytes all over the screen.
    for seed in (1, 2):
        cells = [{}, {}]
        s = seed * 7919
        for _ in range(260):
            s = s * 1103515245 + 12345 & 0x7FFFFFFF
            a = (s >> 8) % 8192
            if enc.VISIBLE[a]:
                v = s >> 12 & (0x7F if mode or a & 7 == 0 else 0xFF)
                if v & 0x80 and column(a) == 0:
                    v &= 0x7F
                cells[s >> 22 & 1 if mode else 0][a] = v
        res.append(tuple(holes(enc.image(c), seed)
                         for c in cells[:2 if mode else 1]))
    return [r if mode else r + (None,) for r in res]


def column(a):
    return (a % 128) % 40


def holes(data, seed):
    b = bytearray(data)
    for a in range(8192):
        if not enc.VISIBLE[a]:
            b[a] = (a * 31 + seed * 17) & 0xFF
    return bytes(b)


def reference(data, mode):
    """Screens after each 2K frame, by an independent reading."""
    m, ops = _codec.parse(data)
    if m != mode:
        raise world.BadStream("header says mode %d" % m)
    mem = [bytearray(8192), bytearray(8192)]
    bank = 0
    frames = []
    for op in ops:
        if op[0] == "ack":
            frames.append((bytes(mem[0]), bytes(mem[1])))
            bank = op[1] & 1 if mode else 0
        elif op[0] == "end":
            frames.append((bytes(mem[0]), bytes(mem[1])))
        elif op[0] != "nop":
            _, page, content, offs = op
            for x in offs:
                mem[bank][(page - 32) * 256 + x] = content
    return frames


def show(data, mode, frames):
    """Plays the stream; returns (message or None, screens at the end)."""
    m = play.boot(_player, data)
    nplanes = 2 if mode else 1
    still = 0
    last = None
    while m.halt is None:
        now = m.w.delivered, m.w.read_order, m.w.committed
        still = still + 1 if now == last else 0
        last = now
        if still > 200:
            return "the player does not go on after %d of %d bytes" % (
                m.w.read_order, len(data)), play.screens(m)
        if play.at_rsr_poll(m):
            k = m.w.committed // play.FRAME
            got = play.screens(m)
            want = frames[k - 1] if k else None
            if want and got[:nplanes] != want[:nplanes]:
                return "frame %d: the player's screen is not what the " \
                    "stream says" % k, got
            n = len(data) - m.w.delivered
            if n:
                m.w.deliver(min(n, m.w.room()))
            m.step()
        elif play.at_kbd_poll(m):
            # Shown until a key is pressed at the end of the stream.
            if m.w.committed >= len(data) - play.FRAME and \
                    m.w.read_order > len(data) - play.FRAME and \
                    len(data) == m.w.delivered and at_end(m, data):
                return None, play.screens(m)
            m.step()
        else:
            m.step()
        play.run_until(m, play.at_poll, 60 * play.FRAME)
    return None, play.screens(m)


def at_end(m, data):
    # The terminator has been read.
    end = len(data)
    _, ops = _codec.parse(data)
    return m.w.read_order >= ops[-1][1] + 2


def transcode(case, name):
    import palette
    import video_mode
    mode = case["mode"]
    pics = images(mode)
    seq = case["images"]
    frames = [pics[i] for i in seq[:-1]]
    reps = case["last"] // case["each"] + 1
    frames += [pics[seq[-1]]] * reps
    _w.frames = frames
    _w.rate = "14700/%d" % case["each"]
    samples = case["each"] * (len(seq) - 1) + case["last"]
    world.write_wav(name + ".wav", [((k * 977) % 30000) - 15000
                                    for k in range(samples)])
    args = [
        name + ".wav", "--output", name + ".out", "--audio_normalization",
        "1", "--every_n_video_frames", "1",
        "--video_mode", video_mode.VideoMode(mode).name,
        "--palette", palette.Palette(5).name]
    # Whatever was there before is replaced.
    with open(name + ".out", "wb") as f:
        f.write(b"\xA5" * 20000)
    world.program(*args)
    with open(name + ".out", "rb") as f:
        return f.read()


def judge(case, part):
    name = env.unique("c06")
    mode = case["mode"]
    part.count(states=1)
    try:
        enc.Lcg(case.get("seed", 1)).install()
        data = transcode(case, name)
        frames = reference(data, mode)
        text, got = show(data, mode, frames)
        part.count(transitions=len(data), traces=1)
        if text is None:
            want = images(mode)[case["images"][-1]]
            n = 2 if mode else 1
            if got[:n] != frames[-1][:n]:
                text = "the player's last screen is not what the stream says"
            else:
                text, edge = c11.wrong("DHGR" if mode else "HGR", 5, got,
                                       (want[0], want[1] or bytes(8192)))
                if text:
                    text = "the image is not shown: " + str(text)
                    if edge:
                        text = None
                        part.outcome("row edge")
    except apple.PlayerCrash as e:
        text = "player: %s" % e
    except world.BadStream as e:
        text = "stream: %s" % e
    except Exception as e:
        if report.interface_changed(e):
            raise
        text = report.brief_tb()
    finally:
        for suffix in (".wav", ".out"):
            if os.path.exists(name + suffix):
                os.remove(name + suffix)
        shutil.rmtree(name, ignore_errors=True)
    if text:
        part.violation(case, text)
    part.outcome("mode %d, %d images" % (mode, len(case["images"])))


def run(chk):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    chk.assumptions += ["emulator model of the Apple IIe and W5100 (C01-C03)",
                        "bmp2dhr is represented by what it writes"]
    cases = []
    deep = chk.thorough
    for mode in (0, 1):
        n = len(images(mode))
        last = 4200 if mode else 1500
        for i in range(n):
            cases.append(dict(mode=mode, images=[i], each=500, last=last))
        eachs = (1, 7, 60, 290, 700) if deep else (3, 300)
        for seq in itertools.permutations(range(n), 2):
            for each in eachs:
                if deep or (seq[0] + seq[1] + each) % 4 == 0:
                    cases.append(dict(mode=mode, images=list(seq), each=each,
                                      last=last))
        if deep:
            for seq in itertools.permutations(range(n), 3):
                for each in (2, 150):
                    cases.append(dict(mode=mode, images=list(seq), each=each,
                                      last=last, seed=each))
    report.pmap(chk, judge, sorted(cases, key=lambda c: -c["mode"]))
    chk.sample(cases[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("%s sequences of up to %d of %d/%d images" % (
        "all" if deep else "a quarter of the", 3 if deep else 2,
        len(images(0)), len(images(1))))


def replay(case, part):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    judge(case, part)
