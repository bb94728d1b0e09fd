"""C10: the encoder always knows exactly what is on the player's screen.

Model: the real encoder plus the player's memory (an opcode stores its content
at its four offsets).  Every history of encodings over a small set of images,
each interrupted after every possible number of opcodes (a new frame or a bank
switch), including what is sent when there is nothing left to do; and a set of
long histories over busy images.  Also whole transcodings in which new frames,
skipped ones too, begin at and around every change of the memory bank.
"""

import os
import shutil

from vlib import enc, env, report, world

_w = _codec = None


def monitor(e, op, ti, hist):
    for bank in e.banks():
        have, want = e.belief(bank), bytes(e.mem[bank])
        if have != want:
            bad = [a for a in range(8192) if have[a] != want[a]]
            raise enc.Bad(
                "%s byte $%04X is $%02X on the player's screen, $%02X in the "
                "encoder's (%d bytes differ), after opcode %s" % (
                    ("main", "aux")[bank], 0x2000 + bad[0], want[bad[0]],
                    have[bad[0]], len(bad), op))


def long_case(case, part):
    """Busy images in turn, with the bank flips of the real framing."""
    mode, pal, seed, n = (case["mode"], case["palette"], case["seed"],
                          case["ops"])
    enc.Lcg(seed).install()
    mask = 0x7F if mode == "DHGR" else 0xFF
    e = enc.Encoder(mode, pal)
    bank = 0
    done = 0
    left_in_frame = case["interval"]
    targets = [enc.bitmap(mode, pal, enc.noise(seed, mask),
                          enc.noise(seed + 1, mask)),
               enc.bitmap(mode, pal, enc.image({}, 0x55 & mask),
                          enc.image({}, 0x2A)),
               enc.bitmap(mode, pal, enc.noise(seed + 2, mask),
                          enc.image({}, 0x7F))]
    k = 0
    e.start(targets[0], 0)
    frame_left = 291
    while done < n:
        try:
            op = e.op()
            part.count(states=1, transitions=1)
            monitor(e, op, k, [])
        except enc.Bad as err:
            part.violation(case, "opcode %d: %s" % (done, err))
            return
        done += 1
        left_in_frame -= 1
        frame_left -= 1
        restart = False
        if left_in_frame == 0:
            left_in_frame = case["interval"]
            k = (k + 1) % len(targets)
            restart = True
        if frame_left == 0:
            frame_left = 292
            if mode == "DHGR":
                bank ^= 1
                restart = True
        if restart:
            e.start(targets[k], bank)
    part.count(traces=1)


def cells(k, aux):
    """An image that takes some dozen opcodes."""
    res = {}
    for i in range(100):
        a = (i * 83 + k * 1237 + aux * 401) % 8192
        if enc.VISIBLE[a]:
            res[a] = 1 + (i * 7 + k * 29 + aux * 3) % 127
    return enc.image(res)


def movie_case(case, part):
    """A whole transcoding, executed opcode by opcode in the right bank."""
    global _w, _codec
    if _w is None:
        _w = world.World()
        _codec = world.Codec()
    import movie
    import palette
    import video_mode
    mode, every, each = case["mode"], case["every"], case["each"]
    nframes = case["frames"]
    _w.frames = [(cells(k, 0), cells(k, 1) if mode == "DHGR" else None)
                 for k in range(nframes)]
    _w.rate = "14700/%d" % each
    d = os.path.join(env.scratch(), env.unique("c10"))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wav = d + "/a.wav"
    # The last frame stays until there is nothing left to do.
    world.write_wav(wav, [0] * min(each * nframes - 1,
                                   each * (nframes - 1) + 1500))
    part.count(states=1)
    try:
        enc.Lcg(1).install()
        m = movie.Movie(wav, audio_normalization=1.0,
                        every_n_video_frames=every,
                        video_mode=video_mode.VideoMode[mode],
                        palette=palette.Palette(5))
        data = bytes(int(b) for b in m.emit_stream(m.encode()))
        ticks = _codec.check_framing(data, int(mode == "DHGR"))
    except world.BadStream as e:
        part.violation(case, str(e))
        return
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())
        return
    finally:
        shutil.rmtree(d, ignore_errors=True)
    part.count(traces=1, transitions=len(ticks))
    mem = [bytearray(8192), bytearray(8192)]
    for _, page, content, offs, bank in ticks:
        for o in offs:
            mem[bank][(page - 32) * 256 + o] = content
    v = m.video
    for bank in ((0, 1) if mode == "DHGR" else (0,)):
        have = bytes(bytearray((v.aux_memory_map if bank else v.memory_map)
                               .page_offset.astype("uint8").tobytes()))
        bad = [a for a in range(8192) if have[a] != mem[bank][a]]
        if bad:
            part.violation(case, "at the end %s byte $%04X is $%02X on the "
                           "player's screen, $%02X in the encoder's (%d bytes "
                           "differ)" % (("main", "aux")[bank],
                                        0x2000 + bad[0], mem[bank][bad[0]],
                                        have[bad[0]], len(bad)))
            return


def movie_cases(deep):
    res = []
    for mode in ("DHGR", "HGR"):
        for every in (1, 2, 3):
            for each in list(range(286, 299) if mode == "DHGR" or deep else
                             (291, 292)) + (
                    [145, 146, 147, 97, 98, 583, 584, 585]
                    if mode == "DHGR" else []):
                res.append(dict(movie=1, mode=mode, every=every, each=each,
                                frames=9))
    return res


def run(chk):
    deep = chk.thorough
    chk.assumptions += [
        "the player executes opcodes as C01 establishes",
        "edit distance tables as built from the current tree (C17)"]
    enc.run_small(chk, monitor, 3 if deep else 2,
                  configs=[("HGR", 5), ("DHGR", 0)] +
                  ([("HGR", 0), ("DHGR", 5)] if deep else []))
    enc.run_small(chk, monitor, 1, dice=[()] + [(i,) for i in range(6)])
    cases = []
    for mode, pal in (("HGR", 5), ("DHGR", 0)):
        for interval in (37, 245, 490):
            for seed in range(3 if deep else 1):
                cases.append(dict(mode=mode, palette=pal, seed=seed + 1,
                                  interval=interval,
                                  ops=6000 if deep else 700))
    report.pmap(chk, long_case, cases)
    enc.load("DHGR", 5)
    report.pmap(chk, movie_case, movie_cases(deep))
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all histories of %d encodings of %d/%d images, "
                          "interrupted after every opcode" % (
                              3 if deep else 2, len(enc.small("HGR")),
                              len(enc.small("DHGR"))))


def replay(case, part):
    if "movie" in case:
        enc.load(case["mode"], 5)
        movie_case(case, part)
    elif "hist" in case:
        enc.replay_history(case, part, monitor)
    else:
        enc.load(case["mode"], case["palette"])
        long_case(case, part)
