"""C27: the sound goes on through a frame change as two silent samples.

The real player with data waiting: every opcode as the last before and as the
first after a frame change, in every sequence of all four 2 KB slots of the
receive buffer, both memory banks and several amounts of waiting data; every
speaker toggle from the first sample to the last is on the clock.
"""

from vlib import apple, play, report

PERIOD, SILENT = 73, 34
_player = None


class Ring:
    """A stream whose frames end and begin with chosen opcodes."""

    def __init__(self, mode, pairs, seed):
        s = self.script = play.Script(mode)
        k = seed
        nxt = None
        for last, first in list(pairs) + [(None, None)]:
            while True:
                op = nxt
                nxt = None
                # Room for one more opcode before the acknowledgement?
                end = (len(s.data) + 7) % play.FRAME == play.FRAME - 4
                if end and last is not None:
                    op = last
                op = op or (4 + 2 * (k % 32), 32 + (k // 32) % 32)
                k += 7
                s.tick(op[0], op[1], k & 0xFF,
                       ((k * 3) & 255, (k * 5 + 1) & 255, (k * 11 + 2) & 255,
                        (k * 17 + 3) & 255))
                if end:
                    nxt = first
                    break
        s.terminate()


def sounds(ops):
    """The pulses the script asks for, in order; None where not judged."""
    out = []
    for op in ops:
        if op == "ack":
            out += [SILENT, SILENT]
        else:
            out.append(op[0])
    return out


def worker(item, part):
    mode, level = item["mode"], item["level"]
    pairs = [(tuple(a), tuple(b)) for a, b in item["pairs"]]
    s = Ring(mode, pairs, item["seed"]).script
    m = play.boot(_player, bytes(s.data))
    want = sounds(s.ops)
    # The opcode address after the header: the sound begins here.
    first = play.emit(s.o.TICK_OPCODES[s.ops[0][:2]](
        s.ops[0][2], s.ops[0][3]))
    target = first[0] << 8 | first[1]
    last = play.emit(s.o.Terminate())
    end = last[0] << 8 | last[1]
    began = []

    def go(k):
        if k.w.rsr() < level:
            k.w.deliver(level - k.w.rsr())
        if not began and k.cpu.pc == target:
            began.append(k.cpu.processorCycles)
            del k.mem.ticks[:]
        return bool(began) and k.cpu.pc == end

    try:
        play.run_until(m, go, len(s.data) * 40)
    except apple.PlayerCrash as e:
        part.violation(item, "playback failed: %s" % e)
        return
    if not began or m.cpu.pc != end:
        part.violation(item, "playback stopped: %s" % (m.halt,))
        return
    t0 = began[0]
    ticks = m.mem.ticks
    frames = s.ops.count("ack")
    part.count(states=len(pairs), transitions=len(ticks), traces=1)
    if len(ticks) != 2 * len(want):
        part.violation(item, "%d speaker toggles for %d samples and %d frame "
                       "changes" % (len(ticks), len(want) - 2 * frames,
                                    frames))
        return
    where = ticks[0] - t0
    i = 0
    for n, op in enumerate(s.ops):
        for half in range(2 if op == "ack" else 1):
            at = ticks[2 * i] - t0 - where
            width = ticks[2 * i + 1] - ticks[2 * i]
            if at != PERIOD * i:
                part.violation(item, "pulse %d (%s) starts at cycle %d, not "
                               "%d: after %s" % (
                                   i, op, at, PERIOD * i, s.ops[n - 1]))
                return
            if op == "ack" and width != SILENT:
                part.violation(item, "pulse %d of the frame change between "
                               "%s and %s is %d cycles wide, silence is %d" %
                               (half + 1, s.ops[n - 1], s.ops[n + 1], width,
                                SILENT))
                return
            i += 1
    if m.cpu.processorCycles - t0 != PERIOD * i:
        part.violation(item, "%d sample periods took %d cycles" % (
            i, m.cpu.processorCycles - t0))
        return
    part.outcome("frame changes in mode %d" % mode, frames)


def run(chk):
    global _player
    _player = apple.Player()
    deep = chk.thorough
    allops = [(t, p) for t in range(4, 67, 2) for p in range(32, 64)]
    items = []
    # All opcodes before and after; shift decides who meets whom.
    shifts = (1, 33, 517, 700) if deep else (33,)
    levels = (2048, 4096, 6144, 8192) if deep else (2048, 8192)
    parts = 16
    for shift in shifts:
        pairs = [(a, allops[(i + shift + chk.seed) % 1024])
                 for i, a in enumerate(allops)]
        for mode in (0, 1):
            for k in range(parts):
                items.append(dict(
                    mode=mode, level=levels[(k + mode + shift) % len(levels)],
                    pairs=pairs[k::parts], seed=k * 131 + shift))
    # Every sound before every sound, at each slot of the buffer in turn.
    pairs = [((a, 32 + (a + b) // 2 % 32), (b, 32 + (3 * a + b) // 2 % 32))
             for a in range(4, 67, 2) for b in range(4, 67, 2)]
    for k in range(parts):
        items.append(dict(mode=k & 1, level=levels[k % len(levels)],
                          pairs=pairs[k::parts], seed=k))
    report.pmap(chk, worker, items)
    chk.sample({"pairs per run": len(items[0]["pairs"]), "runs": len(items)})
    chk.assumptions += ["data is waiting; the sound of a stall is not judged"]
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = (
        "all 1024 opcodes before and after a frame change in both modes, all "
        "32 x 32 pairs of sounds; receive levels %s; runs of %d frames" % (
            levels, len(items[0]["pairs"])))


def replay(case, part):
    global _player
    _player = apple.Player()
    worker(case, part)
