"""C01: every tick opcode of the real player does exactly what it promises.

Model: the real binary on a cycle-counting 6502.  State space: dispatch states
(X=0, stream pointer at an operand) x 1024 opcodes x operand bytes, plus every
ordered pair of opcodes executed back to back from one machine.
"""

from vlib import apple, env, play, report

CYCLES = 73
ARENA = 0x6000
STORE_PATTERNS = None
# Where a data byte stream is laid out for a single opcode.
FILL = 0xEE


def machine_at_dispatch(player):
    """Runs start-up and the first opcode boundary of an HGR stream."""
    o = play.opcodes()
    rx = bytearray(play.header(0))
    rx += play.emit(o.Nop())
    rx += bytes(play.FRAME)
    m = play.boot(player, bytes(rx))
    m.w.deliver(len(rx))
    target = o.Nop._START
    play.run_until(m, lambda k: k.cpu.pc == target and
                   k.w.read_order >= len(play.header(0)))
    return m


class Runner:
    """Executes single opcodes with direct access to the receive buffer."""

    def __init__(self, player):
        self.o = play.opcodes()
        self.player = player
        self.m = machine_at_dispatch(player)
        self.starts = {}
        self.addrs = {}
        for t in range(4, 68, 2):
            for p in range(32, 64):
                raw = play.emit(self.o.TICK_OPCODES[(t, p)](
                    0x11, (0x22, 0x33, 0x44, 0x55)))
                if len(raw) != 7 or raw[2:] != bytes(
                        [0x11, 0x22, 0x33, 0x44, 0x55]):
                    raise report.CaseFailed(
                        "opcode %d/%d is sent as %s" % (t, p, raw.hex()))
                self.starts[(t, p)] = raw[0] << 8 | raw[1]
        self.player_code = range(player.load, player.end)
        self.entries = set(self.starts.values())
        self.m.w.rx = bytes(8192)
        self.m.w.committed = 0
        self.m.w.delivered = 1 << 40

    def run(self, tick, page, content, offsets, nxt):
        """Runs one opcode; returns (message or None, tick interval)."""
        m = self.m
        w, mem, c = m.w, m.mem, m.cpu
        pos = w.read_order & 8191
        data = (content,) + tuple(offsets) + (nxt >> 8, nxt & 0xFF)
        for i, b in enumerate(data):
            w.mem[0x6000 + ((pos + i) & 8191)] = b
        before = w.read_order
        start = self.starts[(tick, page)]
        if c.pc != start:
            return "not at the opcode: $%04X" % c.pc, None
        del mem.ticks[:]
        del mem.wlog[:]
        t0 = c.processorCycles
        end = before + 7
        n = 0
        inside = self.player_code
        while True:
            m.step()
            n += 1
            # `nxt` may be inside this very opcode, so that passing it early
            # is not yet the dispatch.
            if c.pc == nxt and (c.processorCycles - t0 >= CYCLES or
                                nxt not in inside or nxt in self.entries):
                break
            if n > 60 or w.read_order > end:
                break
        cyc = c.processorCycles - t0
        if w.read_order != end:
            return "read %d stream bytes, not 7" % (w.read_order - before), None
        if c.pc != nxt:
            return "continued at $%04X, not at $%04X" % (c.pc, nxt), None
        if c.x != 0:
            return "left X=$%02X" % c.x, None
        if cyc != CYCLES:
            return "took %d cycles" % cyc, None
        stores = []
        for bank, a, v in mem.wlog:
            if 0x2000 <= a < 0x4000:
                stores.append((bank, a, v))
            elif not (a < 0x100 or m.code_lo <= a < m.code_hi):
                return "stored to $%04X" % a, None
        want = [(0, page << 8 | x, content) for x in offsets]
        if sorted(stores) != sorted(want):
            return "stored %s instead of %s" % (stores, want), None
        if len(mem.ticks) != 2:
            return "toggled the speaker %d times" % len(mem.ticks), None
        if mem.ticks[0] - t0 != 3:
            # the leading STA TICK toggles in its last cycle
            return "first toggle %d cycles into the opcode" % (
                mem.ticks[0] - t0), None
        return None, mem.ticks[1] - mem.ticks[0]


def judge(r, case, part):
    """case = [[tick, page, content, offsets], ...], last next address."""
    ops, last = case["ops"], case["next"]
    r.m.cpu.pc = r.starts[tuple(ops[0][:2])]
    r.m.cpu.x = 0
    for i, (t, p, content, offs) in enumerate(ops):
        nxt = r.starts[tuple(ops[i + 1][:2])] if i + 1 < len(ops) else last
        msg, gap = r.run(t, p, content, offs, nxt)
        part.count(transitions=1)
        key = None
        if msg is None and gap != t:
            msg = "speaker toggles %d cycles apart instead of %d" % (gap, t)
            key = "tick%d-is-%d" % (t, gap)
            case = {"ops": [[t, p, content, offs]], "next": nxt}
        if msg:
            part.violation(case, "TICK_%d_PAGE_%d content=$%02X offsets=%s "
                           "next=$%04X: %s" % (t, p, content, offs, nxt, msg),
                           key)
            if key is None:
                # The machine may be corrupt now; take a fresh one.
                r.__init__(r.player)
                return False
    part.count(traces=1)
    return True


_player = None


def guarded(case, part, fn):
    try:
        return fn()
    except Exception as e:
        part.violation(case, "%s: %s" % (type(e).__name__, e))
        return False


def value_worker(item, part):
    page, thorough = item
    r = Runner(_player)
    ok = True
    for t in range(4, 68, 2):
        nops = 0
        for i in range(256):
            # Every operand byte takes all 256 values.
            case = {"ops": [[t, page, i, [(i + 1) & 255, (i * 3 + 7) & 255,
                                          255 - i, (i ^ 0x5A)]]],
                    "next": ((i * 5 + 3) & 255) << 8 | ((i * 7 + 1) & 255)}
            part.count(states=1)
            if not guarded(case, part, lambda: judge(r, case, part)):
                r = Runner(_player)
                nops += 1
                if nops > 3:
                    break
        if thorough:
            for pos in range(7):
                for i in range(256):
                    d = [0x81, 0x10, 0x77, 0xC3, 0xF8, 0x60, 0x00]
                    d[pos] = i
                    case = {"ops": [[t, page, d[0], d[1:5]]],
                            "next": d[5] << 8 | d[6]}
                    part.count(states=1)
                    if not guarded(case, part, lambda: judge(r, case, part)):
                        r = Runner(_player)
                        nops += 1
                        if nops > 3:
                            break
        # every pattern of equal offsets
        for pat in partitions(4):
            case = {"ops": [[t, page, 0x3C, [(0x21, 0xFF, 0x00, 0x80)[g]
                                             for g in pat]]],
                    "next": 0x4000}
            part.count(states=1)
            if not guarded(case, part, lambda: judge(r, case, part)):
                r = Runner(_player)
    part.sample("page %d: every operand byte value for 32 opcodes" % page)


def partitions(n):
    res = [[0]]
    for _ in range(n - 1):
        res = [p + [g] for p in res for g in range(max(p) + 2)]
    return res


def pair_worker(item, part):
    """All ordered pairs (a, b) with a in `item`, as one long run."""
    r = Runner(_player)
    keys = sorted(r.starts)
    bad = 0
    for a in item:
        k = 0
        for b in keys:
            k += 1
            case = {"ops": [[a[0], a[1], k & 255, [k >> 2 & 255, 9, 8, 255]],
                            [b[0], b[1], 255 - (k & 255),
                             [7, k & 255, 255, 128]]],
                    "next": 0x4000}
            part.count(states=1)
            if not guarded(case, part, lambda: judge(r, case, part)):
                r = Runner(_player)
                bad += 1
                if bad > 3:
                    return
    part.outcome("pairs", len(item) * len(keys))


def run(chk):
    global _player
    _player = apple.Player()
    chk.assumptions += [
        "6502 timing and semantics as in py65, with the NMOS indexed-store "
        "dummy read modelled; interrupts are off while playing",
        "D flag clear on entry (ProDOS and the monitor leave it clear)"]
    report.pmap(chk, value_worker,
                [(p, chk.thorough) for p in range(32, 64)])
    keys = [(t, p) for t in range(4, 68, 2) for p in range(32, 64)]
    report.pmap(chk, pair_worker, [keys[i::64] for i in range(64)])
    chk.extra["bound"] = ("1024 opcodes x 256 values in every operand byte; "
                          "1024x1024 ordered pairs; 15 offset equalities")


def replay(case, part):
    global _player
    _player = apple.Player()
    judge(Runner(_player), case, part)
