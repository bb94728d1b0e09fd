"""C02: the player's refill path under every arrival and key-press schedule.

Model: the real binary + W5100.  A state is the complete machine (CPU, 128K,
W5100, keyboard) at a point where it looks at the environment; the choices are
how much of the stream has arrived (at a receive-size poll) and whether a key
is down (at a keyboard poll).  Breadth-first search with full-state hashing.
"""

from vlib import apple, play, report

ACK_CYCLES = 146

_player = None
_scripts = {}


def levels(thorough):
    base = [0, 255, 256, 2047, 2048, 2049, 4096, 8192]
    if thorough:
        base += [1, 257, 1024, 4095, 6143, 6144, 8191, 2304]
    return sorted(base)


def bank_of(script, frame):
    return 1 if script.mode and frame % 2 else 0


class Search:
    def __init__(self, script, part, start_case):
        self.s = script
        self.part = part
        self.start_case = start_case
        self.paused = None

    def check(self, m, ghost):
        """Invariants at a poll; returns a message or None."""
        w = m.w
        acks = [e for e in w.log if e[0] == "recv"]
        for e in acks:
            if e[1] != play.FRAME:
                return "acknowledged %d bytes, not one frame" % e[1]
        del w.log[:]
        if w.committed % play.FRAME:
            return "committed %d bytes" % w.committed
        if play.at_rsr_poll(m) and w.read_order:
            if ghost["paused"]:
                return "kept playing although paused"
            k = w.committed // play.FRAME
            if w.read_order != max(w.committed, 7):
                return "polls for data with %d bytes read but not " \
                    "acknowledged" % (w.read_order - w.committed)
            want = self.s.frame_screens[k - 1] if k else (
                bytes(8192), bytes(8192))
            got = play.screens(m)
            for b in range(2 if self.s.mode else 1):
                if got[b] != want[b]:
                    bad = [i for i in range(8192) if got[b][i] != want[b][i]]
                    return "after frame %d, %s screen differs at $%04X" % (
                        k, ("main", "aux")[b], 0x2000 + bad[0])
            sw = m.mem.sw
            if not sw["HIRES"] or sw["TEXT"] or sw["MIXED"] or \
                    sw["DHIRES"] != bool(self.s.mode) or \
                    sw["80STORE"] != bool(self.s.mode) or \
                    sw["80COL"] != bool(self.s.mode):
                return "display switches are %s" % sw
            if sw["PAGE2"] != bool(bank_of(self.s, k)):
                return "PAGE2 is %s after frame %d" % (sw["PAGE2"], k)
        return None

    def advance(self, m, choice, ghost):
        """Applies one environment choice to m; returns a message or None."""
        limit = 60 * play.FRAME
        at_rsr = play.at_rsr_poll(m)
        before = (m.w.read_order, len(m.mem.wlog))
        if at_rsr:
            m.w.deliver(choice - m.w.rsr())
            enough = m.w.rsr() >= (play.FRAME if before[0] else 256)
            m.step()
            play.run_until(m, play.at_poll, limit)
            if m.halt:
                return "stopped: %s" % (m.halt,)
            if not enough and m.w.read_order > before[0]:
                return "read the stream with only %d bytes received" % (
                    m.w.rsr())
            if enough and play.at_rsr_poll(m) and m.w.read_order == before[0]:
                return "does not continue although %d bytes have arrived" % (
                    m.w.rsr())
        else:
            if choice:
                m.mem.kbd = choice
                ghost["paused"] = not ghost["paused"]
            was_paused = ghost["paused"]
            m.step()
            play.run_until(m, play.at_poll, limit)
            if m.halt:
                return "stopped: %s" % (m.halt,)
            if m.mem.kbd & 0x80:
                return "left the key press $%02X unacknowledged" % m.mem.kbd
            if was_paused:
                if m.w.read_order != before[0]:
                    return "read the stream while paused"
                if not play.at_kbd_poll(m):
                    return "left the pause without a key press"
                if any(a >= 0x400 for _, a, _ in m.mem.wlog[before[1]:]):
                    return "stored to memory while paused"
            elif m.w.read_order < before[0] + play.FRAME - 7:
                return "key poll without playing the frame (paused twice?)"
        return self.check(m, ghost)

    def choices(self, m, lv):
        if play.at_rsr_poll(m):
            r = m.w.rsr()
            return [r] + [x for x in lv if r < x <= r + m.w.room()]
        return [0, 0xA0, 0x8D] if self.rich_keys else [0, 0xA0]

    def explore(self, lv, nframes, max_presses, rich_keys):
        self.rich_keys = rich_keys
        part = self.part
        m = play.boot(_player, bytes(self.s.data))
        m.mem.sw["PAGE2"] = False
        root = (m, {"paused": False}, 0, [])
        seen = {(m.key(), False)}
        frontier = [root]
        while frontier:
            nxt = []
            for m, ghost, presses, path in frontier:
                for ch in self.choices(m, lv):
                    k = m.clone()
                    del k.mem.wlog[:]
                    del k.mem.ticks[:]
                    g = dict(ghost)
                    kbd = play.at_kbd_poll(k)
                    np_ = presses + (1 if kbd and ch else 0)
                    if np_ > max_presses:
                        continue
                    p = path + [ch]
                    part.count(transitions=1)
                    part.outcome(("key" if ch else "nokey") if kbd else
                                 ("more" if ch >= 2048 else "wait"))
                    try:
                        msg = self.advance(k, ch, g)
                    except apple.PlayerCrash as e:
                        msg = str(e)
                    if msg:
                        part.violation(dict(self.start_case, path=p), msg)
                        if part.nviol > 3:
                            return
                        continue
                    if k.w.committed >= nframes * play.FRAME:
                        part.count(traces=1)
                        continue
                    # Presses beyond the budget are cut, so the count is part
                    # of the state.
                    key = (k.key(), g["paused"], np_)
                    if key in seen:
                        continue
                    seen.add(key)
                    part.count(states=1)
                    del k.mem.wlog[:]
                    nxt.append((k, g, np_, p))
            frontier = nxt


def script(mode, frames, seed=0):
    key = (mode, frames, seed)
    if key not in _scripts:
        _scripts[key] = play.Script(mode).fill_frames(frames, seed)
    return _scripts[key]


def bfs_worker(item, part):
    s = script(item["mode"], item["frames"] + 1, item["seed"])
    Search(s, part, item).explore(item["levels"], item["frames"],
                                  item["presses"], item["rich"])
    part.sample("BFS mode=%d frames=%d levels=%s presses<=%d" % (
        item["mode"], item["frames"], item["levels"], item["presses"]))


def linear_worker(item, part):
    """One schedule (always `level` bytes buffered), many frames: timing,
    buffer and counter wrap-around, every opcode as ACK's neighbour."""
    s = script(item["mode"], item["frames"] + 1, item["seed"])
    o = s.o
    m = play.boot(_player, bytes(s.data))
    se = Search(s, part, item)
    ack = o.Ack._START
    ghost = {"paused": False}
    after = None
    firsts = {}
    frame = 0
    acked = {}
    for i, op in enumerate(s.ops):
        if op == "ack":
            prev, nx = s.ops[i - 1], s.ops[i + 1] if i + 1 < len(s.ops) \
                else None
            acked[frame] = (prev, nx)
            frame += 1
    try:
        while m.w.committed < item["frames"] * play.FRAME:
            m.w.deliver(item["level"] - m.w.rsr())
            if play.at_rsr_poll(m):
                msg = se.check(m, ghost)
                if msg:
                    part.violation(item, msg)
                    return
            f = m.w.committed // play.FRAME
            play.run_until(m, lambda k: k.cpu.pc == ack)
            m.w.deliver(item["level"] - m.w.rsr())
            del m.mem.ticks[:]
            del m.mem.wlog[:]
            t0 = m.cpu.processorCycles
            nx = acked[f][1]
            raw = play.emit(o.TICK_OPCODES[nx[:2]](nx[2], nx[3]))
            target = raw[0] << 8 | raw[1]
            m.step()
            m.w.deliver(item["level"] - m.w.rsr())
            play.run_until(m, lambda k: k.cpu.pc == target)
            cyc = m.cpu.processorCycles - t0
            ticks = [t - t0 for t in m.mem.ticks]
            msg = None
            if cyc != ACK_CYCLES:
                msg = "refill between frames %d and %d took %d cycles, " \
                    "not two opcode periods" % (f, f + 1, cyc)
            elif ticks != [3, 37, 76, 110]:
                msg = "speaker toggles at cycles %s of the refill" % ticks
            elif m.cpu.x:
                msg = "refill left X=$%02X" % m.cpu.x
            else:
                bad = [w for w in m.mem.wlog if 0x400 <= w[1] < 0x800 or
                       0x2000 <= w[1] < 0x4000]
                if bad:
                    msg = "refill stored to the screen: %s" % bad[:2]
            if msg:
                part.violation(item, msg)
                return
            part.count(transitions=1, states=1)
    except apple.PlayerCrash as e:
        part.violation(item, "frame %d: %s" % (
            m.w.committed // play.FRAME, e))
        return
    part.count(traces=1)
    part.outcome("frames in linear runs", item["frames"])


def run(chk):
    global _player
    _player = apple.Player()
    chk.assumptions += [
        "the W5100 wraps its address pointer within the 8K receive memory",
        "bytes arriving between two polls are observable only through the "
        "received-size register, so arrivals are placed at polls"]
    lv = levels(chk.thorough)
    items = []
    for mode in (0, 1):
        items.append(dict(kind="bfs", mode=mode, seed=chk.seed * 1009,
                          frames=40 if chk.thorough else 34, presses=0,
                          rich=False, levels=lv))
        items.append(dict(kind="bfs", mode=mode, seed=5,
                          frames=6 if chk.thorough else 4,
                          presses=8 if chk.thorough else 4, rich=True,
                          levels=lv))
    for mode in (0, 1):
        for level in (4096, 8192, 5000, 4097):
            items.append(dict(kind="linear", mode=mode, seed=level,
                              frames=1100 if chk.thorough else 150,
                              level=level))
    report.pmap(chk, worker, items)
    chk.extra["bound"] = (
        "BFS: %d frames (receive pointer wraps every 32) x arrival levels %s; "
        "keys: at most %d presses within %d frames, at every poll" % (
            40 if chk.thorough else 34, lv, 8 if chk.thorough else 4,
            6 if chk.thorough else 4))


def worker(item, part):
    (bfs_worker if item["kind"] == "bfs" else linear_worker)(item, part)


def replay(case, part):
    global _player
    _player = apple.Player()
    if case["kind"] == "linear" or "path" not in case:
        worker(case, part)
        return
    s = script(case["mode"], case["frames"] + 1, case["seed"])
    se = Search(s, part, case)
    m = play.boot(_player, bytes(s.data))
    g = {"paused": False}
    for ch in case["path"]:
        del m.mem.wlog[:]
        try:
            msg = se.advance(m, ch, g)
        except apple.PlayerCrash as e:
            msg = str(e)
        if msg:
            part.violation(case, msg)
            return
