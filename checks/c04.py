"""C04: the end of the stream, and RESET at any instant, return to ProDOS.

Model: the real binary.  (a) every opcode before TERMINATE x every key-press
schedule at the keyboard polls; (b) a RESET at every instruction boundary of
start-up, header, frames, refill, pause and the final wait.
"""

from vlib import apple, play, report

_player = None
QUIT = 0x65


def quits(m):
    """Message unless m stopped in a correct ProDOS QUIT call."""
    if m.halt is None or m.halt[0] != "mli":
        return "stopped with %s instead of quitting" % (m.halt,)
    if m.halt[1] != QUIT:
        return "MLI call $%02X is not QUIT" % m.halt[1]
    if m.halt[2][0] != 4 or any(m.halt[2][1:]):
        return "QUIT parameters are %s" % (m.halt[2],)
    mm = m.mem.main
    if mm[0x3F4] == mm[0x3F3] ^ 0xA5:
        return "reset vector still valid after quitting"
    return None


def settle(m):
    play.run_until(m, play.at_kbd_poll, 5000)


def end_worker(item, part):
    """TERMINATE after the given opcode; all key schedules up to a depth."""
    s = play.Script(item["mode"])
    for op in item["ops"]:
        s.tick(*op)
    s.terminate(item["pad"])
    m = play.boot(_player, bytes(s.data))
    m.w.deliver(8192)
    term = s.o.Terminate._START
    for _ in range(20):
        play.run_until(m, lambda k: k.cpu.pc == term or play.at_poll(k))
        if m.cpu.pc == term:
            break
        m.w.deliver(8192)
        m.step()
    if m.cpu.pc != term:
        part.violation(item, "does not reach the end of the stream")
        return
    for stale in (0x00, 0x8D):
        k = m.clone()
        k.mem.kbd = stale
        del k.mem.ticks[:]
        del k.mem.wlog[:]
        settle(k)
        part.count(states=1)
        # Waiting: any number of polls without a key must change nothing.
        prev = None
        for _ in range(4):
            key = k.key()
            part.count(transitions=1)
            if k.halt is not None:
                part.violation(item, "ended without waiting for a key "
                               "(stale key $%02X)" % stale)
                return
            if k.mem.kbd & 0x80:
                part.violation(item, "a key typed during playback is taken "
                               "as the final key press")
                return
            prev = key
            k.step()
            settle(k)
        if k.key() != prev:
            part.violation(item, "state changes while waiting for a key")
            return
        bad = [w for w in k.mem.wlog if w[1] >= 0x400]
        if bad or k.mem.ticks:
            part.violation(item, "stores %s or ticks %d while waiting" % (
                bad[:2], len(k.mem.ticks)))
            return
        got = play.screens(k)
        want = s.frame_screens[-1]
        if got[0] != want[0] or (item["mode"] and got[1] != want[1]):
            part.violation(item, "final screen is wrong")
            return
        for key in item["keys"]:
            q = k.clone()
            q.mem.kbd = key
            part.count(transitions=1)
            play.run_until(q, lambda _: False, 2000)
            msg = quits(q)
            if not msg and q.mem.kbd & 0x80:
                msg = "final key press left for the next program"
            if msg:
                part.violation(item, "key $%02X: %s" % (key, msg))
                return
            part.count(traces=1)
    part.outcome("ended")


def reset(m):
    """What the ROM's reset handler does on a //e, then the soft vector."""
    mm = m.mem.main
    if mm[0x3F4] != mm[0x3F3] ^ 0xA5:
        return "RESET would reboot the machine"
    for name in ("80STORE", "80COL", "PAGE2", "HIRES", "MIXED"):
        m.mem.set(name, False)
    m.mem.set("TEXT", True)
    m.cpu.p &= ~0x08
    m.cpu.a, m.cpu.x, m.cpu.y = 0x55, 0xFF, 0xAA
    m.cpu.pc = mm[0x3F2] | mm[0x3F3] << 8
    play.run_until(m, lambda _: False, 2000)
    return quits(m)


def reset_worker(item, part):
    s = play.Script(item["mode"]).fill_frames(1, 11)
    for k in range(20):
        s.tick(4 + 2 * k, 40 + k, k, (k, k + 1, k + 2, k + 3))
    s.terminate()
    m = apple.Machine(_player, bytes(s.data), fill=item["fill"])
    m.cpu.pc = _player.load
    n = 0
    installed = False
    keys = item["keys"]
    polls = 0
    waits = 0
    while m.halt is None and waits < 6:
        if not installed:
            mm = m.mem.main
            v = mm[0x3F2] | mm[0x3F3] << 8
            installed = mm[0x3F4] == mm[0x3F3] ^ 0xA5 and \
                _player.load <= v < _player.end
            if n > 50 and not installed:
                part.violation(dict(item, at=n),
                               "reset handler not installed at start-up")
                return
        in_player = m.code_lo <= m.cpu.pc < m.code_hi
        if installed and in_player and n % item["of"] == item["k"]:
            q = m.clone()
            part.count(states=1, transitions=1)
            try:
                msg = reset(q)
            except apple.PlayerCrash as e:
                msg = str(e)
            if msg:
                part.violation(dict(item, at=n), "RESET after %d "
                               "instructions (pc=$%04X): %s" % (
                                   n, m.cpu.pc, msg))
                return
            part.count(traces=1)
        if play.at_status_poll(m):
            m.w.mem[0x403] = 0x17 if any(
                e[0] == "connect" for e in m.w.log) else 0x13
        elif play.at_rsr_poll(m):
            polls += 1
            if polls > 2:
                m.w.deliver(8192)
        elif play.at_kbd_poll(m):
            if keys:
                m.mem.kbd = keys[0]
                keys = keys[1:]
            elif m.w.read_order > 2150:
                waits += 1
        m.step()
        n += 1
        if n > 40000:
            part.violation(dict(item, at=n), "does not finish")
            return
    part.outcome("resets", n // item["of"])
    part.sample("reset at every instruction of %d, mode %d" % (
        n, item["mode"]))


def worker(item, part):
    (end_worker if item["kind"] == "end" else reset_worker)(item, part)


def run(chk):
    global _player
    _player = apple.Player()
    chk.assumptions += ["ROM reset handler as documented for the //e"]
    items = []
    keys = [0x80, 0x8D, 0xA0, 0xFF] if not chk.thorough else \
        list(range(0x80, 0x100))
    for mode in (0, 1):
        for p in range(32, 64):
            for t in range(4, 68, 2):
                items.append(dict(
                    kind="end", mode=mode, pad=(0, 0xFF)[(t // 2 + p) % 2],
                    keys=keys, ops=[[t, p, 0x7E, [1, 2, 3, p]]]))
        for n in (0, 290, 291, 292, 583):
            items.append(dict(
                kind="end", mode=mode, pad=0, keys=keys,
                ops=[[34, 32 + i % 32, i % 128, [i % 256, 1, 2, 3]]
                     for i in range(n)] or [[34, 32, 0, [0, 0, 0, 0]]]))
        of = 8
        for k in range(of):
            for fill in ((0x00, 0xFF) if chk.thorough else (0x00,)):
                items.append(dict(kind="reset", mode=mode, fill=fill, k=k,
                                  of=of, keys=[0, 0x8D, 0, 0, 0xA0]))
    groups = [[it for it in items if it["kind"] == "end"][i::32]
              for i in range(32)]
    groups += [[it] for it in items if it["kind"] == "reset"]
    report.pmap(chk, group, groups)
    chk.extra["bound"] = "1024 opcodes x 2 modes before the end; RESET at " \
        "every instruction boundary of a 2-frame run with a pause"


def group(items, part):
    for it in items:
        try:
            worker(it, part)
        except apple.PlayerCrash as e:
            part.violation(it, str(e))
        if part.nviol > 3:
            return


def replay(case, part):
    global _player
    _player = apple.Player()
    group([case], part)
