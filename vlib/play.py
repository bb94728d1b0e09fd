"""Drivers that bring the real player binary into interesting states."""

from vlib import apple, env

FRAME = 2048
PROGRESS_LIMIT = 400000


def opcodes():
    """The transcoder's opcode classes (addresses from committed symbols)."""
    env.use_transcoder()
    import opcodes as o
    return o


def emit(op):
    """Bytes the transcoder emits for an opcode."""
    import machine
    return bytes(int(b) for b in machine.Machine().emit(op))


def header(mode_value):
    o = opcodes()
    import video_mode
    return emit(o.Header(video_mode.VideoMode(mode_value)))


class Stuck(apple.PlayerCrash):
    pass


def run_until(m, stop, limit=PROGRESS_LIMIT):
    """Steps until stop(m) or the machine halts; returns the step count."""
    n = 0
    step = m.step
    while m.halt is None and not stop(m):
        step()
        n += 1
        if n > limit:
            raise Stuck("no progress after %d instructions, pc=$%04X" % (
                limit, m.cpu.pc))
    return n


def at_data_read(m, ptr):
    return m.w.ptr == ptr and m.pending_read() == 0xC097


def at_rsr_poll(m):
    return at_data_read(m, 0x426)


def at_status_poll(m):
    return at_data_read(m, 0x403)


def at_kbd_poll(m):
    return m.pending_read() == apple.KBD


def at_poll(m):
    """About to look at anything the environment decides."""
    c = m.cpu
    if not m.code_lo <= c.pc < m.code_hi:
        return False
    p = m.pending_read()
    return p == 0xC000 or (p == 0xC097 and m.w.ptr in (0x426, 0x403))


def boot(player, rx, **kw):
    """A machine that has connected and is polling for the header."""
    m = apple.Machine(player, rx, **kw)
    m.cpu.pc = player.load
    run_until(m, at_status_poll)          # socket opened?
    m.step()
    run_until(m, at_status_poll)          # connected?
    m.w.mem[0x403] = m.w.ESTABLISHED
    run_until(m, at_rsr_poll)
    return m


class Script:
    """A well-formed stream built opcode by opcode, with its reference screen.

    The framing (header first, ACK in the last four bytes of every 2K frame) is
    the documented player protocol, written down here independently of the
    transcoder's own framing code.
    """

    def __init__(self, mode_value):
        self.o = opcodes()
        self.mode = mode_value
        self.data = bytearray(header(mode_value))
        assert len(self.data) == 7
        self.bank = 0
        self.screen = [[0] * 8192, [0] * 8192]
        self.frame_screens = []      # reference screens after each frame
        self.nops = 0
        self.terminated = False
        self.ops = []                # (tick, page, content, offsets) or "ack"

    def tick(self, tick, page, content, offsets):
        self.data += emit(self.o.TICK_OPCODES[(tick, page)](
            content, tuple(offsets)))
        for x in offsets:
            self.screen[self.bank][(page - 32) * 256 + x] = content
        self.ops.append((tick, page, content, tuple(offsets)))
        self.nops += 1
        if len(self.data) % FRAME == FRAME - 4:
            if self.mode:
                self.bank ^= 1
            self.data += emit(self.o.Ack(bool(self.bank)))
            self.ops.append("ack")
            self.frame_screens.append(
                (bytes(self.screen[0]), bytes(self.screen[1])))
        assert len(self.data) % FRAME <= FRAME - 4

    def fill_frames(self, n, seed=0):
        """Adds ops until n complete frames exist; deterministic, varied."""
        k = seed
        while len(self.frame_screens) < n:
            t = 4 + 2 * ((k * 7 + k // 32) % 32)
            p = 32 + (k * 13 + k // 64) % 32
            c = (k * 37 + k // 256) & 0xFF
            self.tick(t, p, c, ((k * 3) & 255, (k * 5 + 1) & 255,
                                (k * 11 + 2) & 255, (k * 17 + 3) & 255))
            k += 1
        return self

    def terminate(self, pad=0x00):
        self.data += emit(self.o.Terminate())
        self.data += bytes([pad]) * (-len(self.data) % FRAME)
        self.frame_screens.append(
            (bytes(self.screen[0]), bytes(self.screen[1])))
        self.terminated = True
        return self


def screens(m):
    return (bytes(m.mem.main[0x2000:0x4000]),
            bytes(m.mem.aux[0x2000:0x4000]))
