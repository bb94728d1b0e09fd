"""Executes the real player binary: NMOS 6502 + Apple IIe memory + W5100.

The player is assembled from /repo/player with the repository's own makefile
in a scratch copy.  The 6502 core is py65 (a pinned development dependency of
the project); memory soft switches, the speaker and the W5100 are modelled
here, with every answer the outside world gives (network, keyboard) left to
the caller.
"""

import os
import re
import shutil
import sys

from py65.devices import mpu6502

from vlib import env

KBD, KBDSTRB, TICK = 0xC000, 0xC010, 0xC030


class PlayerCrash(Exception):
    """The player did something no Apple II program may do."""


class Player:
    """The assembled binary: load address, bytes, labels."""

    def __init__(self, edit=None):
        """edit: called with the build directory before the build; then the
        symbol table stays in self.table instead of becoming the one used."""
        d = os.path.join(env.scratch(), "player_build%d" % os.getpid())
        if os.path.exists(d):
            shutil.rmtree(d)
        shutil.copytree(os.path.join(env.REPO, "player"), d)
        for name in os.listdir(d):
            if name.endswith((".o", ".lst", ".dsk", ".map")) or \
                    name in ("iivision", "iivision.dbg"):
                os.remove(os.path.join(d, name))
        if edit:
            edit(d)
        envv = dict(os.environ)
        envv.pop("MAKEFLAGS", None)
        env.run(["make", "iivision", "CC65_BIN=/usr/bin",
                 "CC65_HOME=/usr/share/cc65"], cwd=d, env=envv)
        with open(os.path.join(d, "iivision"), "rb") as f:
            data = f.read()
        self.load, self.code = self._applesingle(data)
        self.end = self.load + len(self.code)
        self.labels = {}
        with open(os.path.join(d, "iivision.dbg")) as f:
            for line in f:
                m = re.match(r'sym\s+.*name="([^"]*)".*\bval=0x([0-9A-F]+)'
                             r'.*type=lab', line)
                if m and not m.group(1).startswith("@"):
                    self.labels[m.group(1)] = int(m.group(2), 16)
        if edit:
            with open(os.path.join(d, "iivision.dbg")) as f:
                self.table = f.read()
            shutil.rmtree(d)
            return
        # The transcoder takes the addresses from the table made with this
        # binary (as after running make), not from the committed one.
        assert "symbol_table" not in sys.modules
        link = os.path.join(env.scratch(), "player")
        os.remove(link)
        os.mkdir(link)
        os.rename(os.path.join(d, "iivision.dbg"),
                  os.path.join(link, "iivision.dbg"))
        shutil.rmtree(d)

    @staticmethod
    def _applesingle(data):
        assert data[:4] == b"\x00\x05\x16\x00", "not AppleSingle"
        n = int.from_bytes(data[24:26], "big")
        load = body = None
        for i in range(n):
            e = data[26 + 12 * i:38 + 12 * i]
            kind, off, size = (int.from_bytes(e[j:j + 4], "big")
                               for j in (0, 4, 8))
            if kind == 1:
                body = data[off:off + size]
            elif kind == 11:
                load = int.from_bytes(data[off + 6:off + 8], "big")
        return load, body


class W5100:
    """WIZnet W5100 in indirect bus mode, one TCP client socket.

    rx is everything the server sends; `delivered` says how much of it has
    arrived.  The caller decides when more arrives, within the free space of
    the receive buffer.
    """

    SOCK_INIT, SYNSENT, ESTABLISHED, CLOSED = 0x13, 0x15, 0x17, 0x00

    def __init__(self, rx=b"", fill=0xA5):
        self.mem = bytearray([fill]) * 0x8000
        self.mode = 0
        self.ptr = 0x2A2A
        self.rx = rx
        self.delivered = 0
        self.committed = 0
        self.read_order = 0      # data bytes read, if in order
        self.log = []            # commands and other events
        self.open_status = self.SOCK_INIT
        self.mem[0x400:0x430] = bytes([fill]) * 0x30

    def clone(self):
        w = W5100.__new__(W5100)
        w.__dict__.update(self.__dict__)
        w.mem = bytearray(self.mem)
        w.log = list(self.log)
        return w

    def key(self):
        return (bytes(self.mem), self.mode, self.ptr, self.delivered,
                self.committed, self.read_order)

    def reset(self):
        self.mem[0:0x600] = bytes(0x600)
        self.mem[0x1A] = self.mem[0x1B] = 0x55    # datasheet reset values
        self.mode = 0
        self.log.append(("reset",))

    @property
    def bufsize(self):
        return 1024 << (self.mem[0x1A] & 3)

    def rsr(self):
        return self.delivered - self.committed

    def room(self):
        return min(self.bufsize - self.rsr(), len(self.rx) - self.delivered)

    def deliver(self, n):
        n = max(0, min(n, self.room()))
        mask = self.bufsize - 1
        mem, rx, d = self.mem, self.rx, self.delivered
        for i in range(d, d + n):
            mem[0x6000 + (i & mask)] = rx[i]
        self.delivered += n
        self._regs()
        return n

    def _regs(self):
        r = self.rsr()
        self.mem[0x426], self.mem[0x427] = (r >> 8) & 0xFF, r & 0xFF

    def _advance(self):
        if self.mode & 2:
            self.ptr += 1
            if self.ptr == 0x6000:
                self.ptr = 0x4000
            elif self.ptr == 0x8000:
                self.ptr = 0x6000
            self.ptr &= 0x7FFF

    def read_data(self):
        if not self.mode & 1:
            raise PlayerCrash("data port used outside indirect bus mode")
        p = self.ptr
        if p >= 0x6000:
            off = (p - 0x6000) & (self.bufsize - 1)
            if (p - 0x6000) >= self.bufsize or \
                    off != (self.read_order & (self.bufsize - 1)):
                raise PlayerCrash(
                    "stream byte %d expected, W5100 pointer is at $%04X" % (
                        self.read_order, p))
            if self.read_order >= self.delivered:
                raise PlayerCrash(
                    "read stream byte %d before it was received (%d were)" % (
                        self.read_order, self.delivered))
            self.read_order += 1
        v = self.mem[p]
        self._advance()
        return v

    def write_data(self, v):
        if not self.mode & 1:
            raise PlayerCrash("data port used outside indirect bus mode")
        p = self.ptr
        if 0x426 <= p <= 0x427 or p == 0x403:
            raise PlayerCrash("write to read-only W5100 register $%04X" % p)
        if p >= 0x6000:
            raise PlayerCrash("write into W5100 receive memory $%04X" % p)
        self.mem[p] = v
        if p == 0x401:
            self.command(v)
        self._advance()

    def command(self, v):
        m = self.mem
        if v == 0x01:
            self.log.append(("open", bytes(m[0:0x30]), bytes(m[0x400:0x430])))
            ok = m[0x400] & 0x0F == 1
            m[0x403] = self.open_status if ok else 0
            m[0x428] = m[0x429] = 0
            self.committed = self.delivered = self.read_order = 0
            self._regs()
        elif v == 0x04:
            self.log.append(
                ("connect", bytes(m[0:0x30]), bytes(m[0x400:0x430])))
            m[0x403] = self.SYNSENT if m[0x403] == self.SOCK_INIT else 0
        elif v == 0x40:
            rd = (m[0x428] << 8) | m[0x429]
            n = (rd - self.committed) & 0xFFFF
            self.log.append(("recv", n, self.read_order - self.committed))
            if n != self.read_order - self.committed:
                raise PlayerCrash(
                    "acknowledged %d bytes after reading %d" % (
                        n, self.read_order - self.committed))
            self.committed += n
            self._regs()
        elif v == 0x08:
            self.log.append(("discon",))
            m[0x403] = 0
        else:
            raise PlayerCrash("unknown socket command $%02X" % v)
        m[0x401] = 0


class Mem:
    """64K main + aux memory with the soft switches the player touches."""

    def __init__(self, player, w5100, fill=0x00):
        self.main = [fill] * 0x10000
        self.aux = [fill ^ 0xFF] * 0x10000
        self.main[player.load:player.end] = list(player.code)
        self.w = w5100
        self.cpu = None
        self.ticks = []
        self.wlog = []
        self.swlog = []
        self.sw = {"80STORE": False, "PAGE2": False, "HIRES": False,
                   "TEXT": True, "MIXED": True, "80COL": False,
                   "DHIRES": False}
        self.kbd = 0x00
        self.steer = 0        # 1 if $2000-$3FFF go to aux memory
        self.steer_text = 0
        self.ctime = mpu6502.MPU.cycletime

    # --- plain accesses

    def __getitem__(self, a):
        if a < 0xC000 or a >= 0xD000:
            if 0x2000 <= a < 0x4000:
                return self.aux[a] if self.steer else self.main[a]
            if 0x400 <= a < 0x800 and self.steer_text:
                return self.aux[a]
            return self.main[a]
        return self.io(a, None)

    def __setitem__(self, a, v):
        if a < 0xC000:
            if 0x2000 <= a < 0x4000:
                if self.steer:
                    self.aux[a] = v
                    self.wlog.append((1, a, v))
                    return
            elif 0x400 <= a < 0x800 and self.steer_text:
                self.aux[a] = v
                self.wlog.append((1, a, v))
                return
            self.main[a] = v
            self.wlog.append((0, a, v))
        elif a < 0xD000:
            self.io(a, v)
        # ROM: writes are ignored

    # --- I/O

    def when(self):
        c = self.cpu
        return c.processorCycles + self.ctime[c.last_op] - 1

    def io(self, a, v):
        w = self.w
        if a == 0xC097:
            if v is None:
                return w.read_data()
            w.write_data(v)
            return 0
        if 0xC030 <= a <= 0xC03F:
            self.ticks.append(self.when())
            return 0
        if a == 0xC095:
            if v is None:
                return w.ptr >> 8
            w.ptr = ((v << 8) | (w.ptr & 0xFF)) & 0x7FFF
            return 0
        if a == 0xC096:
            if v is None:
                return w.ptr & 0xFF
            w.ptr = (w.ptr & 0x7F00) | v
            return 0
        if a == 0xC094:
            if v is None:
                return w.mode
            if v & 0x80:
                w.reset()
            else:
                w.mode = v
                w.log.append(("mode", v))
            return 0
        if a <= 0xC00F and v is None:
            return self.kbd
        if 0xC010 <= a <= 0xC01F:
            self.kbd &= 0x7F
            return 0
        if a in (0xC000, 0xC001):
            self.set("80STORE", a & 1)
        elif a in (0xC00C, 0xC00D):
            self.set("80COL", a & 1)
        elif 0xC050 <= a <= 0xC057:
            self.set(("TEXT", "MIXED", "PAGE2", "HIRES")[(a - 0xC050) // 2],
                     a & 1)
        elif a in (0xC05E, 0xC05F):
            self.set("DHIRES", a == 0xC05E)
        else:
            raise PlayerCrash("unexpected I/O %s $%04X" % (
                "read" if v is None else "write", a))
        return 0

    def set(self, name, val):
        self.sw[name] = bool(val)
        self.swlog.append((name, bool(val)))
        s = self.sw
        self.steer_text = s["80STORE"] and s["PAGE2"]
        self.steer = self.steer_text and s["HIRES"]


class CPU(mpu6502.MPU):
    last_op = 0


INDEXED_STORES = {0x9D: "x", 0x99: "y"}
ABS_READS = frozenset([0xAD, 0xAE, 0xAC, 0x2C, 0xCD, 0xEC, 0xCC, 0x0D, 0x2D,
                       0x4D, 0x6D, 0xED])
UNDEFINED = frozenset(i for i in range(256)
                      if mpu6502.MPU.disassemble[i][0] == "???")
_mem = None


class Machine:
    """CPU + memory + network card."""

    HGR0, COUT, MLI = 0xF3F2, 0xFDED, 0xBF00

    def __init__(self, player, rx=b"", fill=0x00, regs=(0, 0, 0), wfill=0xA5):
        self.player = player
        self.w = W5100(rx, wfill)
        self.mem = Mem(player, self.w, fill)
        self.cpu = CPU(memory=self.mem)
        self.mem.cpu = self.cpu
        self.cpu.sp = 0xF0
        self.cpu.a, self.cpu.x, self.cpu.y = regs
        self.regs = regs
        self.halt = None
        self.text = []
        self.romlog = []
        self.code_lo, self.code_hi = player.load, player.end
        self.last_pc = 0

    def clone(self):
        """A copy of the complete machine state."""
        m = Machine.__new__(Machine)
        m.__dict__.update(self.__dict__)
        m.w = self.w.clone()
        mem = Mem.__new__(Mem)
        mem.__dict__.update(self.mem.__dict__)
        mem.main = self.mem.main[:]
        mem.aux = self.mem.aux[:]
        mem.ticks = list(self.mem.ticks)
        mem.wlog = list(self.mem.wlog)
        mem.swlog = list(self.mem.swlog)
        mem.sw = dict(self.mem.sw)
        mem.w = m.w
        cpu = CPU(memory=mem)
        for r in ("a", "x", "y", "p", "pc", "sp", "processorCycles",
                  "last_op"):
            setattr(cpu, r, getattr(self.cpu, r))
        mem.cpu = cpu
        m.mem, m.cpu = mem, cpu
        m.text = list(self.text)
        m.romlog = list(self.romlog)
        return m

    def key(self):
        """Everything the future depends on (not the clock or the logs)."""
        c = self.cpu
        return hash((c.a, c.x, c.y, c.p, c.pc, c.sp, bytes(self.mem.main),
                     bytes(self.mem.aux), self.mem.kbd, self.halt,
                     tuple(sorted(self.mem.sw.items())), self.w.key()))

    def _rts(self):
        c = self.cpu
        lo = self.mem.main[0x100 + ((c.sp + 1) & 0xFF)]
        hi = self.mem.main[0x100 + ((c.sp + 2) & 0xFF)]
        c.sp = (c.sp + 2) & 0xFF
        c.pc = ((hi << 8) + lo + 1) & 0xFFFF

    def _rom(self, pc):
        c, mem = self.cpu, self.mem
        if pc == self.HGR0:
            # Clears from the page whose high byte is at $E6 to the next
            # multiple of 8K, through the current soft switches; uses A, Y,
            # $1A-$1C.
            first = mem.main[0xE6] << 8
            base = first & 0xE000
            steered = mem.steer and base == 0x2000
            dst = mem.aux if steered else mem.main
            dst[first:base + 0x2000] = [0] * (base + 0x2000 - first)
            self.romlog.append(("clear", 1 if steered else 0, base))
            mem.main[0x1A] = 0
            mem.main[0x1B] = (base >> 8) + 0x20
            mem.main[0x1C] = 0
            c.a = c.y = 0
            c.p |= 0x43
            c.processorCycles += 280000
            self._rts()
        elif pc == self.COUT:
            self.text.append(c.a)
            self._rts()
        elif pc == self.MLI:
            lo = mem.main[0x100 + ((c.sp + 1) & 0xFF)]
            hi = mem.main[0x100 + ((c.sp + 2) & 0xFF)]
            ret = (hi << 8) + lo + 1
            call = mem.main[ret]
            ptr = mem.main[ret + 1] | (mem.main[ret + 2] << 8)
            self.halt = ("mli", call, tuple(mem.main[ptr:ptr + 7]))
        else:
            raise PlayerCrash("jumped to $%04X from $%04X" % (
                pc, self.last_pc))

    def step(self):
        """Executes one instruction or ROM call."""
        c = self.cpu
        pc = c.pc
        if not self.code_lo <= pc < self.code_hi:
            self._rom(pc)
            return
        mem = self.mem
        m = mem.aux if (mem.steer and 0x2000 <= pc < 0x4000) else mem.main
        op = m[pc]
        if op in UNDEFINED:
            raise PlayerCrash("undefined opcode $%02X at $%04X (from $%04X)" %
                              (op, pc, self.last_pc))
        if op == 0x00:
            self.halt = ("brk", pc)
            return
        c.last_op = op
        self.last_pc = pc
        if op == 0x9D or op == 0x99:
            # NMOS indexed stores read from the address before the carry.
            ix = c.x if op == 0x9D else c.y
            a = (m[pc + 2] << 8) | ((m[pc + 1] + ix) & 0xFF)
            if 0xC000 <= a < 0xD000:
                mem.io(a, None)
        c.step()

    def pending_read(self):
        """Address about to be read by an absolute-mode instruction."""
        c = self.cpu
        pc = c.pc
        if not self.code_lo <= pc < self.code_hi:
            return None
        m = self.mem.main
        if m[pc] in ABS_READS:
            return m[pc + 1] | (m[pc + 2] << 8)
        return None
