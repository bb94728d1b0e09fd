"""C24: the simulated Uthernet's pointer and data ports behave like a W5100.

Every pointer value x addressing mode x port operation through the Apple's
four I/O ports, and every history of port operations up to a depth over values
that reach the ends of the buffers; a reference keeps the pointer and memory.
"""

import itertools

from vlib import env, report, sim  # noqa: F401

# Registers the chip simulator just stores (network configuration).
PLAIN = (list(range(0x01, 0x13)) + [0x1A, 0x1B, 0x403, 0x404, 0x405] +
         list(range(0x40C, 0x412)) + [0x426, 0x427, 0x428, 0x429])


def is_plain(a):
    return 0x4000 <= a <= 0x7FFF or a in _plain


_plain = set(PLAIN)


class Ref:
    def __init__(self):
        self.ptr = 0
        self.auto = False
        self.mem = {}

    def step(self):
        if self.auto:
            if self.ptr in (0x5FFF, 0x7FFF):
                self.ptr -= 0x1FFF
            else:
                self.ptr += 1

    def op(self, kind, v):
        """Applies one port operation; returns the value read or None."""
        if kind == "high":
            self.ptr = (v & 0x7F) << 8 | self.ptr & 0xFF
        elif kind == "low":
            self.ptr = self.ptr & 0x7F00 | v
        elif kind == "mode":
            self.auto = bool(v & 2)
            self.mem[0] = v
        elif kind == "write":
            self.mem[self.ptr] = v
            if self.ptr == 0x401 and v in (1, 4):
                self.mem[0x403] = 0x13 if v == 1 else 0x17
            self.step()
        elif kind == "read":
            r = self.mem.get(self.ptr, 0)
            self.step()
            return r
        elif kind == "look":
            return self.mem.get(0, 0)


PORT = {"mode": sim.MODE, "high": sim.ADRH, "low": sim.ADRL,
        "write": sim.DATA, "read": sim.DATA}


def real(a2, kind, v):
    if kind == "read":
        return a2.memory[sim.DATA]
    if kind == "look":
        return a2.memory[sim.MODE]
    a2.memory[PORT[kind]] = v
    return None


_a2 = None


def cleared(used):
    """One machine per process, put back to where a new one is."""
    global _a2
    if _a2 is None:
        _a2 = sim.new()
    for port, v in ((sim.MODE, 0), (sim.ADRH, 0), (sim.ADRL, 0)):
        _a2.memory[port] = v
    for a in used:
        _a2.uthernet.memory.write(a, [0])
    return _a2


_used = set()


def play(hist, part=None, fresh=False):
    a2 = sim.new() if fresh else cleared(_used)
    ref = Ref()
    try:
        return follow(hist, part, a2, ref)
    finally:
        if not fresh:
            _used.clear()
            _used.update(ref.mem)
            _used.add(ref.ptr)
            _used.discard(0)


def follow(hist, part, a2, ref):
    for i, (kind, v) in enumerate(hist):
        if kind in ("read", "write") and not is_plain(ref.ptr) and \
                not (ref.ptr == 0x401 and kind == "write"):
            return None
        got, want = real(a2, kind, v), ref.op(kind, v)
        if part is not None:
            part.count(transitions=1)
        if got is not None and got != want:
            return "after %s: read $%02X, expected $%02X" % (
                hist[:i], got, want)
    # The whole buffer memory is what it should be.
    mem = a2.uthernet.memory
    for a in list(ref.mem) + [ref.ptr]:
        if is_plain(a) and mem[a] != ref.mem.get(a, 0):
            return "after %s: byte $%04X is $%02X, expected $%02X" % (
                hist, a, mem[a], ref.mem.get(a, 0))
    return None


def pointers(item, part):
    """Every pointer value: write, read back, see where the next one goes."""
    _, mode, lo, hi = item
    a2 = sim.new()
    mem = a2.uthernet.memory
    real(a2, "mode", mode)
    for p in range(lo, hi):
        if not is_plain(p):
            continue
        for order in ("hl", "lh"):
            for dirty in (0, 0x80):
                ref = Ref()
                ref.op("mode", mode)
                bad = None
                # Set the pointer, the pieces in either order.
                for c in order:
                    kind = "high" if c == "h" else "low"
                    v = (p >> 8 | dirty) if c == "h" else p & 255
                    real(a2, kind, v)
                    ref.op(kind, v)
                v1 = (p * 7 + 1) & 255
                nxt = Ref()
                nxt.ptr, nxt.auto = p, ref.auto
                nxt.step()
                p2 = nxt.ptr
                if not is_plain(p2):
                    continue
                real(a2, "write", v1)
                real(a2, "write", v1 ^ 0xFF)
                w1 = v1 if p2 != p else v1 ^ 0xFF
                if mem[p] != w1:
                    bad = "wrote $%02X, memory has $%02X" % (w1, mem[p])
                elif mem[p2] != v1 ^ 0xFF:
                    bad = "the second byte did not go to $%04X" % p2
                else:
                    for c in order:
                        real(a2, "high" if c == "h" else "low",
                             (p >> 8 | dirty) if c == "h" else p & 255)
                    r1 = real(a2, "read", 0)
                    r2 = real(a2, "read", 0)
                    if (r1, r2) != (w1, v1 ^ 0xFF):
                        bad = "read back $%02X $%02X" % (r1, r2)
                part.count(states=1, transitions=8)
                if bad:
                    part.violation(
                        dict(pointers=[mode, p, p + 1]),
                        "mode $%02X, pointer $%04X: %s" % (mode, p, bad))
                    return
    part.count(traces=1)


def modes(item, part):
    _, v = item
    a2 = sim.new()
    real(a2, "mode", v)
    got = a2.memory[sim.MODE]
    part.count(states=1, transitions=1, traces=1)
    if got != v:
        part.violation(dict(modes=[v]), "mode register reads $%02X after "
                       "$%02X was written" % (got, v))
        return
    # Looking at it changes nothing: neither it nor how the data port goes on.
    for p in (0x4000, 0x4123, 0x5FFF, 0x7FFF):
        hist = [("mode", v), ("high", p >> 8), ("low", p & 255),
                ("write", 0x5A), ("look", 0), ("write", 0xA5), ("look", 0),
                ("high", p >> 8), ("look", 0), ("low", p & 255), ("look", 0),
                ("read", 0), ("look", 0), ("read", 0), ("look", 0)]
        bad = play(hist, part, fresh=True)
        part.count(states=1, traces=1)
        if bad:
            part.violation(dict(hist=[list(h) for h in hist]), bad)
            return


def histories(item, part):
    _, ops, depth, first = item
    n = 0
    for tail in itertools.product(ops, repeat=depth - 1):
        hist = (first,) + tail
        bad = play(hist, part)
        n += 1
        if bad:
            bad = play(hist, fresh=True) or "(on a used machine) " + bad
            part.violation(dict(hist=[list(h) for h in hist]), bad)
            return
    part.count(states=n, traces=n)


def big_read(item, part):
    """A whole buffer written and read through the data port."""
    _, base, length, off = item
    a2 = sim.new()
    hist = [("mode", 3), ("high", base + off >> 8), ("low", (base + off) & 255)]
    hist += [("write", (i * 11 + 3) & 255) for i in range(length)]
    hist += [("high", base + off >> 8), ("low", (base + off) & 255)]
    hist += [("read", 0)] * length
    bad = play(hist, part)
    part.count(states=1, traces=1)
    if bad:
        part.violation(dict(big=[base, length, off]), bad[-300:])


PARTS = dict(pointers=pointers, modes=modes, histories=histories,
             big=big_read)


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    sim.modules()
    deep = chk.thorough
    chk.assumptions += ["registers the chip simulator says it does not "
                        "implement are left alone"]
    items = []
    for mode in (0, 1, 2, 3):
        for lo in range(0, 0x8000, 0x1000):
            items.append(("pointers", mode, lo, lo + 0x1000))
    for v in (0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83):
        items.append(("modes", v))
    ends = [("high", 0x5F), ("high", 0xFF), ("low", 0xFF), ("low", 0xFE),
            ("mode", 3), ("mode", 1), ("write", 0x5A), ("write", 0),
            ("read", 0)]
    sock = [("high", 4), ("low", 1), ("low", 3), ("mode", 3), ("mode", 0),
            ("write", 1), ("write", 4), ("read", 0)]
    depth = 7 if deep else 6
    for ops in (ends, sock):
        pre = ops
        for first in pre:
            items.append(("histories", tuple(ops), depth, first))
    for base in (0x4000, 0x6000):
        for length, off in ((8192, 0), (8193, 0), (3000, 7000), (2048, 8191),
                            (20000, 1)):
            items.append(("big", base, length, off))
    report.pmap(chk, work, items)
    chk.sample([["mode", 3], ["high", 0x7F], ["low", 0xFF], ["write", 1]])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all plain pointer values x 4 modes; histories of "
                          "%d port operations" % depth)


def replay(case, part):
    sim.modules()
    if "hist" in case:
        bad = play([tuple(h) for h in case["hist"]], fresh=True)
        if bad:
            part.violation(case, bad)
        return
    for k, fn in PARTS.items():
        if k in case:
            fn((k,) + tuple(case[k]), part)
