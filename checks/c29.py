"""C29: the simulator runs a program as the processor does.

Programs are run by the simulator itself and once more by a bare 65C02 on
plain memory under the specified rules; both must make the same writes and the
same accesses to the I/O page, in order, and end in the same place with the
same registers and cycles, traced or not.  Every sequence of a few instructions
from an alphabet, every instruction under every state of the flags, and loops.
"""

import itertools

from py65.devices import mpu65c02

from vlib import env, report, sim  # noqa: F401

ORG, SUB, DATA = 0x0300, 0x0380, 0x1000
RTS = 0x60

# name: bytes; "?" stands for the address of the next instruction but one
ALPHABET = [
    ("LDA #$80", [0xA9, 0x80]),
    ("LDX #$02", [0xA2, 0x02]),
    ("INX", [0xE8]),
    ("DEX", [0xCA]),
    ("ADC #$7F", [0x69, 0x7F]),
    ("SEC", [0x38]),
    ("TAX", [0xAA]),
    ("STA $1000", [0x8D, 0x00, 0x10]),
    ("STA $1000,X", [0x9D, 0x00, 0x10]),
    ("INC $1000", [0xEE, 0x00, 0x10]),
    ("STA $FF", [0x85, 0xFF]),
    ("STA ($80),Y", [0x91, 0x80]),
    ("STZ $0400", [0x9C, 0x00, 0x04]),
    ("STA $2000", [0x8D, 0x00, 0x20]),
    ("STA $4000", [0x8D, 0x00, 0x40]),
    ("STA $D000", [0x8D, 0x00, 0xD0]),
    ("PHA", [0x48]),
    ("PLA", [0x68]),
    ("JSR SUB", [0x20, SUB & 255, SUB >> 8]),
    ("JSR $FDED", [0x20, 0xED, 0xFD]),
    ("JSR $FDF0", [0x20, 0xF0, 0xFD]),
    ("RTS", [RTS]),
    ("JMP $2000", [0x4C, 0x00, 0x20]),
    ("BEQ +1", [0xF0, 0x01]),
    ("BPL *", [0x10, 0xFE]),
    ("BNE -3", [0xD0, 0xFD]),
    ("BIT $C019", [0x2C, 0x19, 0xC0]),
    ("LDA $C050", [0xAD, 0x50, 0xC0]),
    ("STA $C057", [0x8D, 0x57, 0xC0]),
    ("STA $C030", [0x8D, 0x30, 0xC0]),
    ("INC $C030", [0xEE, 0x30, 0xC0]),
    ("STA $C095", [0x8D, 0x95, 0xC0]),
    ("LDA $C097", [0xAD, 0x97, 0xC0]),
    ("LDA $C095", [0xAD, 0x95, 0xC0]),
]
SELF = [0x4C, None, None]
LIMIT = 8000           # cycles after which a run is cut off


class Stop(Exception):
    """A run that the specification ends."""


class TooLong(Exception):
    pass


def io(a):
    return 0xC000 <= a <= 0xC0FF


class Watch:
    """The simulator's memory, and what the processor does to it."""

    def __init__(self, memory, cpu):
        self.memory = memory
        self.cpu = cpu
        self.log = []

    def __len__(self):
        return len(self.memory)

    def __getitem__(self, a):
        if isinstance(a, slice) or not io(a):
            if self.cpu.processorCycles > LIMIT:
                raise TooLong()
            return self.memory[a]
        self.log.append(("r", a, None))
        v = self.memory[a]
        self.log[-1] = ("r", a, v)
        return v

    def __setitem__(self, a, v):
        self.log.append(("w", a, v, False))
        self.memory[a] = v
        self.log[-1] = ("w", a, v, True)

    def __getattr__(self, name):
        return getattr(self.memory, name)


class Plain:
    """Memory of the bare processor; the I/O page answers as the real one."""

    def __init__(self, cells, log):
        self.cells = cells
        self.real = log
        self.log = []

    def __getitem__(self, a):
        if not io(a):
            return self.cells.get(a, 0)
        n = len(self.log)
        self.log.append(("r", a, None))
        if n >= len(self.real) or self.real[n][:2] != ("r", a):
            raise Stop("no such access")
        v = self.real[n][2]
        self.log[-1] = ("r", a, v)
        if v is None:
            raise Stop("refused")
        return v

    def __setitem__(self, a, v):
        self.log.append(("w", a, v, False))
        if io(a):
            n = len(self.log)
            if n > len(self.real):
                raise Stop("no such access")
            if self.real[n - 1] == self.log[-1]:
                raise Stop("refused")
        else:
            k = sim.region(a)
            if k is not None and not sim.REGIONS[k][3]:
                raise Stop("write denied")
            self.cells[a] = v
        self.log[-1] = ("w", a, v, True)


_m = None


def machine():
    global _m
    if _m is None:
        a2 = sim.new()
        w = Watch(a2.memory, a2.cpu)
        a2.cpu.memory = w
        _m = a2, w
    return _m


def state(cpu):
    return (cpu.pc, cpu.a, cpu.x, cpu.y, cpu.sp, cpu.p, cpu.processorCycles)


def start(cpu, regs):
    cpu.reset()
    cpu.a, cpu.x, cpu.y, cpu.p, cpu.sp = regs
    cpu.processorCycles = 0


def run_one(cells, regs, trace, part, org=ORG):
    """Returns what is wrong with one program, or None."""
    a2, w = machine()
    w.log = []
    for a, v in cells.items():
        a2.memory.write(a, [v])
    start(a2.cpu, regs)
    a2.cpu.pc = org
    error = None
    try:
        a2.Run(org, trace=trace)
    except (TooLong, AssertionError) as e:
        error = e
    except Exception as e:
        if report.interface_changed(e):
            raise
        error = e
    got = state(a2.cpu)
    log = w.log
    for e in log:
        if e[0] == "w" and not io(e[1]):
            a2.memory.write(e[1], [0])
    for a in cells:
        a2.memory.write(a, [0])

    mem = Plain(dict(cells), log)
    cpu = mpu65c02.MPU(memory=mem)
    start(cpu, regs)
    cpu.pc = old = org
    stopped = None
    try:
        while True:
            if cpu.processorCycles > LIMIT:
                raise Stop("cut off")
            if sim.region(old) != sim.region(cpu.pc) and \
                    mem[old] != RTS and cpu.pc not in sim.ENTRIES:
                raise Stop("undefined entry of $%04X" % cpu.pc)
            old = cpu.pc
            cpu.step()
            if cpu.pc == old:
                break
    except Stop as e:
        stopped = str(e)
    part.outcome("ends" if stopped is None else stopped.split(" of ")[0])
    if mem.log != log:
        n = next((i for i, (a, b) in enumerate(zip(mem.log, log)) if a != b),
                 min(len(log), len(mem.log)))

        def show(lg):
            if n >= len(lg):
                return "no more"
            k, a, v = lg[n][:3]
            return "%s $%04X %s%s" % (
                k, a, "" if v is None else "$%02X" % v,
                " refused" if lg[n][-1] in (None, False) else "")

        return "access %d: %s in the simulator, %s by the processor" % (
            n, show(log), show(mem.log))
    if (error is None) != (stopped is None):
        return "the simulator %s, the program %s" % (
            "went on" if error is None else "stopped with %r" % (error,),
            "ends at $%04X" % cpu.pc if stopped is None else
            "must stop: %s" % stopped)
    want = state(cpu)
    if got != want:
        return "ended with pc,a,x,y,sp,p,cycles = %s, the processor with %s" \
            % (got, want)
    return None


def assemble(seq):
    code = []
    for k in seq:
        code += ALPHABET[k][1]
    code += [0xEA, 0x4C, (ORG + len(code) + 1) & 255, (ORG + len(code)) >> 8]
    cells = {ORG + i: b for i, b in enumerate(code)}
    for i, b in enumerate([0xEE, DATA & 255, DATA >> 8, RTS]):
        cells[SUB + i] = b
    cells[0x80], cells[0x81] = 0x34, 0x12
    cells[0xFDED] = cells[0xFDF0] = cells[0x2000] = RTS
    # Where an RTS too many goes: on to the end.
    end = ORG + len(code) - 4
    for sp in (0xFC, 0xFD, 0xFE, 0xFF):
        cells[0x100 + sp] = (end >> 8) if sp % 2 else end & 255
    return cells


REGS = (0x5A, 0x01, 0x00, 0x30, 0xFB)


def sequences(item, part):
    _, first, n = item
    for rest in itertools.product(range(len(ALPHABET)), repeat=n - 1):
        seq = (first,) + rest
        cells = assemble(seq)
        for trace in (False, True):
            part.count(states=1, transitions=n, traces=1)
            text = run_one(cells, REGS, trace, part)
            if text:
                part.violation(dict(sequence=list(seq), trace=trace),
                               "%s%s: %s" % ("; ".join(
                                   ALPHABET[k][0] for k in seq),
                                   " (traced)" if trace else "", text))
                return


OPERANDS = ((0x00, 0x10), (0xFE, 0x00), (0xFF, 0xFF), (0x30, 0xC0),
            (0x00, 0x04), (0xF0, 0xFD))


def single(item, part):
    """One instruction, under every state of the flags."""
    _, op = item
    for lo, hi in OPERANDS:
        for flags in itertools.product((0, 1), repeat=4):
            p = 0x30 | flags[0] << 7 | flags[1] << 6 | flags[2] << 1 | flags[3]
            for regs in ((0x00, 0x01, 0x02, p, 0xFB),
                         (0xFF, 0x80, 0x00, p, 0x01)):
                for trace in (False, True):
                    cells = assemble(())
                    del cells[ORG + 1], cells[ORG + 2], cells[ORG + 3]
                    for i, b in enumerate((op, lo, hi, 0xEA, 0x4C,
                                           (ORG + 4) & 255, (ORG + 4) >> 8)):
                        cells[ORG + i] = b
                    part.count(states=1, transitions=1, traces=1)
                    text = run_one(cells, regs, trace, part)
                    if text:
                        part.violation(
                            dict(single=[op], trace=trace),
                            "instruction %02X %02X %02X%s: %s" % (
                                op, lo, hi, " (traced)" if trace else "",
                                text))
                        return


def loops(item, part):
    """Loops of every length, and loops inside loops."""
    _, inner, outer = item
    #   LDY #outer; l1: LDX #inner; l2: STA $C030; DEX; BNE l2; DEY; BNE l1
    code = [0xA0, outer, 0xA2, inner, 0x8D, 0x30, 0xC0, 0xCA, 0xD0, 0xFA,
            0x88, 0xD0, 0xF5]
    cells = assemble(())
    for i, b in enumerate(code + [0x4C, (ORG + len(code)) & 255, ORG >> 8]):
        cells[ORG + i] = b
    for trace in (False, True):
        part.count(states=1, transitions=inner * outer, traces=1)
        text = run_one(cells, REGS, trace, part)
        if text:
            part.violation(dict(loops=[inner, outer], trace=trace),
                           "loop of %d x %d%s: %s" % (
                               inner, outer, " (traced)" if trace else "",
                               text))


def edges(item, part):
    """Programs that go from one part of memory on to the next."""
    _, edge = item
    lo, hi = edge & 255, edge >> 8
    ways = [
        ("going on", [0xEA, 0xEA, 0xEA]),
        ("going on", [0xA9, 0x11, 0x8D, DATA & 255, DATA >> 8]),
        ("branching", [0x18, 0x90, 0x02, 0xEA, 0xEA]),
        ("branching", [0xEA, 0x80, 0x02, 0xEA, 0xEA]),
        ("branching", [0x38, 0xB0, 0x02, 0xEA, 0xEA]),
        ("jumping", [0xEA, 0x4C, lo, hi]),
        ("jumping", [0xEA, 0x6C, 0x84, 0x00]),
        ("jumping", [0xA2, 0x02, 0x7C, 0x82, 0x00]),
        ("calling", [0xEA, 0x20, lo, hi]),
        ("returning", [0xA9, (edge - 1) >> 8, 0x48, 0xA9,
                       (edge - 1) & 255, 0x48, 0x60]),
        ("branching back", None),
    ]
    for name, code in ways:
        for trace in (False, True):
            cells = {0x84: lo, 0x85: hi}
            if code is None:
                # From behind the edge to before it.
                org = edge
                cells.update({edge: 0x80, edge + 1: 0xFA})
                cells.update({edge - 4: 0xEA, edge - 3: 0x80,
                              edge - 2: 0xFE})
            else:
                org = edge - len(code)
                cells.update({org + i: b for i, b in enumerate(code)})
                cells.update({edge: 0xEA, edge + 1: 0x80, edge + 2: 0xFE})
            part.count(states=1, transitions=len(cells), traces=1)
            text = run_one(cells, (0x5A, 0x01, 0x00, 0x30, 0x80), trace, part,
                           org)
            if text:
                part.violation(dict(edges=[edge], trace=trace),
                               "%s to $%04X%s: %s" % (
                                   name, edge, " (traced)" if trace else "",
                                   text))
                return


def all_edges():
    res = []
    for b in range(0x100, 0x10000):
        if sim.region(b) != sim.region(b - 1) and not io(b) and not io(b - 1):
            res.append(b)
    return res


PARTS = dict(sequence=sequences, single=single, loops=loops, edges=edges)

# Those that do not go on by themselves (BRK, WAI, STP) are left out, and what
# the 65C02 does not define.
SKIP = {0x00, 0xCB, 0xDB}


def defined():
    return [op for op in range(256) if op not in SKIP and
            mpu65c02.MPU.disassemble[op][0] != "???"]


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    sim.modules()
    chk.assumptions += ["py65's 65C02 core, which the simulator is built on, "
                        "executes single instructions correctly"]
    depth = 4 if chk.thorough else 3
    items = []
    for n in range(1, depth + 1):
        items += [("sequence", k, n) for k in range(len(ALPHABET))]
    items += [("edges", b) for b in all_edges()]
    items += [("single", op) for op in defined()]
    items += [("loops", i, o) for i in (1, 2, 9, 10, 11, 20, 100)
              for o in (1, 2, 3)] + [("loops", 255, 2)]
    report.pmap(chk, work, items[::-1])
    chk.sample({"sequence": [a[0] for a in ALPHABET[:3]]})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all sequences of up to %d of %d instructions; all "
                          "%d instructions under all flags; each traced and "
                          "not" % (depth, len(ALPHABET), len(defined())))


def replay(case, part):
    sim.modules()
    if "sequence" in case:
        seq = case["sequence"]
        text = run_one(assemble(seq), REGS, case["trace"], part)
        if text:
            part.violation(case, text)
    elif "edges" in case:
        edges(("edges",) + tuple(case["edges"]), part)
    elif "single" in case:
        single(("single",) + tuple(case["single"]), part)
    else:
        loops(("loops",) + tuple(case["loops"]), part)
