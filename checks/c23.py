"""C23: the simulator catches stray writes and stray jumps.

Every address x several values is written, every address is jumped to from
every region (by JMP and by RTS), every address is called from a program run
by the simulator itself, every edge of a region is crossed by programs in every
way; and the simulator's own start-up loads whole ROMs.
"""

import os
import subprocess
import types

from checks import c29
from vlib import env, report, sim

RTS, RTI, NOP, JSR, JMP = 0x60, 0x40, 0xEA, 0x20, 0x4C


def writes(item, part):
    _, lo, hi = item
    _, machine, memory, _ = sim.modules()
    a2 = sim.new()
    for addr in range(lo, hi):
        k = sim.region(addr)
        if k is not None and sim.REGIONS[k][3] is None:
            continue                       # I/O: C22
        a2.memory.write(addr, [0xA5])
        for v in (0, 1, 0x5A, 0x80, 0xFF):
            part.count(states=1, transitions=1)
            before = a2.memory[addr]
            try:
                a2.memory[addr] = v
                denied = False
            except memory.WriteProtectedException as e:
                denied = True
                if e.addr != addr or e.value != v:
                    part.violation(dict(writes=[addr, addr + 1]),
                                   "write of $%02X to $%04X reported as $%02X"
                                   " to $%04X" % (v, addr, e.value, e.addr))
                    return
            writable = k is None or sim.REGIONS[k][3]
            now = a2.memory[addr]
            if denied == bool(writable) or \
                    now != (v if writable else before):
                part.violation(
                    dict(writes=[addr, addr + 1]),
                    "write of $%02X to $%04X (%s) %s, it now holds $%02X" % (
                        v, addr, "memory" if k is None else sim.REGIONS[k][0],
                        "denied" if denied else "allowed", now))
                return
    part.count(traces=1)


def allowed(old, new, rts):
    return sim.region(old) == sim.region(new) or rts or new in sim.ENTRIES


def jumps(item, part):
    """The check made between two instructions, from one address to all."""
    _, old, rts = item
    _, _, memory, _ = sim.modules()
    a2 = sim.new()
    a2.memory.write(old, [RTS if rts else NOP])
    for new in range(65536):
        part.count(states=1, transitions=1)
        a2.cpu.pc = new
        try:
            a2.memory_manager.MaybeInterceptExecution(a2.cpu, old)
            ok = True
        except memory.UndefinedEntryPointException:
            ok = False
        if ok != allowed(old, new, rts):
            part.violation(
                dict(jumps=[old, rts]), "going from $%04X (%s) to $%04X %s" %
                (old, "RTS" if rts else "no RTS", new,
                 "passes" if ok else "is refused"))
            return
    part.count(traces=1)


def opcodes(item, part):
    """Every instruction as the last one before entering another region."""
    _, old = item
    _, _, memory, _ = sim.modules()
    a2 = sim.new()
    news = sorted(sim.ENTRIES) + [0x0000, 0x0200, 0x6000, 0xBFFF]
    for _, lo, hi, w in sim.REGIONS:
        if w is not None:
            news += [lo, (lo + hi) // 2, hi]
    for op in range(256):
        if op == RTI:
            continue                      # a return of another kind
        a2.memory.write(old, [op])
        for new in news:
            part.count(states=1, transitions=1)
            a2.cpu.pc = new
            try:
                a2.memory_manager.MaybeInterceptExecution(a2.cpu, old)
                ok = True
            except memory.UndefinedEntryPointException:
                ok = False
            if ok != allowed(old, new, op == RTS):
                part.violation(
                    dict(opcodes=[old]), "going from $%04X to $%04X by an "
                    "instruction $%02X %s" % (
                        old, new, op, "passes" if ok else "is refused"))
                return
    part.count(traces=1)


def calls(item, part):
    """A program that calls an address and stops, run by the simulator."""
    _, start, lo, hi = item
    _, machine, memory, _ = sim.modules()
    a2 = sim.new()
    a2.memory.write(start, [JSR, 0, 0, JMP, (start + 3) & 255, start >> 8])
    for target in range(lo, hi):
        if start <= target < start + 6:
            continue
        k = sim.region(target)
        if k is not None and sim.REGIONS[k][3] is None:
            continue
        if 0x01F0 <= target < 0x0200:
            continue                      # the stack itself
        old = a2.memory[target]
        a2.memory.write(target, [RTS])
        a2.memory.write(start + 1, [target & 255, target >> 8])
        a2.cpu.reset()
        a2.cpu.sp = 0xFF
        part.count(states=1, transitions=1)
        try:
            a2.Run(start, trace=target % 64 == 0)
            ok = True
        except memory.UndefinedEntryPointException:
            ok = False
        a2.memory.write(target, [old])
        if ok != allowed(start, target, False):
            part.violation(
                dict(calls=[start, target, target + 1]),
                "a call of $%04X from $%04X %s" % (
                    target, start, "is let through" if ok else "is refused"))
            return
        if ok and a2.cpu.pc != start + 3:
            part.violation(dict(calls=[start, target, target + 1]),
                           "the program stopped at $%04X" % a2.cpu.pc)
            return
    part.count(traces=1)


def startup(item, part):
    """The simulator's main program with stand-ins for its input files."""
    _, seed = item
    import apple2
    d = os.path.join(env.scratch(), "sim%d" % os.getpid())
    os.makedirs(os.path.join(d, "simulator"), exist_ok=True)
    os.makedirs(os.path.join(d, "ethernet", "ethernet"), exist_ok=True)
    # No zero anywhere, so that a byte left out shows.
    rom = bytes((i * seed + (i >> 8)) % 255 + 1 for i in range(32768))
    code = bytes((i * 3 + seed) % 255 + 1 for i in range(3000))
    for name, data in (("simulator/APPLE2E.ROM", rom), ("out.bin", b"x"),
                       ("ethernet/ethernet/ethernet.bin", code)):
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
    got = []
    saved = subprocess.run, apple2.AppleII.Run, os.getcwd()
    subprocess.run = lambda *a, **k: types.SimpleNamespace(returncode=0)
    apple2.AppleII.Run = lambda self, pc, trace=False: got.append((self, pc))
    os.chdir(d)
    try:
        import simulator
        simulator.main()
    finally:
        subprocess.run, apple2.AppleII.Run = saved[:2]
        os.chdir(saved[2])
    part.count(states=65536, transitions=1, traces=1)
    a2, pc = got[0]
    for addr in range(65536):
        want = None
        if 0xC600 <= addr <= 0xC6FF:
            want = rom[addr - 0xC000]
        elif addr >= 0xD000:
            want = rom[addr - 0x8000]
        elif pc <= addr < pc + len(code):
            want = code[addr - pc]
        if want is not None and a2.memory[addr] != want:
            part.violation(dict(startup=[seed]), "$%04X holds $%02X after "
                           "start-up, the image has $%02X" % (
                               addr, a2.memory[addr], want))
            return
    try:
        a2.memory[0xD000] = 0
        part.violation(dict(startup=[seed]), "ROM is writable after start-up")
    except Exception:
        pass


PARTS = dict(writes=writes, jumps=jumps, opcodes=opcodes, calls=calls,
             startup=startup, edges=c29.edges)


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    sim.modules()
    deep = chk.thorough
    items = [("startup", s) for s in (1, 7)]
    items += [("writes", lo, lo + 4096) for lo in range(0, 65536, 4096)]
    olds = {0x0200, 0x1FFF, 0x6000, 0x8000, 0xBFFF, 0xCF00, 0x03FF, 0x0800}
    for _, lo, hi, w in sim.REGIONS:
        if w is not None:
            olds |= {lo, hi} | ({lo + 1, (lo + hi) // 2} if deep else set())
    for old in sorted(olds):
        for rts in (False, True):
            items.append(("jumps", old, rts))
        items.append(("opcodes", old))
    items += [("edges", b) for b in c29.all_edges()]
    for start in (0x8000, 0x0300, 0x2100) + ((0x0100, 0xD100, 0x5000)
                                             if deep else ()):
        for lo in range(0, 65536, 8192):
            items.append(("calls", start, lo, lo + 8192))
    report.pmap(chk, work, items)
    chk.sample({"call": [0x8000, 0xFDED]})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all addresses written; all addresses entered from "
                          "%d addresses, and by all instructions" % len(olds))


def replay(case, part):
    sim.modules()
    for k, fn in PARTS.items():
        if k in case:
            fn((k,) + tuple(case[k]), part)
