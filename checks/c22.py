"""C22: the simulator's I/O page behaves as documented, or refuses.

Every access (read, or write of every value) to every I/O address in a fresh
machine, and every history of accesses up to a depth; status reads follow the
switches, switches do not influence each other, everything unknown traps.
"""

import itertools

from vlib import env, report, sim  # noqa: F401


def accesses(name):
    """(kind, address) pairs that work a switch or look at it."""
    off, on, st, rw = sim.SWITCHES[name]
    res = [("w", off), ("w", on), ("r", st)]
    if rw:
        res += [("r", off), ("r", on)]
    return res


class Model:
    def __init__(self):
        self.state = {n: False for n in sim.SWITCHES}
        self.by_addr = {}
        for n, (off, on, st, rw) in sim.SWITCHES.items():
            self.by_addr[off] = (n, False, rw)
            self.by_addr[on] = (n, True, rw)
            self.by_addr[st] = (n, None, None)

    def access(self, kind, addr):
        """'trap', 'refuse', ('status', bool) or 'ok'."""
        hit = self.by_addr.get(addr)
        if hit is None:
            if addr in (sim.TICK, sim.MODE, sim.DATA):
                return "ok"
            if addr in (sim.ADRH, sim.ADRL):
                return "ok" if kind == "w" else "trap"
            return "trap"
        name, to, rw = hit
        if to is None:
            return ("status", self.state[name]) if kind == "r" else "trap"
        if kind == "r" and not rw:
            return "trap"
        if name in sim.REFUSED:
            self.state[name] = None        # nothing said about its status
            return "refuse"
        self.state[name] = to
        return "ok"


def do(a2, kind, addr, value=0):
    """What the machine does: (outcome, value read)."""
    _, machine, _, _ = sim.modules()
    try:
        if kind == "r":
            return "ok", a2.memory[addr]
        a2.memory[addr] = value
        return "ok", None
    except machine.TrapException as e:
        if e.address != addr:
            return "trap elsewhere", None
        # A message that names one kind of access names the right one.
        text = str(e).lower()
        kinds = {k for k, words in (("r", ("read",)),
                                    ("w", ("wrote", "write", "writing")))
                 if any(w in text for w in words)}
        if kinds and kind not in kinds:
            return "a trap that says: %s" % e, None
        return "trap", None
    except NotImplementedError:
        return "refuse", None


def compare(hist, got, want):
    kind, addr = hist[-1][:2]
    if isinstance(want, tuple):
        out, val = got
        if out != "ok":
            return "%s of status $%04X: %s" % (kind, addr, out)
        if want[1] is not None and bool(val & 0x80) != want[1]:
            return "status $%04X reads $%02X, the switch is %s" % (
                addr, val, "on" if want[1] else "off")
        return None
    if got[0] != want:
        return "%s of $%04X: %s, expected %s" % (
            "read" if kind == "r" else "write", addr, got[0], want)
    return None


def play(hist):
    a2 = sim.new()
    m = Model()
    done = []
    for h in hist:
        done.append(h)
        bad = compare(done, do(a2, *h), m.access(h[0], h[1]))
        if bad:
            return "after %s: %s" % (
                ["%s$%04X" % (x[0], x[1]) for x in done[:-1]], bad)
    return None


def single(item, part):
    """All accesses to one range of I/O addresses."""
    _, lo, hi = item
    a2 = sim.new()
    for addr in range(lo, hi):
        for kind, values in (("r", (0,)), ("w", range(256))):
            for v in values:
                if addr in (sim.MODE, sim.DATA) and kind == "w":
                    continue          # C24
                m = Model()
                want = m.access(kind, addr)
                if isinstance(want, tuple):
                    continue          # histories
                got = do(a2, kind, addr, v)
                part.count(states=1, transitions=1)
                bad = compare([(kind, addr)], got, want)
                if bad:
                    part.violation(dict(hist=[[kind, addr, v]]),
                                   bad + " (value $%02X)" % v)
    part.count(traces=1)


def walk(item, part):
    """Every history of one switch, or of a set of them, by branching."""
    _, names, depth = item
    ops = [a for n in names for a in accesses(n)]
    seen = set()

    # The model's state is the switches' states; every edge of every reachable
    # state by every path up to the depth is taken on the real machine.
    for n in range(1, depth + 1):
        for hist in itertools.product(ops, repeat=n):
            if n < depth:
                continue
            bad = play(hist)
            part.count(transitions=n, traces=1)
            seen.add(hist[:-1])
            if bad:
                part.violation(dict(hist=[list(h) for h in hist]), bad)
                return
    part.count(states=len(seen))


def independent(item, part):
    """One long-lived machine: set up every combination of two switches,
    then look at all of them."""
    _, first = item
    names = [n for n in sim.SWITCHES if n not in sim.REFUSED]
    a2 = sim.new()
    m = Model()
    hist = []
    for second in names:
        for a in accesses(first):
            for b in accesses(second):
                for h in (a, b) + tuple(("r", sim.SWITCHES[x][2])
                                        for x in sim.SWITCHES):
                    hist.append(h)
                    bad = compare(hist, do(a2, *h), m.access(*h))
                    part.count(transitions=1)
                    if bad:
                        part.violation(dict(hist=[list(x) for x in hist]),
                                       bad)
                        return
                part.count(states=1)
    part.count(traces=1)


PARTS = dict(single=single, walk=walk, independent=independent)


def work(item, part):
    PARTS[item[0]](item, part)


def run(chk):
    sim.modules()
    deep = chk.thorough
    items = [("single", lo, lo + 16) for lo in range(0xC000, 0xC100, 16)]
    for n in sim.SWITCHES:
        if n in sim.REFUSED:
            items.append(("walk", (n,), 3))
            continue
        items.append(("independent", n))
        items.append(("walk", (n,), 5 if deep else 4))
    open_ = [n for n in sim.SWITCHES if n not in sim.REFUSED]
    for a, b in itertools.combinations(open_, 2):
        items.append(("walk", (a, b), 3 if deep else 2))
    report.pmap(chk, work, items)
    chk.sample([["w", 0xC00D], ["r", 0xC01F]])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all accesses to all 256 I/O addresses; histories "
                          "of %d accesses of each switch" % (5 if deep else 4))


def replay(case, part):
    sim.modules()
    bad = play([tuple(h) for h in case["hist"]])
    if bad:
        part.violation(case, bad)
