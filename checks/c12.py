"""C12: every opcode is spent on the visible error it can best reduce.

Small-world histories and busy images; a reference computed from the screen
bytes and the opcodes alone follows which errors are pending.  While any is,
the encoder must not idle; the first store of an opcode repairs one pending
byte exactly; the others go to the pending bytes of that page that this value
improves most, four distinct ones if there are that many.
"""

import numpy as np

from vlib import enc, refdiff, report

HOLES = np.array([not v for v in enc.VISIBLE]).reshape(32, 256)


class Follow:
    """Reference of what is pending in one bank, from opcodes only."""

    def __init__(self, metric, planes_of):
        self.metric = metric
        self.planes_of = planes_of

    def start(self, e, ti):
        """Called before the first opcode of an encoding."""
        bank = e.bank
        e.tgt = [refdiff.grid(p) for p in self.planes_of(ti)]
        src = [refdiff.grid(m) for m in e.mem]
        d = self.metric.diff(src, e.tgt, bank)
        d[HOLES] = 0
        pend = e.pending[bank]
        pend[d == 0] = 0
        pend += d
        e.err = d.copy()
        # the most this byte was ever pending with during this encoding: what
        # it may still be queued under after a store of another opcode
        # reduced it
        e.rank = pend.copy()

    def check(self, e, op, before):
        page, content, offs = op
        bank = e.bank
        pend = e.pending[bank]
        p = page - 32
        if not pend.any():
            if any(before[(p << 8) + x] != content for x in offs):
                raise enc.Bad("nothing is pending but opcode %s changes the "
                              "screen" % (op,))
            return "idle"
        x0 = offs[0]
        if pend[p, x0] == 0:
            raise enc.Bad("%d errors pending, opcode %s starts with a byte "
                          "that has none" % ((pend > 0).sum(), op))
        if content != e.tgt[bank][p, x0]:
            raise enc.Bad("opcode %s does not repair its first byte, which "
                          "should be $%02X" % (op, e.tgt[bank][p, x0]))
        if e.rank[p, x0] < pend.max():
            raise enc.Bad("opcode %s repairs an error of at most %d while one "
                          "of %d is pending" % (op, e.rank[p, x0], pend.max()))
        pend[p, x0] = 0
        e.err[p, x0] = 0
        left = self.metric.error_with(e.tgt, content, bank)[p]
        gain = e.err[p] - left
        cand = [o for o in range(256) if gain[o] > 0 and pend[p, o] > 0]
        rest = []
        for x in offs[1:]:
            if x != x0 and x not in rest:
                rest.append(x)
        if len(rest) != min(3, len(cand)):
            raise enc.Bad("opcode %s stores to %d bytes although its value "
                          "would improve %d" % (op, 1 + len(rest),
                                                1 + len(cand)))
        bad = [x for x in rest if x not in cand]
        if bad:
            raise enc.Bad("opcode %s makes byte %d worse (%d to %d)" % (
                op, bad[0], e.err[p, bad[0]], left[bad[0]]))
        got = sorted((int(gain[x]) for x in rest), reverse=True)
        want = sorted((int(gain[o]) for o in cand), reverse=True)[:len(rest)]
        if got != want:
            raise enc.Bad("opcode %s gains %s, stores gaining %s exist" % (
                op, got, want))
        for x in rest:
            pend[p, x] = left[x]
            e.rank[p, x] = max(e.rank[p, x], left[x])
        return "useful"


class Tracked(enc.Encoder):
    """An encoder with the reference's books."""

    def __init__(self, mode, pal, follow):
        super().__init__(mode, pal)
        self.pending = [np.zeros((32, 256), dtype=np.int64) for _ in (0, 1)]
        self.follow = follow
        self.tgt = self.err = self.rank = None

    def clone(self):
        e = super().clone()
        e.__class__ = Tracked
        e.pending = [p.copy() for p in self.pending]
        e.follow = self.follow
        return e

    def go(self, targets, ti, bank):
        self.start(targets[ti], bank)
        self.follow.start(self, ti)

    def checked_op(self, part):
        before = bytes(self.mem[self.bank])
        op = self.op()
        part.outcome(self.follow.check(self, op, before))
        part.count(transitions=1)
        return op


def small_planes(mode):
    res = []
    for _, planes in enc.small(mode):
        p = [enc.image(c) for c in planes]
        res.append((p + [bytes(8192)])[:2])
    return res


def histories(item, part):
    mode, pal, first, depth = item
    planes = small_planes(mode)
    targets = enc.small_targets(mode, pal)
    follow = Follow(refdiff.Metric(mode, pal), lambda ti: planes[ti])
    seen = {}           # state -> lowest level at which it was expanded

    def visit(e, hist, level):
        for ti in ([first] if level == 0 else range(len(targets))):
            for bank in e.banks():
                f = e.clone()
                enc.Dice().install()
                f.go(targets, ti, bank)
                idle = n = 0
                while idle < 3 and n < 24:
                    n += 1
                    h = hist + [[ti, bank, n]]
                    try:
                        op = f.checked_op(part)
                    except enc.Bad as err:
                        part.violation(dict(mode=mode, palette=pal, hist=h),
                                       str(err))
                        return
                    idle += op[0] == 32 and op[2] == (0, 0, 0, 0)
                    part.traces += 1
                    k = hash(f.key())
                    if k not in seen:
                        part.states += 1
                    elif seen[k] <= level:
                        continue
                    seen[k] = level
                    if level + 1 < depth:
                        visit(f, h, level + 1)
                        if part.nviol > 4:
                            return

    visit(Tracked(mode, pal, follow), [], 0)


def busy_planes(mode, seed):
    few = [0x00, 0x7F, 0x2A, 0x55]
    mask = 0x7F if mode == "DHGR" else 0xFF
    return [(enc.noise(seed, mask), enc.noise(seed + 1, mask)),
            (enc.noise(seed + 2, values=few), enc.noise(seed + 3, values=few)),
            (enc.image({}, 0x7F), enc.image({}, 0x33)),
            (enc.noise(seed + 4, values=[0x11, 0x22, 0x44, 0x08, 0]),
             enc.noise(seed + 5, mask))]


def busy(case, part):
    mode, pal, seed = case["mode"], case["palette"], case["seed"]
    enc.Lcg(seed).install()
    planes = busy_planes(mode, seed)
    targets = [enc.bitmap(mode, pal, *(p if mode == "DHGR" else p[:1]))
               for p in planes]
    follow = Follow(refdiff.Metric(mode, pal), lambda ti: planes[ti])
    e = Tracked(mode, pal, follow)
    k = 0
    for seg in range(case["segments"]):
        if case.get("still"):
            e.go(targets, seg // 2 % 2, seg & 1 if mode == "DHGR" else 0)
        else:
            e.go(targets, seg // 2 % 4, seg & 1 if mode == "DHGR" else 0)
        for _ in range(case["ops"]):
            k += 1
            try:
                e.checked_op(part)
            except enc.Bad as err:
                part.violation(case, "opcode %d: %s" % (k, err))
                return
            part.count(states=1)
    part.count(traces=1)


def run(chk):
    deep = chk.thorough
    chk.assumptions += ["edit distance tables as built from the current tree "
                        "(C17)"]
    items, cases = [], []
    for mode, pal in (("HGR", 5), ("DHGR", 0)):
        enc.load(mode, pal)
        for ti in range(len(enc.small(mode))):
            items.append((mode, pal, ti, 3 if deep else 2))
        # an encoding cut off after one opcode, over and over: what is pending
        # piles up (a minute and a half of video at 30 frames per second)
        cases.append(dict(mode=mode, palette=pal, seed=99, ops=1,
                          segments=12000 if deep else 700, still=True))
        for seed in range(1, 5):
            cases.append(dict(mode=mode, palette=pal, seed=seed * 10,
                              segments=8, ops=1200 if deep else 60))
    report.pmap(chk, histories, items)
    report.pmap(chk, busy, cases)
    chk.sample(cases[0])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all histories of %d encodings of %d/%d images" % (
        3 if deep else 2, len(enc.small("HGR")), len(enc.small("DHGR")))


def replay(case, part):
    mode, pal = case["mode"], case["palette"]
    enc.load(mode, pal)
    if "hist" not in case:
        busy(case, part)
        return
    planes = small_planes(mode)
    targets = enc.small_targets(mode, pal)
    e = Tracked(mode, pal, Follow(refdiff.Metric(mode, pal),
                                  lambda ti: planes[ti]))
    for ti, bank, n in case["hist"]:
        e = e.clone()
        enc.Dice().install()
        e.go(targets, ti, bank)
        for _ in range(n):
            try:
                e.checked_op(part)
            except enc.Bad as err:
                part.violation(case, str(err))
                return
