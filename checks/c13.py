"""C13: bookkeeping after any sequence of stores equals a fresh computation.

(a) every (offset, value, bank) store on several backgrounds, (b) every ordered
pair of stores to neighbouring bytes over a value alphabet, (c) every history
of the encoder's small world: the incrementally maintained bitmap must be what
one built from the resulting screen memory is.
"""

import itertools

import numpy as np

from vlib import enc, report

BACKGROUNDS = (0x00, 0x7F, 0x2A, 0xD5)
VALUES = (0x00, 0x7F, 0xFF, 0x80, 0x41, 0x2A)


def fresh(e_mode, pal, bm):
    return enc.bitmap(e_mode, pal, bm.main_memory.page_offset.tobytes(),
                      bm.aux_memory.page_offset.tobytes()
                      if e_mode == "DHGR" else None)


def differs(mode, pal, bm, want_main, want_aux):
    if bm.main_memory.page_offset.tobytes() != want_main or (
            mode == "DHGR" and
            bm.aux_memory.page_offset.tobytes() != want_aux):
        return "memory is not what was stored"
    f = fresh(mode, pal, bm)
    if not np.array_equal(f.packed, bm.packed):
        p, o = np.argwhere(f.packed != bm.packed)[0]
        return ("screen column pair %d of page %d is tracked as %s, the "
                "screen is %s" % (o, p + 32, bin(int(bm.packed[p, o])),
                                  bin(int(f.packed[p, o]))))
    return None


def planes(mode, bg):
    if mode == "DHGR":
        return [bytes([bg & 0x7F]) * 8192, bytes([(bg * 3) & 0x7F]) * 8192]
    return [bytes([bg]) * 8192]


def single(item, part):
    """All stores to one offset: 32 values at a time, one per page."""
    mode, pal, bg, lo, hi = item
    for off in range(lo, hi):
        for bank in ((0, 1) if mode == "DHGR" else (0,)):
            for base in range(0, 128 if mode == "DHGR" else 256, 32):
                ref = [bytearray(p) for p in planes(mode, bg)] + [bytearray()]
                bm = enc.bitmap(mode, pal, *planes(mode, bg))
                for page in range(32):
                    v = base + page
                    bm.apply(page, off, bool(bank), np.uint8(v))
                    ref[bank][page * 256 + off] = v
                part.count(states=32, transitions=32, traces=1)
                msg = differs(mode, pal, bm, bytes(ref[0]), bytes(ref[1]))
                if msg:
                    part.violation(dict(single=[mode, pal, bg, off, off + 1]),
                                   "stores of %d.. at offset %d: %s" % (
                                       base, off, msg))
                    return


def pairs(item, part):
    """All ordered sequences of stores to neighbouring bytes, one per page."""
    mode, pal, bg, off, depth = item
    vals = [v & 0x7F for v in VALUES] if mode == "DHGR" else VALUES
    vals = sorted(set(vals))
    sites = [(off + d, b) for d in (0, 1, 2) if off + d < 256
             for b in ((0, 1) if mode == "DHGR" else (0,))]
    seqs = list(itertools.product(itertools.product(sites, vals),
                                  repeat=depth))
    for i in range(0, len(seqs), 32):
        ref = [bytearray(p) for p in planes(mode, bg)] + [bytearray()]
        bm = enc.bitmap(mode, pal, *planes(mode, bg))
        for page, seq in enumerate(seqs[i:i + 32]):
            for (o, b), v in seq:
                bm.apply(page, o, bool(b), np.uint8(v))
                ref[b][page * 256 + o] = v
                part.count(transitions=1)
            part.count(states=1)
        part.count(traces=1)
        msg = differs(mode, pal, bm, bytes(ref[0]), bytes(ref[1]))
        if msg:
            part.violation(dict(pairs=list(item)), "stores %s..: %s" % (
                seqs[i], msg))
            return


def monitor(e, op, ti, hist):
    v = e.video
    msg = differs(e.mode, e.palette_id, v.pixelmap, bytes(e.mem[0]),
                  bytes(e.mem[1]))
    if msg:
        raise enc.Bad(msg + " after opcode %s" % (op,))


def run(chk):
    deep = chk.thorough
    enc.modules()
    items = []
    for mode, pal in (("HGR", 5), ("DHGR", 5)):
        for bg in BACKGROUNDS:
            for lo in range(0, 256, 32):
                items.append((mode, pal, bg, lo, lo + 32))
    report.pmap(chk, single, items)
    items = []
    for mode, pal in (("HGR", 5), ("DHGR", 0)):
        for bg in BACKGROUNDS if deep else (0x00, 0x7F):
            for off in ((0, 1, 2, 38, 39, 118, 119, 126, 127, 128, 252, 253,
                         254, 255) if deep else
                        (0, 1, 39, 119, 127, 253, 254, 255)):
                items.append((mode, pal, bg, off, 2))
        if deep:
            for off in (0, 1, 252):
                items.append((mode, pal, 0x7F, off, 3))
    report.pmap(chk, pairs, items)
    enc.run_small(chk, monitor, 3 if deep else 2)
    chk.sample({"mode": "HGR", "background": 0x7F, "offset": 39,
                "values": "0..255"})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all 256 offsets x all values x banks x 4 "
                          "backgrounds; all neighbouring store pairs over %d "
                          "values" % len(VALUES))


def replay(case, part):
    enc.modules()
    if "hist" in case:
        enc.replay_history(case, part, monitor)
    elif "single" in case:
        single(tuple(case["single"]), part)
    else:
        pairs(tuple(case["pairs"]), part)
