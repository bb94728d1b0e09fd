"""C16: the error measures the encoder steers by are the right ones.

For every byte value against every byte value, in both column parities, both
banks and with varied neighbours: the error between two screens, the error a
store would leave, and the gain of storing a value at every offset of a page
agree with a reference computed from the screen bytes.
"""

import numpy as np

from vlib import enc, refdiff, report

HOLES = np.array([not v for v in enc.VISIBLE]).reshape(32, 256)


def planes_of(case):
    """Screens in which byte pairs (k, k') meet, with varied neighbours."""
    mode, shift, mul = case["mode"], case["shift"], case["mul"]
    mask = 0x7F if mode == "DHGR" else 0xFF
    a = np.arange(8192)
    src = (a * mul + (a >> 8) * 5 + shift) & mask
    tgt = (a * (mul + 2) + (a >> 6) * 3 + shift * 7 + 1) & mask
    aux_s = (a * 5 + shift * 3 + (a >> 9)) & mask
    aux_t = (a * 11 + shift + 2) & mask
    return [x.astype(np.uint8).tobytes() for x in (src, aux_s, tgt, aux_t)]


def all_pairs_planes(mode, k, parity, nb):
    """Byte value s against target t for a block of pairs, neighbours nb."""
    mask = 0x7F if mode == "DHGR" else 0xFF
    n = mask + 1
    src = np.full(8192, nb[0], dtype=np.uint8)
    tgt = np.full(8192, nb[1], dtype=np.uint8)
    slots = np.arange(8192).reshape(-1, 4)[:, parity]   # spaced by four
    pairs = (np.arange(2048) + k * 2048) % (n * n)
    src[slots] = pairs // n
    tgt[slots] = pairs % n
    return src.tobytes(), tgt.tobytes()


def compare(case, mode, pal, metric, sm, sa, tm, ta, part, contents=()):
    src = enc.bitmap(mode, pal, sm, sa)
    tgt = enc.bitmap(mode, pal, tm, ta)
    rs = [refdiff.grid(sm), refdiff.grid(sa)]
    rt = [refdiff.grid(tm), refdiff.grid(ta)]
    for bank in ((0, 1) if mode == "DHGR" else (0,)):
        want = metric.diff(rs, rt, bank)
        got = np.asarray(tgt.diff_weights(src, bool(bank))).astype(np.int64)
        part.count(states=8192, transitions=1)
        if not np.array_equal(got, want):
            p, o = np.argwhere(got != want)[0]
            part.violation(case, "error of page %d offset %d (bank %d) is %d, "
                           "should be %d" % (p + 32, o, bank, got[p, o],
                                             want[p, o]))
            return
        for c in contents:
            left = metric.error_with(rt, c, bank)
            delta_page = enc.method(tgt, "compute_delta_page", 4)
            pair_difference = enc.method(tgt, "byte_pair_difference", 3)
            for page in case.get("pages", (0, 5, 31)):
                if not delta_page:
                    break
                got = np.asarray(delta_page(
                    page, np.uint8(c), want[page].astype(np.int32),
                    bool(bank))).astype(np.int64).reshape(-1)
                w = left[page] - want[page]
                part.count(transitions=1, states=256)
                if not np.array_equal(got, w):
                    o = np.argwhere(got != w)[0][0]
                    part.violation(
                        case, "gain of storing $%02X at page %d offset %d "
                        "(bank %d) is %d, should be %d" % (
                            c, page + 32, o, bank, got[o], w[o]))
                    return
                for o in range(c % 7, 256, 7):
                    if not pair_difference:
                        break
                    off = tgt.byte_offset(o, bool(bank))
                    d = int(pair_difference(
                        off, tgt.packed[page, o // 2], np.uint8(c)))
                    if d != left[page, o]:
                        part.violation(
                            case, "error of storing $%02X at page %d offset "
                            "%d (bank %d) is %d, should be %d" % (
                                c, page + 32, o, bank, d, left[page, o]))
                        return
    part.count(traces=1)


_metric = {}


def metric(mode, pal):
    if (mode, pal) not in _metric:
        enc.load(mode, pal)
        _metric[mode, pal] = refdiff.Metric(mode, pal)
    return _metric[mode, pal]


def work(cases, part):
    for case in cases:
        mode, pal = case["mode"], case["palette"]
        m = metric(mode, pal)
        if case["kind"] == "pairs":
            sm, tm = all_pairs_planes(mode, case["k"], case["parity"],
                                      case["nb"])
            sa = ta = bytes([case["nb"][0] & 0x7F]) * 8192
            if mode == "DHGR" and case.get("swap"):
                sm, tm, sa, ta = sa, ta, sm, tm
            compare(case, mode, pal, m, sm, sa, tm, ta, part)
        else:
            sm, sa, tm, ta = planes_of(case)
            compare(case, mode, pal, m, sm, sa, tm, ta, part,
                    case["contents"])
        if part.nviol:
            return


def run(chk):
    deep = chk.thorough
    chk.assumptions += ["edit distance tables as built from the current tree "
                        "(C17)"]
    cases = []
    configs = [("HGR", 5), ("DHGR", 0), ("DHGR", 5), ("HGR", 0)]
    for mode, pal in configs:
        metric(mode, pal)
        n = 128 if mode == "DHGR" else 256
        nbs = ((0, 0), (0x7F, 0), (0x2A, 0xD5), (0x60, 0x83)) if deep else \
            ((0, 0), (0x6A, 0xD5))
        for nb in nbs:
            if mode == "DHGR":
                nb = (nb[0] & 0x7F, nb[1] & 0x7F)
            for parity in range(4):
                for k in range(n * n // 2048):
                    cases.append(dict(kind="pairs", mode=mode, palette=pal,
                                      k=k, parity=parity, nb=nb))
                    if mode == "DHGR":
                        cases.append(dict(cases[-1], swap=True))
        for shift in range(24 if deep else 4):
            for c in range(0, n, 8):
                cases.append(dict(
                    kind="screen", mode=mode, palette=pal, shift=shift * 5,
                    mul=3 + 2 * (shift % 5),
                    contents=list(range(c, c + 8)),
                    pages=[shift % 32, 31]))
    chunk = [cases[i::64] for i in range(64)]
    report.pmap(chk, work, chunk)
    chk.sample(cases[3])
    chk.sample(cases[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all byte value pairs x 4 column positions x %d "
                          "neighbour settings; all contents" % len(nbs))


def replay(case, part):
    work([case], part)
