"""C14: the transcoder's picture of the screen is the hardware's.

Exhaustive: every neighbourhood value of every byte position (2^14 x 2 hi-res,
2^13 x 4 double hi-res) is turned into dots and colours by the real code and
by an independent model of the video hardware; every pair/triple of screen
bytes over the full byte range is packed and compared likewise.
"""

import numpy as np

from vlib import enc, render, report

# Byte patterns with a documented colour (Apple IIe Technical Reference, and
# "Understanding the Apple IIe"): (mode, aux even, main even, aux odd,
# main odd, colour).  Hi-res uses main only.
SOLID = [
    ("HGR", None, 0x55, None, 0x2A, "VIOLET"),
    ("HGR", None, 0x2A, None, 0x55, "GREEN"),
    ("HGR", None, 0xD5, None, 0xAA, "MED_BLUE"),
    ("HGR", None, 0xAA, None, 0xD5, "ORANGE"),
    ("HGR", None, 0x7F, None, 0x7F, "WHITE"),
    ("HGR", None, 0xFF, None, 0xFF, "WHITE"),
    ("HGR", None, 0x80, None, 0x80, "BLACK"),
    ("DHGR", 0x08, 0x11, 0x22, 0x44, "MAGENTA"),
    ("DHGR", 0x44, 0x08, 0x11, 0x22, "BROWN"),
    ("DHGR", 0x4C, 0x19, 0x33, 0x66, "ORANGE"),
    ("DHGR", 0x22, 0x44, 0x08, 0x11, "DARK_GREEN"),
    ("DHGR", 0x2A, 0x55, 0x2A, 0x55, "GREY1"),
    ("DHGR", 0x66, 0x4C, 0x19, 0x33, "GREEN"),
    ("DHGR", 0x6E, 0x5D, 0x3B, 0x77, "YELLOW"),
    ("DHGR", 0x11, 0x22, 0x44, 0x08, "DARK_BLUE"),
    ("DHGR", 0x19, 0x33, 0x66, 0x4C, "VIOLET"),
    ("DHGR", 0x55, 0x2A, 0x55, 0x2A, "GREY2"),
    ("DHGR", 0x5D, 0x3B, 0x77, 0x6E, "PINK"),
    ("DHGR", 0x33, 0x66, 0x4C, 0x19, "MED_BLUE"),
    ("DHGR", 0x3B, 0x77, 0x6E, 0x5D, "LIGHT_BLUE"),
    ("DHGR", 0x77, 0x6E, 0x5D, 0x3B, "AQUA"),
    ("DHGR", 0x7F, 0x7F, 0x7F, 0x7F, "WHITE"),
]


def hardware_dots(mode, v, o):
    """Dots of neighbourhood v of byte position o, as the hardware draws.

    Starts three dots before the byte.  Only as many dots as v determines.
    """
    if mode == "DHGR":
        return [v >> k & 1 for k in range(13)]
    prev = (v & 3) << 5 | (v >> 2 & 1) << 7
    if o == 0:
        own = v >> 3 & 0xFF
        nxt = (v >> 11 & 1) << 7 | v >> 12 & 3
    else:
        own = (v >> 4 & 0x7F) | (v >> 3 & 1) << 7
        nxt = (v >> 11 & 1) << 7 | v >> 12 & 3
    return render.hgr_dots([prev, own, nxt])[11:11 + 21]


def judge(mode, lo, hi, part):
    screen = enc.modules()[0]
    import colours
    cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
    nominal = colours.HGRColours if mode == "HGR" else colours.DHGRColours
    names = render.HGR_NAMES if mode == "HGR" else render.DHGR_NAMES
    # Display position of the first dot, three before the byte itself.
    starts = (-3, 11) if mode == "HGR" else (-3, 4, 11, 18)
    ncol = int(cls.MASKED_DOTS)
    if ncol != (18 if mode == "HGR" else 10):
        part.violation(dict(mode=mode), "%d coloured dots" % ncol)
        return
    for o, start in enumerate(starts):
        for v in range(lo, hi):
            dots = hardware_dots(mode, v, o)
            got = int(cls.to_dots(v, byte_offset=o))
            part.count(states=1, transitions=1)
            want = sum(d << i for i, d in enumerate(dots))
            if got != want:
                part.violation(
                    dict(mode=mode, lo=v, hi=v + 1),
                    "neighbourhood %s at position %d shows dots %s, the "
                    "hardware %s" % (bin(v), o, bin(got), bin(want)))
                return
            wc = render.colours(dots, start)[:ncol]
            gc = colours.dots_to_nominal_colour_pixels(
                cls.MASKED_DOTS, got, nominal, init_phase=cls.PHASES[o])
            gv = colours.dots_to_nominal_colour_pixel_values(
                cls.MASKED_DOTS, got, nominal, init_phase=cls.PHASES[o])
            if [c.name for c in gc] != [names[c] for c in wc] or \
                    [c.value for c in gc] != list(gv):
                part.violation(
                    dict(mode=mode, lo=v, hi=v + 1),
                    "neighbourhood %s at position %d has colours %s, should "
                    "be %s" % (bin(v), o, [c.name for c in gc],
                               [names[c] for c in wc]))
                return
    part.count(traces=1)


def packed_neighbourhoods(mode, case, part):
    """Screen bytes -> neighbourhoods, over all triples of a value block."""
    from vlib import refdiff
    a = np.arange(8192)
    mask = 0x7F if mode == "DHGR" else 0xFF
    k = case["k"]
    mem = [((a * (2 * i + 3) + (a >> 8) * (k * 2 + i + 1) + k * 29) & mask)
           .astype(np.uint8).tobytes() for i in range(2)]
    bm = enc.bitmap(mode, 5, *(mem if mode == "DHGR" else mem[:1]))
    f = enc.method(bm, "mask_and_shift_data", 2)
    if f is None:
        return
    for bank in ((0, 1) if mode == "DHGR" else (0,)):
        want = refdiff.neighbourhood(mode, refdiff.grid(mem[0]),
                                     refdiff.grid(mem[1]), bank)
        for parity in (0, 1):
            o = bm.byte_offset(parity, bool(bank))
            got = np.asarray(f(bm.packed, o)).astype(np.int64)
            part.count(states=got.size, transitions=1)
            if not np.array_equal(got, want[:, parity::2]):
                p, x = np.argwhere(got != want[:, parity::2])[0]
                part.violation(
                    case, "byte %d of page %d is seen as %s, should be %s" % (
                        2 * x + parity, p + 32, bin(got[p, x]),
                        bin(want[p, 2 * x + parity])))
                return
    part.count(traces=1)


def solid(part):
    """Documented solid colours survive the whole way to colour names."""
    screen = enc.modules()[0]
    import colours
    for mode, ae, me, ao, mo, name in SOLID:
        cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
        nominal = colours.HGRColours if mode == "HGR" else colours.DHGRColours
        planes = [bytes([me, mo]) * 4096]
        if mode == "DHGR":
            planes.append(bytes([ae, ao]) * 4096)
        bm = enc.bitmap(mode, 5, *planes)
        for bank in ((0, 1) if mode == "DHGR" else (0,)):
            for parity in (0, 1):
                o = bm.byte_offset(parity, bool(bank))
                v = int(cls.mask_and_shift_data(bm.packed[3, 20], o))
                px = colours.dots_to_nominal_colour_pixels(
                    cls.MASKED_DOTS, cls.to_dots(v, byte_offset=o), nominal,
                    init_phase=cls.PHASES[o])
                part.count(states=1, transitions=1)
                inner = px[3:] if mode == "HGR" else px
                if {c.name for c in inner} != {name}:
                    part.violation(
                        dict(solid=name, mode=mode),
                        "%s bytes %02X %02X show %s, documented as %s" % (
                            mode, me, mo, sorted({c.name for c in inner}),
                            name))
                    return
    part.count(traces=1)


def work(item, part):
    if item[0] == "solid":
        solid(part)
    elif item[0] == "packed":
        packed_neighbourhoods(item[1], dict(packed=item[1], k=item[2]), part)
    else:
        judge(item[1], item[2], item[3], part)


def rotations(part):
    import colours
    for v in range(16):
        for n in range(0, 9):
            b = [v >> i & 1 for i in range(4)]
            left = sum(b[(i - n) % 4] << i for i in range(4))
            right = sum(b[(i + n) % 4] << i for i in range(4))
            part.count(states=1, transitions=2)
            if colours.rol(v, n) != left or colours.ror(v, n) != right:
                part.violation(dict(rotate=v, n=n), "rotation of %s by %d" % (
                    bin(v), n))
                return


def run(chk):
    enc.modules()
    items = [("solid",)]
    for k in range(256 if chk.thorough else 32):
        items += [("packed", "HGR", k), ("packed", "DHGR", k)]
    for lo in range(0, 1 << 14, 1024):
        items.append(("dots", "HGR", lo, lo + 1024))
    for lo in range(0, 1 << 13, 1024):
        items.append(("dots", "DHGR", lo, lo + 1024))
    report.pmap(chk, work, items)
    p = report.Part()
    rotations(p)
    chk.merge(p.result())
    chk.sample({"mode": "HGR", "neighbourhood": "0b10000000000011",
                "dots": hardware_dots("HGR", 0b10000000000011, 0)})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all 2*2^14 + 4*2^13 neighbourhood values"


def replay(case, part):
    enc.modules()
    if "solid" in case:
        solid(part)
    elif "packed" in case:
        packed_neighbourhoods(case["packed"], case, part)
    elif "rotate" in case:
        rotations(part)
    else:
        judge(case["mode"], case["lo"], case["hi"], part)
