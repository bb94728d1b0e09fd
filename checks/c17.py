"""C17: edit distance tables say how different two pictures look.

Exhaustive at reduced width: the real generator, file format and loader on
bitmap classes with few bits, against an independent distance; every palette
pair of colours against an independent CIEDE2000; every pair of short pixel
strings; every order of asking for four tables.  At full width: the table the
encoder uses is compared entry by entry (DHGR) or on a fixed sample.
"""

import itertools
import math
import os

import numpy as np

from vlib import enc, env, refdiff, render, report, tables  # noqa: F401


# --- reference ------------------------------------------------------------

def lab(rgb):
    """sRGB (0..1) to CIE L*a*b*, D65."""
    lin = [c / 12.92 if c <= 0.04045 else ((c + 0.055) / 1.055) ** 2.4
           for c in rgb]
    m = ((0.4124564, 0.3575761, 0.1804375), (0.2126729, 0.7151522, 0.0721750),
         (0.0193339, 0.1191920, 0.9503041))
    xyz = [sum(a * b for a, b in zip(row, lin)) for row in m]
    white = (0.95047, 1.0, 1.08883)

    def f(t):
        return t ** (1 / 3) if t > 216 / 24389 else \
            (24389 / 27 * t + 16) / 116

    x, y, z = (f(a / w) for a, w in zip(xyz, white))
    return 116 * y - 16, 500 * (x - y), 200 * (y - z)


def ciede2000(p, q):
    l1, a1, b1 = p
    l2, a2, b2 = q
    cm = (math.hypot(a1, b1) + math.hypot(a2, b2)) / 2
    g = 0.5 * (1 - math.sqrt(cm ** 7 / (cm ** 7 + 25.0 ** 7)))
    a1, a2 = a1 * (1 + g), a2 * (1 + g)
    c1, c2 = math.hypot(a1, b1), math.hypot(a2, b2)
    h1 = math.degrees(math.atan2(b1, a1)) % 360 if c1 else 0
    h2 = math.degrees(math.atan2(b2, a2)) % 360 if c2 else 0
    dl, dc = l2 - l1, c2 - c1
    if c1 * c2 == 0:
        dh = 0
    else:
        dh = h2 - h1
        if dh > 180:
            dh -= 360
        elif dh < -180:
            dh += 360
    dhh = 2 * math.sqrt(c1 * c2) * math.sin(math.radians(dh / 2))
    lm, cm = (l1 + l2) / 2, (c1 + c2) / 2
    if c1 * c2 == 0:
        hm = h1 + h2
    elif abs(h1 - h2) <= 180:
        hm = (h1 + h2) / 2
    elif h1 + h2 < 360:
        hm = (h1 + h2 + 360) / 2
    else:
        hm = (h1 + h2 - 360) / 2
    rad = math.radians
    t = (1 - 0.17 * math.cos(rad(hm - 30)) + 0.24 * math.cos(rad(2 * hm)) +
         0.32 * math.cos(rad(3 * hm + 6)) - 0.20 * math.cos(rad(4 * hm - 63)))
    rt = (-2 * math.sqrt(cm ** 7 / (cm ** 7 + 25.0 ** 7)) *
          math.sin(rad(60 * math.exp(-((hm - 275) / 25) ** 2))))
    sl = 1 + 0.015 * (lm - 50) ** 2 / math.sqrt(20 + (lm - 50) ** 2)
    sc, sh = 1 + 0.045 * cm, 1 + 0.015 * cm * t
    return math.sqrt((dl / sl) ** 2 + (dc / sc) ** 2 + (dhh / sh) ** 2 +
                     rt * (dc / sc) * (dhh / sh))


def distance(a, b, cost):
    """Cheapest way to turn a into b by recolouring single pixels and
    swapping neighbours (cost 1); a, b of equal length."""
    n = len(a)
    d = [0] * (n + 1)
    for i in range(1, n + 1):
        d[i] = d[i - 1] + (cost[a[i - 1]][b[i - 1]] if a[i - 1] != b[i - 1]
                           else 0)
        if i > 1 and a[i - 1] == b[i - 2] and a[i - 2] == b[i - 1]:
            d[i] = min(d[i], d[i - 2] + 1)
    return d[n]


def close(got, want):
    """Costs are whole numbers and the white point used may differ a bit."""
    return abs(got - want) <= 2 + want / 40


def cost_matrix(pal):
    import make_data_tables as mdt
    edp = mdt.compute_substitute_costs(pal)
    return [[int(edp.substitute_costs[ord(a), ord(b)])
             for b in mdt.PIXEL_CHARS] for a in mdt.PIXEL_CHARS]


# --- parts ----------------------------------------------------------------

# The colours of bmp2dhr's palettes 5 and 0, from its source.
BMP2DHR = {
    5: dict(BLACK=(0, 0, 0), MAGENTA=(148, 12, 125), BROWN=(99, 77, 0),
            ORANGE=(249, 86, 29), DARK_GREEN=(51, 111, 0),
            GREY1=(126, 126, 126), GREEN=(67, 200, 0), YELLOW=(221, 206, 23),
            DARK_BLUE=(32, 54, 212), VIOLET=(188, 55, 255),
            GREY2=(126, 126, 126), PINK=(255, 129, 236),
            MED_BLUE=(7, 168, 225), LIGHT_BLUE=(158, 172, 255),
            AQUA=(93, 248, 133), WHITE=(255, 255, 255)),
    0: dict(BLACK=(0, 0, 0), MAGENTA=(221, 0, 51), BROWN=(136, 85, 34),
            ORANGE=(255, 102, 0), DARK_GREEN=(0, 119, 0), GREY1=(85, 85, 85),
            GREEN=(0, 221, 0), YELLOW=(255, 255, 0), DARK_BLUE=(0, 0, 153),
            VIOLET=(221, 0, 221), GREY2=(170, 170, 170),
            PINK=(255, 153, 136), MED_BLUE=(34, 34, 255),
            LIGHT_BLUE=(102, 170, 255), AQUA=(0, 255, 153),
            WHITE=(255, 255, 255)),
}


def palettes(part):
    """Colour costs are CIEDE2000 differences of the colours shown."""
    import colours
    import make_data_tables as mdt
    import palette
    for pid, pal in sorted(palette.PALETTES.items(), key=lambda x: x[0].value):
        cost = cost_matrix(pal)
        names = {c.name: lab(v.get_value_tuple())
                 for c, v in pal.RGB.items()}
        if len(names) != 16:
            part.violation(dict(palettes=1), "%d colours" % len(names))
        for c, v in pal.RGB.items():
            part.count(states=1, transitions=1)
            got = tuple(int(round(x * 255)) for x in v.get_value_tuple())
            want = BMP2DHR.get(pid.value, {}).get(c.name)
            if got != want:
                part.violation(
                    dict(palettes=1), "%s %s is %s, bmp2dhr converts with "
                    "%s" % (pid.name, c.name, got, want))
        for mode, nominal in (("HGR", colours.HGRColours),
                              ("DHGR", colours.DHGRColours)):
            for c1 in nominal:
                for c2 in nominal:
                    got = cost[c1.value][c2.value]
                    want = ciede2000(names[c1.name], names[c2.name])
                    part.count(states=1, transitions=1)
                    if close(got, want) and \
                            (got > 0 or want < 1) and \
                            (c1 is not c2 or got == 0):
                        continue
                    # The tables are indexed by hi-res colour numbers.
                    h1 = colours.HGRColours(c1.value).name
                    h2 = colours.HGRColours(c2.value).name
                    swapped = ciede2000(names[h1], names[h2])
                    key = "dhgr-costs" if mode == "DHGR" and \
                        close(got, swapped) else None
                    part.violation(
                        dict(palettes=1), "%s %s: %s instead of %s costs %d, "
                        "perceptual difference %.1f" % (
                            pid.name, mode, c1.name, c2.name, got, want), key)
        edp = mdt.compute_substitute_costs(pal)
        for a in mdt.PIXEL_CHARS:
            for b in mdt.PIXEL_CHARS:
                if edp.substitute_costs[ord(a), ord(b)] != \
                        edp.substitute_costs[ord(b), ord(a)]:
                    part.violation(dict(palettes=1), "cost of %s/%s is not "
                                   "symmetrical" % (a, b))
    part.count(traces=1)


def strings(item, part):
    """Distance of every pair of strings over four colours."""
    import make_data_tables as mdt
    import palette
    _, pid, length, chars = item
    pal = palette.PALETTES[palette.Palette(pid)]
    edp = mdt.compute_substitute_costs(pal)
    cost = cost_matrix(pal)
    allv = list(itertools.product(chars, repeat=length))
    for a in allv:
        sa = mdt.pixel_string(a)
        for b in allv:
            got = mdt.edit_distance(edp, sa, mdt.pixel_string(b), error=False)
            part.count(states=1, transitions=1)
            if got != distance(a, b, cost):
                part.violation(dict(strings=list(item)),
                               "distance of %s and %s is %s, should be %d" % (
                                   sa, mdt.pixel_string(b), got,
                                   distance(a, b, cost)))
                return
    part.count(traces=1)


def tiny_class(mode, bits, name):
    screen = enc.modules()[0]
    base = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
    attrs = dict(NAME=name, MASKED_BITS=np.uint64(bits))
    if mode == "DHGR":
        attrs["MASKED_DOTS"] = np.uint64(bits - 3)
    return type("Tiny" + name, (base,), attrs)


def reference_table(mode, cls, bits, cost):
    import colours  # noqa: F401
    noff = 2 if mode == "HGR" else 4
    starts = (-3, 11) if mode == "HGR" else (-3, 4, 11, 18)
    from checks import c14
    n = 1 << bits
    ncol = int(cls.MASKED_DOTS)
    ref = np.zeros((noff, n, n), dtype=np.int64)
    for o in range(noff):
        px = [render.colours(c14.hardware_dots(mode, v, o),
                             starts[o])[:ncol] for v in range(n)]
        for i in range(n):
            for j in range(i):
                ref[o, i, j] = ref[o, j, i] = distance(px[i], px[j], cost)
    return ref


def generate(item, part):
    """Generator -> file -> loader on a small class."""
    import colours
    import make_data_tables as mdt
    import palette
    _, mode, pid, bits = item
    name = "T%s%d_%d" % (mode, bits, os.getpid())
    cls = tiny_class(mode, bits, name)
    pal = palette.PALETTES[palette.Palette(pid)]
    edp = mdt.compute_substitute_costs(pal)
    nominal = colours.HGRColours if mode == "HGR" else colours.DHGRColours
    mdt.make_edit_distance(pal, edp, cls, nominal)
    got = np.asarray(cls.edit_distances(pal.ID)).astype(np.int64)
    ref = reference_table(mode, cls, bits, cost_matrix(pal))
    got = got.reshape(ref.shape)
    part.count(states=ref.size, transitions=ref.size // 2, traces=1)
    if not np.array_equal(got, ref):
        o, i, j = np.argwhere(got != ref)[0]
        part.violation(
            dict(generate=list(item)), "position %d: distance of %s and %s is "
            "%d, should be %d" % (o, bin(i), bin(j), got[o, i, j],
                                  ref[o, i, j]))


def load_orders(item, part):
    """Four tables asked for in every order, twice each."""
    import palette
    _, order = item
    bits = 4
    n = 1 << bits
    want = {}
    keys = []
    tag = "_".join(map(str, order))
    for k, (mode, pid) in enumerate(itertools.product(("HGR", "DHGR"),
                                                      (0, 5))):
        cls = tiny_class(mode, bits, "L%s%s" % (mode, tag))
        if pid == 5:
            cls = keys[-1][0]
        noff = len(cls.PHASES)
        low = np.zeros((noff, n, n), dtype=np.uint16)
        for o in range(noff):
            for i in range(n):
                for j in range(i):
                    low[o, i, j] = 1 + (i * 37 + j * 101 + o * 11 +
                                        k * 1009) % 60000
        np.savez_compressed(tables.file_name(cls.NAME, pid),
                            edit_distance=low.reshape(noff, -1))
        keys.append((cls, pid))
        want[k] = (low + low.transpose(0, 2, 1)).astype(np.int64)
    for k in tuple(order) * 2:
        cls, pid = keys[k]
        got = np.asarray(cls.edit_distances(palette.Palette(pid)))
        part.count(states=1, transitions=1)
        if not np.array_equal(got.reshape(want[k].shape).astype(np.int64),
                              want[k]):
            part.violation(dict(load=list(order)),
                           "table %d is wrong when asked for in order %s" % (
                               k, order))
            break
    part.count(traces=1)
    for cls, pid in keys:
        os.remove(tables.file_name(cls.NAME, pid))


def full(item, part):
    """The tables the encoder will use, at full width."""
    import palette
    _, mode, pid, real = item
    screen = enc.modules()[0]
    raw, bad = tables.build(mode, pid, True)
    if bad:
        part.violation(dict(full=list(item)), "%d of 400 sampled entries "
                       "differ from the project's distance" % bad)
        os.remove(raw)
        return
    tab = np.load(raw, mmap_mode="r")
    noff = tab.shape[0]
    bits = 13 if mode == "DHGR" else 14
    n = 1 << bits
    starts = (-3, 11) if mode == "HGR" else (-3, 4, 11, 18)
    ncol = 10 if mode == "DHGR" else 18
    cost = cost_matrix(palette.PALETTES[palette.Palette(pid)])
    from checks import c14
    for o in range(noff):
        t = tab[o].reshape(n, n)
        px = {}

        def pixels(v):
            if v not in px:
                px[v] = render.colours(c14.hardware_dots(mode, v, o),
                                       starts[o])[:ncol]
            return px[v]

        if t.diagonal().any():
            part.violation(dict(full=list(item)), "non-zero diagonal")
        for i in range(0, n, 509):
            if not np.array_equal(t[i], t[:, i]):
                part.violation(dict(full=list(item)), "not symmetrical")
                break
            for j in range(i % 7, n, 97):
                part.count(states=1, transitions=1)
                if int(t[i, j]) != distance(pixels(i), pixels(j), cost):
                    part.violation(
                        dict(full=list(item)), "position %d: distance of %s "
                        "and %s is %d, should be %d" % (
                            o, bin(i), bin(j), t[i, j],
                            distance(pixels(i), pixels(j), cost)))
                    os.remove(raw)
                    return
    if real:
        raw2, _ = tables.build(mode, pid, False)
        import zipfile
        name = tables.file_name(mode, pid)
        with zipfile.ZipFile(name, "w", zipfile.ZIP_STORED, True) as z:
            z.write(raw2, "edit_distance.npy")
        os.remove(raw2)
        cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
        got = cls.edit_distances(palette.Palette(pid))
        part.count(states=tab.size, transitions=1)
        for o in range(noff):
            if not np.array_equal(np.asarray(got[o]), tab[o]):
                part.violation(dict(full=list(item)), "the loaded table is "
                               "not the generated one made symmetrical")
                break
        os.remove(name)
    part.count(traces=1)
    os.remove(raw)


PARTS = {"strings": strings, "generate": generate, "load": load_orders,
         "full": full}


def work(item, part):
    if item[0] == "palettes":
        palettes(part)
    else:
        PARTS[item[0]](item, part)


def run(chk):
    enc.modules()
    import make_data_tables
    import palette
    deep = chk.thorough
    items = [("full", "DHGR", 5, True), ("palettes",)]
    for pid in sorted(p.value for p in palette.PALETTES):
        for length, chars in ((1, range(16)), (2, range(16)),
                              (3, (0, 5, 10, 15)), (3, (1, 3, 6, 12)),
                              (4, (0, 3, 12)), (5, (5, 10))):
            items.append(("strings", pid, length, tuple(chars)))
        for bits in ((5, 7, 8) if deep else (5, 7)):
            items.append(("generate", "HGR", pid, bits))
            items.append(("generate", "DHGR", pid, bits))
    for order in itertools.permutations(range(4)):
        items.append(("load", order))
    report.pmap(chk, work, items)
    rest = [("full", "HGR", 5, False), ("full", "HGR", 0, False),
            ("full", "DHGR", 0, deep)]
    for it in rest:
        report.pmap(chk, work, [it], procs=1)
    chk.sample({"strings": "all pairs of length 2 over 16 colours"})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("generator and loader exhaustive up to %d bits; "
                          "full width compared for DHGR, sampled for HGR" % (
                              8 if deep else 7))


def replay(case, part):
    enc.modules()
    if "palettes" in case:
        palettes(part)
    for k in PARTS:
        if k in case:
            it = case[k]
            PARTS[k](("load", tuple(it)) if k == "load" else tuple(it), part)
