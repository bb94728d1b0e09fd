"""C11: given time, the screen shows exactly what it should.

Every pair (old strip, new strip) of three neighbouring bytes over a value
alphabet, at several column positions, many strips side by side: the encoder
runs on an unchanging image until it stops changing anything, then the
player's memory is rendered by an independent display model and compared.
Also all pairs of small-world images with the first interrupted anywhere.
"""

import itertools

from vlib import enc, refdiff, render, report

PITCH = 6
EDGE = 4


def same_colour(mode, pal):
    """Colour code -> class of codes with the same RGB value."""
    enc.modules()
    import palette
    from colours import HGRColours
    rgb = palette.PALETTES[palette.Palette(pal)].RGB
    names = render.HGR_NAMES if mode == "HGR" else render.DHGR_NAMES
    cls = {}
    for code, name in names.items():
        cls[code] = rgb[getattr(HGRColours, name)].get_value_tuple()
    return cls


def wrong(mode, pal, got, want):
    """Visible differences: (text, all at row edges).

    got, want: [main, aux].  A dot counts only if it differs both on the
    screen and in the project's picture of it, where the rows that follow
    each other in memory touch; a difference on the screen only is reported
    as an edge difference.
    """
    cls = same_colour(mode, pal)
    a = render.screen(mode, *got)
    b = render.screen(mode, *want)
    edge = []
    for y in range(192):
        if a[y] == b[y]:
            continue
        base = enc.addr(y, 0)
        lo = base & ~0xFF
        ctx = None
        for t in range(560):
            if cls[a[y][t]] == cls[b[y][t]]:
                continue
            if ctx is None:
                ctx = [strip_colours(mode, s, lo) for s in (got, want)]
            i = (base - lo) * 14 + t
            if cls[ctx[0][i]] == cls[ctx[1][i]]:
                edge.append((y, t))
                continue
            return ("line %d dot %d shows %s instead of %s" % (
                y, t, (render.HGR_NAMES if mode == "HGR" else
                       render.DHGR_NAMES)[a[y][t]],
                (render.HGR_NAMES if mode == "HGR" else
                 render.DHGR_NAMES)[b[y][t]]), False)
    if edge:
        inner = [e for e in edge if EDGE <= e[1] < 560 - EDGE]
        return "dots at the edge of lines differ: %s" % (
            (inner or edge)[:4],), not inner
    return None, False


def strip_colours(mode, planes, lo):
    m, x = planes[0][lo:lo + 256], planes[1][lo:lo + 256]
    d = render.hgr_dots(m) if mode == "HGR" else render.dhgr_dots(x, m)
    return render.colours(d)


def settle(e, target, part, limit=40000):
    """Runs until a whole round of banks changes nothing."""
    rounds = ops = 0
    while True:
        changed = False
        for bank in e.banks():
            e.start(target, bank)
            idle = 0
            while idle < 4:
                before = bytes(e.mem[bank])
                op = e.op()
                ops += 1
                part.count(transitions=1)
                if op[0] == 32 and op[2] == (0, 0, 0, 0):
                    idle += 1
                else:
                    idle = 0
                if bytes(e.mem[bank]) != before:
                    changed = True
                if ops > limit:
                    raise enc.Bad("still changing after %d opcodes" % ops)
        rounds += 1
        if not changed:
            return rounds


def judge(case, e, planes, part):
    got = [bytes(m) for m in e.mem]
    msg, edge = wrong(e.mode, e.palette_id, got, planes)
    part.count(traces=1)
    if msg:
        part.violation(case, msg, "row-edge" if edge else None)
        part.outcome("row edge" if edge else "wrong")
        return False
    part.outcome("settled")
    return True


def layout(mode, vals, start, chunk):
    """Two images holding old/new strips chunk*n.. of the enumeration."""
    cells = [[{}, {}], [{}, {}]]
    perpage = 40 // PITCH
    sites = []
    for page in range(32):
        for row in range(3):
            if page * 256 + row * 40 > 8192:
                continue
            for k in range(perpage):
                col = k * PITCH + start
                for half in (0, 128):
                    a = page * 256 + half + row * 40 + col
                    if col + 3 <= 40 and enc.VISIBLE[a]:
                        sites.append(a)
    banks = 2 if mode == "DHGR" else 1
    strips = list(itertools.product(vals, repeat=3 if banks == 1 else 4))
    n = len(strips)
    first = chunk * len(sites)
    done = 0
    for i, a in enumerate(sites):
        idx = first + i
        if idx >= n * n:
            break
        done += 1
        for which, s in ((0, strips[idx // n]), (1, strips[idx % n])):
            if banks == 1:
                for k in range(3):
                    cells[which][0][a + k] = s[k]
            else:
                # aux, main, aux, main as displayed
                cells[which][1][a] = s[0]
                cells[which][0][a] = s[1]
                cells[which][1][a + 1] = s[2]
                cells[which][0][a + 1] = s[3]
    return [[enc.image(c) for c in w] for w in cells], done, \
        -(-n * n // len(sites))


def strips(case, part):
    mode, pal = case["mode"], case["palette"]
    images, n, _ = layout(mode, case["values"], case["start"], case["chunk"])
    enc.Lcg(case["chunk"] + 1).install()
    e = enc.Encoder(mode, pal)
    for planes in images:
        t = enc.bitmap(mode, pal, *(planes if mode == "DHGR" else planes[:1]))
        try:
            settle(e, t, part)
        except enc.Bad as err:
            part.violation(case, str(err))
            return
        part.count(states=n)
        if not judge(case, e, planes, part):
            return


def small(item, part):
    """First image interrupted after every opcode, then the second settles."""
    mode, pal, a = item
    world = enc.small(mode)
    targets = enc.small_targets(mode, pal)
    planes = [([enc.image(c) for c in p] + [bytes(8192)])[:2]
              for _, p in world]
    e = enc.Encoder(mode, pal)
    enc.Dice().install()
    for bank in e.banks():
        f = e.clone()
        f.start(targets[a], bank)
        for n in range(1, 9):
            f.op()
            g0 = f.clone()
            for b in range(len(targets)):
                g = g0.clone()
                case = dict(small=[mode, pal, a], bank=bank, ops=n, then=b)
                try:
                    settle(g, targets[b], part)
                except enc.Bad as err:
                    part.violation(case, str(err))
                    return
                part.count(states=1)
                judge(case, g, planes[b], part)


def edges(item, part):
    """Strips that lie across the ends of lines."""
    mode, pal = item
    vals = (0x7F, 0xFF, 0x00, 0x40) if mode == "HGR" else (0x7F, 0x40, 0, 1)
    for old, new in itertools.product(itertools.product(vals, repeat=2),
                                      repeat=2):
        case = dict(edges=[mode, pal], old=list(old), new=list(new))
        enc.Dice().install()
        e = enc.Encoder(mode, pal)
        for s in (old, new):
            planes = [enc.image({39: s[0], 40: s[1], 119: s[0]}),
                      enc.image({39: s[1], 40: s[0]} if mode == "DHGR"
                                else {})]
            t = enc.bitmap(mode, pal,
                           *(planes if mode == "DHGR" else planes[:1]))
            settle(e, t, part)
            part.count(states=1)
        judge(case, e, planes, part)


def run(chk):
    deep = chk.thorough
    chk.assumptions += [
        "the images have nothing in the screen holes",
        "colours of the palette that have the same RGB value look the same"]
    items, cases = [], []
    for mode, pal in (("HGR", 5), ("DHGR", 0), ("HGR", 0), ("DHGR", 5)):
        enc.load(mode, pal)
        if mode == "HGR":
            vals = [0x00, 0x7F, 0xAA, 0xD5, 0x80] if not deep else \
                [0x00, 0x7F, 0xFF, 0x2A, 0x55, 0xAA, 0xD5, 0x80]
        else:
            vals = [0x00, 0x7F, 0x2A] if not deep else \
                [0x00, 0x7F, 0x2A, 0x55]
        for start in (0, 1, 3) if deep else (pal & 1,):
            n = layout(mode, vals, start, 0)[2]
            for chunk in range(n):
                cases.append(dict(mode=mode, palette=pal, start=start,
                                  values=vals, chunk=chunk))
        if deep or (mode, pal) in (("HGR", 5), ("DHGR", 0)):
            items += [(mode, pal, a) for a in range(len(enc.small(mode)))]
    report.pmap(chk, strips, cases)
    report.pmap(chk, small, items)
    report.pmap(chk, edges, [("HGR", 5), ("DHGR", 0)])
    chk.sample(cases[0])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all pairs of three-byte (HGR) and four-byte (DHGR) "
                          "strips over %d values" % len(vals))


def replay(case, part):
    for mode, pal in (("HGR", 5), ("DHGR", 0), ("HGR", 0), ("DHGR", 5)):
        if case.get("mode", mode) == mode:
            enc.load(mode, pal)
    if "edges" in case:
        edges(tuple(case["edges"]), part)
    elif "small" in case:
        small(tuple(case["small"]), part)
    else:
        strips(case, part)
