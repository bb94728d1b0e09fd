"""C15: screen geometry and memory representations are exact.

Exhaustive over both display pages: line/column <-> address for all 2 x 192 x
40 bytes, the 512 holes, and every single-byte write through either memory
representation (every address from below to above the page, every page/offset)
followed by every chain of up to three conversions.
"""

import itertools

import numpy as np

from vlib import enc, report


def geometry(item, part):
    screen = enc.modules()[0]
    seen = set()
    for page in (0, 1):
        for y in range(192):
            base = 0x2000 * (page + 1) + enc.addr(y, 0)
            got = screen.y_to_base_addr(y, page)
            part.count(states=1, transitions=1)
            if got != base or screen.Y_TO_BASE_ADDR[page][y] != base:
                part.violation(dict(geometry=1), "line %d of page %d starts "
                               "at $%04X, computed $%04X" % (
                                   y, page + 1, base, got))
                return
            for x in range(40):
                a = base + x
                seen.add(a)
                if screen.ADDR_TO_COORDS[a] != (page, y, x):
                    part.violation(dict(geometry=1), "$%04X is %s" % (
                        a, screen.ADDR_TO_COORDS[a]))
                    return
                p, o = (a >> 8) - 0x20 * (page + 1), a & 255
                part.count(states=1, transitions=5)
                bad = None
                if int(screen.PAGE_OFFSET_TO_X[p, o]) != x:
                    bad = "column of"
                elif int(screen.PAGE_OFFSET_TO_Y[p, o]) != y:
                    bad = "line of"
                elif int(screen.X_Y_TO_PAGE[y, x]) != p:
                    bad = "page of"
                elif int(screen.X_Y_TO_OFFSET[y, x]) != o:
                    bad = "offset of"
                elif screen.SCREEN_HOLES[p, o]:
                    bad = "visibility of"
                if bad:
                    part.violation(dict(geometry=1), "%s byte %d of line %d "
                                   "is wrong" % (bad, x, y))
                    return
    if set(screen.ADDR_TO_COORDS) != seen:
        part.violation(dict(geometry=1), "addresses that are not on screen "
                       "have coordinates")
    holes = {int(p) * 256 + int(o)
             for p, o in np.argwhere(np.asarray(screen.SCREEN_HOLES))}
    if holes != set(enc.HOLES):
        part.violation(dict(geometry=1), "holes differ at %s" % sorted(
            holes ^ set(enc.HOLES))[:5])
    part.count(states=8192, traces=1)


CONVERSIONS = list(itertools.product("FM", repeat=3))


def flat_bytes(x):
    if hasattr(x, "page_offset"):
        return bytes(np.asarray(x.page_offset, dtype=np.uint8).reshape(-1))
    return bytes(np.asarray(x.data, dtype=np.uint8))


def convert(x, kind):
    is_flat = not hasattr(x, "page_offset")
    if kind == "F":
        return x if is_flat else x.to_flat_memory_map()
    return x.to_memory_map() if is_flat else x


def writes(item, part):
    """One write through a representation, then chains of conversions."""
    screen = enc.modules()[0]
    kind, page, lo, hi = item
    start = 0x2000 * page
    for i in range(lo, hi):
        pattern = bytes((k * 7 + i) & 255 for k in range(8192))
        ref = bytearray(pattern)
        arr = np.frombuffer(pattern, dtype=np.uint8).copy()
        v = (i * 31 + 5) & 255
        if kind == "F":
            m = screen.FlatMemoryMap(page, arr)
            addr = start + i
            inside = 0 <= i < 8192
            try:
                m.write(addr, v)
                ok = True
            except ValueError:
                ok = False
            if ok != inside:
                part.violation(dict(writes=[kind, page, i, i + 1]),
                               "write to $%04X of page %d %s" % (
                                   addr, page,
                                   "accepted" if ok else "refused"))
                return
        else:
            m = screen.MemoryMap(page, arr.reshape(32, 256))
            m.write(32 * page + (i >> 8), i & 255, v)
            inside = True
        if inside:
            ref[i] = v
        part.count(states=1, transitions=1, traces=1)
        x = m
        for k in CONVERSIONS[i % len(CONVERSIONS)]:
            x = convert(x, k)
            part.count(transitions=1)
            if flat_bytes(x) != bytes(ref) or x.screen_page != page:
                part.violation(dict(writes=[kind, page, i, i + 1]),
                               "write %d of page %d is lost in conversion" % (
                                   i, page))
                return
        # A write after the conversion must land in the same place too.
        j = (i * 13 + 7) % 8192
        if hasattr(x, "page_offset"):
            x.write(32 * page + (j >> 8), j & 255, 0x99)
        else:
            x.write(start + j, 0x99)
        ref[j] = 0x99
        if flat_bytes(x) != bytes(ref):
            part.violation(dict(writes=[kind, page, i, i + 1]),
                           "write %d after conversion is misplaced" % j)
            return


def shapes(item, part):
    """Only pages 1 and 2, and only whole 8K images, are accepted."""
    screen = enc.modules()[0]
    for page in range(-1, 5):
        for cls in (screen.FlatMemoryMap, screen.MemoryMap):
            part.count(states=1, transitions=1)
            try:
                m = cls(page)
                ok = True
                if any(flat_bytes(m)):
                    part.violation(dict(shapes=1), "new screen is not blank")
            except ValueError:
                ok = False
            if ok != (page in (1, 2)):
                part.violation(dict(shapes=1), "page %d %s" % (
                    page, "accepted" if ok else "refused"))
    for n in (0, 1, 4096, 8184, 8191, 8192, 8193, 16384):
        part.count(states=1, transitions=1)
        try:
            screen.FlatMemoryMap(1, np.zeros((n,), dtype=np.uint8))
            ok = True
        except ValueError:
            ok = False
        if ok != (n == 8192):
            part.violation(dict(shapes=1), "image of %d bytes %s" % (
                n, "accepted" if ok else "refused"))


def work(item, part):
    {"geometry": geometry, "shapes": shapes}.get(item[0], writes)(item, part)


def run(chk):
    enc.modules()
    items = [("geometry",), ("shapes",)]
    for page in (1, 2):
        for lo in range(0, 8192, 512):
            items.append(("F", page, lo, lo + 512))
            items.append(("M", page, lo, lo + 512))
        items.append(("F", page, -300, 0))
        items.append(("F", page, 8192, 8500))
    report.pmap(chk, work, items)
    chk.sample({"write": "$2000+i for all i in -300..8499"})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("both pages x 192 lines x 40 bytes; one write at "
                          "every address, chains of 3 conversions")


def replay(case, part):
    enc.modules()
    if "writes" in case:
        writes(tuple(case["writes"]), part)
    else:
        geometry(None, part)
        shapes(None, part)
