"""What an Apple II shows for given screen memory, written down independently.

HGR: bits 0..6 of a byte are two dots each; with bit 7 set all of them come
one dot later, and the dot uncovered on the left keeps showing the last bit of
the byte before.  DHGR: aux byte then main byte, seven single dots each.

Colour: a dot's colour is given by the four dots starting at it, each placed
at its position modulo 4 from the left edge of the screen.
"""

from vlib import enc

HGR_NAMES = {
    0: "BLACK", 1: "MAGENTA", 8: "BROWN", 9: "ORANGE", 4: "DARK_GREEN",
    5: "GREY1", 12: "GREEN", 13: "YELLOW", 2: "DARK_BLUE", 3: "VIOLET",
    10: "GREY2", 11: "PINK", 6: "MED_BLUE", 7: "LIGHT_BLUE", 14: "AQUA",
    15: "WHITE"}
DHGR_NAMES = {
    0: "BLACK", 8: "MAGENTA", 4: "BROWN", 12: "ORANGE", 2: "DARK_GREEN",
    10: "GREY1", 6: "GREEN", 14: "YELLOW", 1: "DARK_BLUE", 9: "VIOLET",
    5: "GREY2", 13: "PINK", 3: "MED_BLUE", 11: "LIGHT_BLUE", 7: "AQUA",
    15: "WHITE"}


def hgr_dots(row):
    """List of dots for consecutive screen bytes starting at an even column."""
    res = []
    prev = 0
    for b in row:
        if b & 0x80:
            res.append(prev >> 6 & 1)
            for k in range(1, 14):
                res.append(b >> ((k - 1) // 2) & 1)
        else:
            for k in range(14):
                res.append(b >> (k // 2) & 1)
        prev = b
    return res


def dhgr_dots(aux, main):
    res = []
    for a, m in zip(aux, main):
        for k in range(7):
            res.append(a >> k & 1)
        for k in range(7):
            res.append(m >> k & 1)
    return res


def colours(dots, start=0):
    """Colour code of each dot; dots beyond the end are off.

    start: position of the first dot from the left edge of the screen.
    """
    n = len(dots)
    d = list(dots) + [0, 0, 0]
    res = []
    for t in range(n):
        c = 0
        for i in range(4):
            if d[t + i]:
                c |= 1 << ((start + t + i) & 3)
        res.append(c)
    return res


ROW_BASE = [enc.addr(y, 0) for y in range(192)]


def screen(mode, main, aux):
    """Colour codes of all rows."""
    rows = []
    for base in ROW_BASE:
        if mode == "HGR":
            rows.append(colours(hgr_dots(main[base:base + 40])))
        else:
            rows.append(colours(dhgr_dots(aux[base:base + 40],
                                          main[base:base + 40])))
    return rows
