"""The encoder's error measure, computed from screen bytes independently.

The visible neighbourhood of a byte is the byte itself, the last bits of the
byte displayed before it and the first bits of the byte after it, within its
256-byte page.  Distances between neighbourhoods come from the project's edit
distance table (which C17 decides).
"""

import numpy as np

from vlib import enc


def grid(b):
    return np.frombuffer(bytes(b), dtype=np.uint8).astype(
        np.int64).reshape(32, 256)


def _prev(a):
    r = np.zeros_like(a)
    r[:, 1:] = a[:, :-1]
    return r


def _next(a):
    r = np.zeros_like(a)
    r[:, :-1] = a[:, 1:]
    return r


def neighbourhood(mode, main, aux, bank, content=None):
    """Index of every byte's neighbourhood; content: as if stored there.

    main, aux: (32, 256) integer arrays.
    """
    even = np.arange(256) % 2 == 0
    if mode == "HGR":
        own = main if content is None else np.full_like(main, content)
        p, n = _prev(main), _next(main)
        res = np.empty_like(main)
        idx0 = ((p >> 5 & 3) | (p >> 7) << 2 | own << 3 | (n >> 7) << 11 |
                (n & 3) << 12)
        idx1 = ((p >> 5 & 3) | (p >> 7) << 2 | (own >> 7) << 3 |
                (own & 0x7F) << 4 | (n >> 7) << 11 | (n & 3) << 12)
        return np.where(even, idx0, idx1)
    if bank:
        own, p, n = aux, _prev(main), main
    else:
        own, p, n = main, aux, _next(aux)
    if content is not None:
        own = np.full_like(own, content)
    return (p >> 4 & 7) | (own & 0x7F) << 3 | (n & 7) << 10


class Metric:
    def __init__(self, mode, palette_id):
        screen, _, _, palette = enc.modules()
        self.mode = mode
        cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
        self.tab = cls.edit_distances(palette.Palette(palette_id))
        self.bits = 14 if mode == "HGR" else 13

    def _rows(self, bank):
        """Table rows for even and odd columns."""
        if self.mode == "HGR":
            return 0, 1
        return (0, 2) if bank else (1, 3)

    def lookup(self, a, b, bank):
        e, o = self._rows(bank)
        pair = (a << self.bits) + b
        res = np.empty(a.shape, dtype=np.int64)
        res[:, 0::2] = self.tab[e][pair[:, 0::2]]
        res[:, 1::2] = self.tab[o][pair[:, 1::2]]
        return res

    def diff(self, source, target, bank):
        """Visible error of every byte; source, target: [main, aux] grids."""
        a = neighbourhood(self.mode, source[0], source[1], bank)
        b = neighbourhood(self.mode, target[0], target[1], bank)
        return self.lookup(a, b, bank)

    def error_with(self, target, content, bank):
        """Error left at each byte of the target if it were `content`."""
        a = neighbourhood(self.mode, target[0], target[1], bank, content)
        b = neighbourhood(self.mode, target[0], target[1], bank)
        return self.lookup(a, b, bank)
