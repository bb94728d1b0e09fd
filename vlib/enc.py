"""Drives the real encoder and knows, independently, what it has to achieve.

The reference side knows two things only: the documented memory layout of the
hi-res screen, and that an opcode (page, content, four offsets) stores content
at those four offsets of that page in the bank being written.
"""

import collections
import copy
import os
import random

import numpy as np

from vlib import env, tables

_o = None


def addr(y, x):
    """Offset in the 8K page of screen byte column x (0..39) of line y."""
    return (y & 7) * 0x400 + ((y >> 3) & 7) * 0x80 + (y >> 6) * 0x28 + x


VISIBLE = [False] * 8192
for _y in range(192):
    for _x in range(40):
        VISIBLE[addr(_y, _x)] = True
HOLES = [a for a in range(8192) if not VISIBLE[a]]
assert len(HOLES) == 512


def method(obj, name, nargs):
    """obj's method if it (still) exists and takes nargs arguments."""
    import inspect
    f = getattr(obj, name, None)
    if f is None:
        return None
    try:
        inspect.signature(f).bind(*[None] * nargs)
    except TypeError:
        return None
    except ValueError:
        pass
    return f


class Rate:
    """All the encoder needs of a frame grabber."""

    def __init__(self, rate=30.0):
        self.input_frame_rate = rate


class Bad(Exception):
    """The encoder broke the property."""


def modules():
    env.use_transcoder()
    import palette
    import screen
    import video
    import video_mode
    return screen, video, video_mode, palette


def memory_map(data):
    screen = modules()[0]
    return screen.FlatMemoryMap(
        screen_page=1, data=np.array(bytearray(data), dtype=np.uint8)
    ).to_memory_map()


def bitmap(mode, palette_id, main, aux=None):
    """A target image as the transcoder builds it."""
    screen, _, _, palette = modules()
    pal = palette.Palette(palette_id)
    if mode == "DHGR":
        return screen.DHGRBitmap(palette=pal, main_memory=memory_map(main),
                                 aux_memory=memory_map(aux))
    return screen.HGRBitmap(palette=pal, main_memory=memory_map(main))


class Encoder:
    """One encoder with the player's memory as its opcodes leave it."""

    def __init__(self, mode, palette_id):
        screen, video, vm, palette = modules()
        self.mode = mode
        self.palette_id = palette_id
        self.video = video.Video(
            Rate(), ticks_per_second=14700., mode=vm.VideoMode[mode],
            palette=palette.Palette(palette_id))
        self.mem = [bytearray(8192), bytearray(8192)]
        self.seq = None
        self.bank = 0

    def clone(self):
        """A copy without the current opcode sequence."""
        e = Encoder.__new__(Encoder)
        e.mode, e.palette_id, e.bank = self.mode, self.palette_id, self.bank
        memo = {id(self.video.palette): self.video.palette}
        e.video = copy.deepcopy(self.video, memo)
        e.mem = [bytearray(m) for m in self.mem]
        e.seq = None
        return e

    def start(self, target, bank=0):
        self.bank = bank
        self.seq = self.video.encode_frame(target, is_aux=bool(bank))

    def op(self):
        """Takes one opcode and executes it; returns (page, content, offs)."""
        page, content, offsets = next(self.seq)
        page, content = int(page), int(content)
        offsets = tuple(int(x) for x in offsets)
        if not 32 <= page < 64:
            raise Bad("opcode for page %d" % page)
        if not 0 <= content < 256:
            raise Bad("opcode content %d" % content)
        if len(offsets) != 4 or min(offsets) < 0 or max(offsets) > 255:
            raise Bad("opcode offsets %s" % (offsets,))
        m = self.mem[self.bank]
        for x in offsets:
            m[(page - 32) * 256 + x] = content
        return page, content, offsets

    def belief(self, bank):
        v = self.video
        mm = v.aux_memory_map if bank else v.memory_map
        return np.asarray(mm.page_offset, dtype=np.uint8).tobytes()

    def banks(self):
        return (0, 1) if self.mode == "DHGR" else (0,)

    def key(self):
        """Everything that determines the future of this encoder."""
        return (digest(self.video), bytes(self.mem[0]), bytes(self.mem[1]))


SKIP_ATTRS = ("frame_grabber",)


def digest(x, depth=0):
    """Hashable canonical form of a state (arrays, numbers, nested objects)."""
    if isinstance(x, np.ndarray):
        return (x.shape, x.tobytes())
    if isinstance(x, (str, bytes, int, float, bool, type(None))):
        return x
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, dict):
        return tuple(sorted((repr(k), digest(v, depth + 1))
                            for k, v in x.items()))
    if isinstance(x, (list, tuple, collections.deque)):
        return tuple(digest(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(map(repr, x)))
    d = getattr(x, "__dict__", None)
    if d is not None and depth < 6 and not isinstance(x, type) \
            and not callable(x):
        return (type(x).__name__,) + tuple(sorted(
            (k, digest(v, depth + 1)) for k, v in d.items()
            if k not in SKIP_ATTRS))
    return repr(type(x))


class Dice:
    """Owns the encoder's tie-breaking randomness.

    Every draw is 0 unless the draw number is in `flips`, where it is 255;
    exploring all small sets of flips explores the orders in which equal
    priorities can be taken.
    """

    def __init__(self, flips=(), low=0, high=255):
        self.flips = frozenset(flips)
        self.low, self.high = low, high
        self.n = 0

    def _draw(self):
        v = self.high if self.n in self.flips else self.low
        self.n += 1
        return v

    def install(self):
        random.getrandbits = lambda k: self._draw() & ((1 << k) - 1)

        def randint(low, high=None, size=None, dtype=int):
            if high is None:
                low, high = 0, low
            if size is None:
                return low + self._draw() % (high - low)
            n = int(np.prod(size))
            return np.array([low + self._draw() % (high - low)
                             for _ in range(n)], dtype=dtype).reshape(size)

        np.random.randint = randint
        return self


class Lcg(Dice):
    """Deterministic varied draws, for long runs."""

    def __init__(self, seed):
        super().__init__()
        self.s = seed * 2654435761 + 12345 & 0xFFFFFFFF

    def _draw(self):
        self.s = self.s * 1664525 + 1013904223 & 0xFFFFFFFF
        return self.s >> 24


def image(cells, fill=0):
    """8K screen image: fill on visible bytes, then {offset: value}."""
    b = bytearray(8192)
    if fill:
        for a in range(8192):
            if VISIBLE[a]:
                b[a] = fill
    for a, v in cells.items():
        b[a] = v
    return bytes(b)


def noise(seed, mask=0xFF, values=None):
    """A deterministic busy image; values: restrict the bytes used."""
    s = seed * 7919 + 1
    b = bytearray(8192)
    for a in range(8192):
        s = s * 1103515245 + 12345 & 0x7FFFFFFF
        if VISIBLE[a]:
            v = s >> 16
            b[a] = values[v % len(values)] if values else v & mask
    return bytes(b)


def load(mode, palette_id):
    how = tables.load(mode, palette_id)
    return how


# --- small worlds: images that differ in a handful of bytes ---------------

def page(p, cells):
    return {p * 256 + o: v for o, v in cells.items()}


def small_hgr():
    z = {}
    return [
        ("blank", (z,)),
        ("run of six", ({k: 0x7F for k in range(6)},)),
        ("palette bit only", ({0: 0x80, 5: 0x80},)),
        ("stripes", ({0: 0x2A, 1: 0x55, 2: 0xAA, 3: 0xD5},)),
        ("seams", ({39: 0x7F, 40: 0x7F, 119: 0x7F, 128: 0x7F, 247: 0x7F},)),
        ("last page", (page(31, {0: 0xFF, 119: 0x81, 247: 0xFF}),)),
        ("mixed", ({0: 0xFF, 1: 0x80, 2: 0xFF, 4: 0x01, 127 - 8: 0x40},)),
        ("white left", ({0: 0x7F, 1: 0x01, 3: 0x7F, 5: 0x7F},)),
    ]


def small_dhgr():
    z = {}
    return [
        ("blank", (z, z)),
        ("run of six", ({k: 0x7F for k in range(6)}, {0: 0x7F, 1: 0x7F})),
        ("greys", ({0: 0x2A, 1: 0x2A}, {0: 0x55, 1: 0x55})),
        ("seams", ({39: 0x7F, 40: 0x7F, 119: 0x11}, {119: 0x22, 128: 0x44})),
        ("magenta", ({0: 0x11, 1: 0x44, 2: 0x11}, {0: 0x08, 1: 0x22})),
        ("last page", (page(31, {0: 1, 247: 0x40}), page(31, {247: 0x7F}))),
        ("aux only", (z, {0: 0x7F, 2: 0x7F, 3: 0x7F, 5: 0x7F})),
    ]


def small(mode):
    return small_hgr() if mode == "HGR" else small_dhgr()


def small_targets(mode, palette_id):
    res = []
    for name, planes in small(mode):
        res.append(bitmap(mode, palette_id, *[image(c) for c in planes]))
    return res


def explore(part, mode, palette_id, depth, monitor, firsts=None, dice=((),),
            targets=None, extra=2, limit=24):
    """Every history of up to `depth` encodings, each interrupted anywhere.

    A history is a list of segments [target index, bank, dice, number of
    opcodes].  A segment ends after any number of opcodes, up to `extra`
    opcodes after the encoder has run out of work (or `limit`).  States are
    deduplicated on everything the encoder and the player's memory hold.

    monitor(encoder, op, target index, hist) raises Bad.
    """
    targets = targets or small_targets(mode, palette_id)
    seen = {}           # state -> lowest level at which it was expanded

    def from_state(e, hist, level):
        for ti in (firsts if level == 0 and firsts is not None
                   else range(len(targets))):
            for bank in e.banks():
                for d in dice:
                    run_segment(e, ti, bank, d, hist, level)
                    if part.nviol > 4:
                        return

    def run_segment(e0, ti, bank, d, hist, level):
        e = e0.clone()
        Dice(d).install()
        e.start(targets[ti], bank)
        idle = n = 0
        while idle < extra and n < limit:
            n += 1
            h = hist + [[ti, bank, list(d), n]]
            try:
                op = e.op()
                part.transitions += 1
                monitor(e, op, ti, h)
            except Bad as err:
                part.violation(dict(mode=mode, palette=palette_id, hist=h),
                               str(err))
                return
            except Exception as err:
                from vlib import report
                if report.interface_changed(err):
                    raise
                part.violation(dict(mode=mode, palette=palette_id, hist=h),
                               report.brief_tb())
                return
            if op[0] == 32 and op[2] == (0, 0, 0, 0):
                idle += 1
            part.traces += 1
            k = hash(e.key())
            if k not in seen:
                part.states += 1
            elif seen[k] <= level:
                continue
            seen[k] = level
            if level + 1 < depth:
                from_state(e, h, level + 1)
                if part.nviol > 4:
                    return

    from_state(Encoder(mode, palette_id), [], 0)


def replay_history(case, part, monitor, targets=None):
    """Runs one history again."""
    mode, pal = case["mode"], case["palette"]
    load(mode, pal)
    targets = targets or small_targets(mode, pal)
    e = Encoder(mode, pal)
    for i, (ti, bank, d, n) in enumerate(case["hist"]):
        e = e.clone()
        Dice(d).install()
        e.start(targets[ti], bank)
        for k in range(n):
            try:
                op = e.op()
                monitor(e, op, ti, case["hist"][:i] + [[ti, bank, d, k + 1]])
            except Exception as err:
                part.violation(case, "%s: %s" % (type(err).__name__, err))
                return


def run_small(chk, monitor, depth, configs=None, dice=((),), split=True):
    """The exploration over all configurations, spread over processes."""
    from vlib import report
    configs = configs or [("HGR", 5), ("DHGR", 0)]
    for mode, pal in configs:
        load(mode, pal)
    items = []
    for mode, pal in configs:
        for ti in range(len(small(mode))):
            items.append((mode, pal, ti))

    def work(item, part):
        mode, pal, ti = item
        explore(part, mode, pal, depth, monitor, firsts=[ti], dice=dice)
        part.sample({"mode": mode, "first": small(mode)[ti][0],
                     "states": part.states})

    report.pmap(chk, work, items)
