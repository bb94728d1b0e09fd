"""The world around the transcoder: video reader, bmp2dhr, audio files.

Frames carry their identity in their colour, so that the stand-in for bmp2dhr
can recognise a frame from the image it is given, whatever the files are
called, and answer with the screen memory the test wants for it.
"""

import os
import runpy
import subprocess
import sys
import wave

import numpy as np

from vlib import env

BMP2DHR = "bmp2dhr"

CORNERS = ((0, 0, (255, 0, 0)), (0, 7, (0, 255, 0)), (7, 0, (0, 0, 255)),
           (7, 7, (255, 255, 255)))


def whole_picture(im):
    """What is wrong with a picture given to bmp2dhr, or None."""
    if im.size != (280, 192):
        return "is %d x %d dots" % im.size
    im = im.convert("RGB")
    for y, x, colour in CORNERS:
        got = im.getpixel((x and 275, y and 187))
        if [c > 127 for c in got] != [c > 127 for c in colour]:
            return "has %s in a corner, not %s" % (got, colour)
    return None


class World:
    """Installs the stand-ins; one per process."""

    def __init__(self):
        env.use_transcoder()
        env.stub_librosa_deps()
        import skvideo.io
        self.frames = []          # list of (main bytes, aux bytes or None)
        self.rate = "30/1"
        self.calls = []
        self.fault = None         # callable(event, detail) or None
        self.look = False         # at the pictures given to bmp2dhr
        self.bad_picture = None
        self.converting = False   # the stand-in for bmp2dhr is at work
        skvideo.io.FFmpegReader = self._reader
        skvideo.io.ffprobe = self._probe
        world = self

        real = subprocess.Popen

        def popen(args, *a, **k):
            if not isinstance(args, str) and \
                    BMP2DHR in os.path.basename(str(args[0])):
                return FakePopen(world, [str(x) for x in args])
            return real(args, *a, **k)

        import librosa  # noqa: looks for libraries with real programs
        subprocess.Popen = popen

    def _probe(self, filename, *a, **k):
        return {"video": {"@r_frame_rate": self.rate}}

    def _reader(self, filename, *a, **k):
        return Reader(self)

    def image(self, i):
        """A small image whose colour identifies frame i."""
        res = np.full((8, 8, 3), [(i * 16) & 0xF0 | 8,
                                  (i & 0xF0) | 8,
                                  ((i >> 4) & 0xF0) | 8], dtype=np.uint8)
        for y, x, colour in CORNERS:
            res[y, x] = colour
        return res

    @staticmethod
    def ident(rgb):
        r, g, b = (int(x) >> 4 for x in rgb)
        return r | g << 4 | b << 8


class Reader:
    def __init__(self, world):
        self.world = world

    def getShape(self):
        return (len(self.world.frames), 8, 8, 3)

    def nextFrame(self):
        w = self.world
        for i in range(len(w.frames)):
            if w.fault:
                w.fault("read", i)
            yield w.image(i)
        if w.fault:
            w.fault("read-end", len(w.frames))

    def close(self):
        pass


class FakePopen:
    """Stands in for a run of bmp2dhr."""

    def __init__(self, world, args):
        self.returncode = None
        self.world = world
        self.args = args
        world.converting = True
        try:
            self.work()
        finally:
            world.converting = False

    def work(self):
        w = self.world
        bmp, mode = self.args[1], self.args[2]
        from PIL import Image
        with Image.open(bmp) as im:
            size = im.size
            idx = World.ident(im.convert("RGB").getpixel((100, 100)))
            if w.look:
                w.bad_picture = whole_picture(im) or w.bad_picture
        w.calls.append((idx, tuple(self.args), size))
        stem = bmp[:-4]
        if mode == "hgr":
            outs = [(stem + "C.BIN", w.frames[idx][0])]
        elif mode == "dhgr" and "A" in self.args[3:]:
            outs = [(stem + ".BIN", w.frames[idx][0]),
                    (stem + ".AUX", w.frames[idx][1])]
        else:
            raise ValueError("bmp2dhr called with %r" % (self.args,))
        for path, data in outs:
            if w.fault:
                data = w.fault("output", (path, data, idx)) or data
            with open(path, "wb") as f:
                f.write(bytes(data))
        self.returncode = 0
        if w.fault:
            rc = w.fault("exit", idx)
            if rc:
                self.returncode = rc

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def wait(self, timeout=None):
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        return b"", b""

    def kill(self):
        pass


def write_wav(path, samples, rate=14700, channels=1):
    """samples: int16 sequence, interleaved if more than one channel."""
    with wave.open(path, "wb") as f:
        f.setnchannels(channels)
        f.setsampwidth(2)
        f.setframerate(rate)
        f.writeframes(np.asarray(samples, dtype="<i2").tobytes())


class Exited(Exception):
    """The program ended with a status other than 0."""


def program(*argv):
    """Runs the transcoder as the program it is, in this process."""
    path = os.path.join(env.REPO, "transcoder", "main.py")
    saved = sys.argv
    sys.argv = [path] + [str(a) for a in argv]
    try:
        runpy.run_path(path, run_name="__main__")
    except SystemExit as e:
        if e.code:
            raise Exited(str(e.code))
    finally:
        sys.argv = saved


class Pieces:
    """An audio decoder that hands a WAV file out in pieces of some bytes.

    Like the one that runs ffmpeg, which takes no notice of samples.
    """

    size = 8192

    def __init__(self, path):
        with wave.open(path, "rb") as f:
            self.channels = f.getnchannels()
            self.samplerate = f.getframerate()
            self._data = f.readframes(f.getnframes())
        self.duration = len(self._data) / (
            2.0 * self.channels * self.samplerate)

    def read_data(self, *a, **k):
        for i in range(0, len(self._data), self.size):
            yield self._data[i:i + self.size]

    __iter__ = read_data

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    @classmethod
    def install(cls, size):
        """size: bytes per piece, or None for the real decoders."""
        import audioread
        del audioread.BACKENDS[:]
        if size:
            audioread.BACKENDS[:] = [type("Pieces%d" % size, (cls,),
                                          dict(size=size))]


# --- an independent decoder of the stream format ---------------------------

class BadStream(Exception):
    pass


class Codec:
    """Address tables of the player opcodes, as the transcoder emits them."""

    def __init__(self):
        env.use_transcoder()
        import machine
        import opcodes
        self.o = opcodes

        def addr(op):
            raw = bytes(int(x) for x in machine.Machine().emit(op))
            return raw[0] << 8 | raw[1]

        self.ticks = {}
        for (t, p), cls in opcodes.TICK_OPCODES.items():
            self.ticks[addr(cls(0, (0, 0, 0, 0)))] = (t, p)
        self.ack = addr(opcodes.Ack(False))
        self.nop = addr(opcodes.Nop())
        self.term = addr(opcodes.Terminate())
        known = set(self.ticks) | {self.ack, self.nop, self.term}
        if len(known) != 1024 + 3:
            raise BadStream("opcode addresses are not distinct")

    def parse(self, data):
        """Returns (mode byte, list of ops); raises BadStream.

        ops: (tick, page, content, offsets), ("ack", switch), ("nop",),
        ("end", position).
        """
        n = len(data)
        if n < 7:
            raise BadStream("only %d bytes" % n)
        mode = data[6]
        ops = []
        pos = 7
        while True:
            if pos + 2 > n:
                raise BadStream("stream stops without a terminator at %d" %
                                pos)
            a = data[pos] << 8 | data[pos + 1]
            frame_end = (pos // 2048 + 1) * 2048
            if a in self.ticks:
                if pos + 7 > n:
                    raise BadStream("opcode cut short at %d" % pos)
                if pos + 7 > frame_end - 4:
                    raise BadStream("opcode at %d leaves no room for the "
                                    "acknowledgement" % pos)
                t, p = self.ticks[a]
                ops.append((t, p, data[pos + 2], tuple(data[pos + 3:pos + 7])))
                pos += 7
            elif a == self.ack:
                if pos != frame_end - 4:
                    raise BadStream("acknowledgement at %d, not in the last "
                                    "four bytes of a frame" % pos)
                if pos + 4 > n:
                    raise BadStream("acknowledgement cut short")
                ops.append(("ack", data[pos + 2]))
                pos += 4
            elif a == self.nop:
                ops.append(("nop",))
                pos += 2
            elif a == self.term:
                ops.append(("end", pos))
                return mode, ops
            else:
                raise BadStream("unknown opcode address $%04X at %d" % (
                    a, pos))
            if pos % 2048 > 2044:
                raise BadStream("frame boundary missed at %d" % pos)

    def check_framing(self, data, mode_value):
        """Complete well-formedness; returns the list of tick ops."""
        if len(data) % 2048:
            raise BadStream("stream is %d bytes, not a multiple of 2048" %
                            len(data))
        mode, ops = self.parse(data)
        if mode != mode_value:
            raise BadStream("header mode %d" % mode)
        if len(data) - (ops[-1][1] + 2) > 2048:
            raise BadStream("%d bytes after the terminator" % (
                len(data) - ops[-1][1] - 2))
        bank = 0
        ticks = []
        for op in ops[:-1]:
            if op[0] == "ack":
                bank ^= 1 if mode_value else 0
                if op[1] != 0x54 + bank:
                    raise BadStream(
                        "acknowledgement %d switches $C0%02X, expected "
                        "$C0%02X" % (len(ticks), op[1], 0x54 + bank))
            elif op[0] == "nop":
                raise BadStream("unexpected no-op")
            else:
                ticks.append(op + (bank,))
        return ticks
