"""Edit distance tables for the encoder, built from the current tree.

The repository's generator takes hours in Python; here its own functions give
the pixel strings and the substitution costs, csrc/editdist.c does only the
dynamic programming, and a deterministic sample of entries is compared with
the repository's edit_distance().  C17 checks the generator itself.
"""

import mmap
import os
import subprocess
import zipfile

import numpy as np

from vlib import env


def pixel_strings(cls, nominal):
    import colours
    n = 1 << int(cls.MASKED_BITS)
    length = int(cls.MASKED_DOTS)
    out = bytearray()
    for o, ph in enumerate(cls.PHASES):
        for v in range(n):
            dots = cls.to_dots(v, byte_offset=o)
            s = colours.dots_to_nominal_colour_pixel_values(
                cls.MASKED_DOTS, dots, nominal, init_phase=ph)
            assert len(s) == length
            out += bytes(s)
    return n, length, bytes(out)


def build(mode, palette_id, full):
    """Writes a raw .npy table; returns (path, conformance mismatches)."""
    env.use_transcoder()
    import colours
    import make_data_tables as mdt
    import palette
    import screen

    cls, nominal = {
        "HGR": (screen.HGRBitmap, colours.HGRColours),
        "DHGR": (screen.DHGRBitmap, colours.DHGRColours)}[mode]
    pal = palette.PALETTES[palette.Palette(palette_id)]
    edp = mdt.compute_substitute_costs(pal)
    cost = np.zeros((16, 16), dtype=np.uint32)
    for i in range(16):
        for j in range(16):
            cost[i, j] = int(edp.substitute_costs[
                ord(mdt.pixel_char(i)), ord(mdt.pixel_char(j))])
    n, length, px = pixel_strings(cls, nominal)
    noff = len(cls.PHASES)

    raw = os.path.join(env.scratch(), "%s_%d_%d.npy" % (
        mode, palette_id, bool(full)))
    with open(raw, "wb") as f:
        np.lib.format.write_array_header_1_0(f, {
            "descr": "<u2", "fortran_order": False, "shape": (noff, n * n)})
        assert f.tell() % 64 == 0
    p = subprocess.run(
        [env.ctool("editdist"), raw, str(noff), str(n), str(length),
         str(env.NCPU), "1" if full else "0"], input=cost.tobytes() + px)
    if p.returncode:
        raise RuntimeError("editdist failed (%d)" % p.returncode)

    # Conformance with the repository's own distance on a fixed sample.
    tab = np.load(raw, mmap_mode="r")
    bad = 0
    for k in range(400):
        o = k % noff
        i = 1 + (k * 2654435761 >> 7) % (n - 1)
        j = (k * 40503 * 2654435761 >> 11) % i
        a = px[(o * n + i) * length:(o * n + i + 1) * length]
        b = px[(o * n + j) * length:(o * n + j + 1) * length]
        d = mdt.edit_distance(edp, mdt.pixel_string(tuple(a)),
                              mdt.pixel_string(tuple(b)), error=False)
        if int(d) != int(tab[o, (i << int(cls.MASKED_BITS)) + j]):
            bad += 1
    del tab
    return raw, bad


def file_name(name, palette_id):
    return "transcoder/data/%s_palette_%d_edit_distance.npz" % (
        name, palette_id)


def write_npz(mode, palette_id):
    """The table file as make_data_tables.py would write it."""
    raw, bad = build(mode, palette_id, False)
    with zipfile.ZipFile(file_name(mode, palette_id), "w",
                         zipfile.ZIP_STORED, True) as z:
        z.write(raw, "edit_distance.npy")
    os.remove(raw)
    return bad


def loader_is_plain():
    """True if the repository's loader symmetrises a small table correctly."""
    import palette
    import screen
    bits = 5
    n = 1 << bits
    tab = np.zeros((2, n * n), dtype=np.uint16)
    for o in range(2):
        for i in range(n):
            for j in range(i):
                tab[o, (i << bits) + j] = 1 + (i * 37 + j * 11 + o * 7) % 900
    name = file_name("TINY", 5)
    np.savez_compressed(name, edit_distance=tab)
    try:
        tiny = type("Tiny", (screen.Bitmap,), dict(
            NAME="TINY", MASKED_BITS=np.uint64(bits),
            BYTE_MASKS=[np.uint64(31), np.uint64(31 << 5)],
            PHASES=[0, 1]))
        got = tiny.edit_distances(palette.Palette.NTSC)
        want = tab.reshape(2, n, n)
        want = want + want.transpose(0, 2, 1)
        return np.array_equal(np.asarray(got).reshape(2, n, n), want)
    except Exception:
        return False
    finally:
        os.remove(name)


def load(mode, palette_id):
    """Makes the encoder's table available; returns how.

    The repository's loader needs 10-20 GB for the HGR table.  If it does the
    right thing on a small table, the full table is mapped from disk in its
    place; if not, the real loader is used so that its result is judged.
    """
    env.use_transcoder()
    import palette
    import screen
    cls = screen.HGRBitmap if mode == "HGR" else screen.DHGRBitmap
    pid = palette.Palette(palette_id)
    if "edit_distances" in screen.Bitmap.__dict__ and loader_is_plain():
        raw, bad = build(mode, palette_id, True)
        with open(raw, "rb") as f:
            head = 64
            f.seek(8)
            head = 10 + int.from_bytes(f.read(2), "little")
            mm = mmap.mmap(f.fileno(), 0, access=mmap.ACCESS_READ)
        os.remove(raw)
        tab = np.frombuffer(mm, dtype="<u2", offset=head).reshape(
            len(cls.PHASES), -1)
        cached = cls.__dict__.get("_verif_tables")
        if cached is None:
            cached = {}
            cls._verif_tables = cached
            cls.edit_distances = classmethod(
                lambda c, p, t=cached: t[p])
        cached[pid] = tab
        return "mapped"
    write_npz(mode, palette_id)
    cls.edit_distances(pid)
    os.remove(file_name(mode, palette_id))
    return "repository loader"
