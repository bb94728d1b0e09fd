"""C20: the transcoder writes next to its input and nowhere else.

Every input name up to a length over letters, dots and slashes is transcoded
by the real main program inside a scratch tree with sentinel files; the tree
before and after is compared.  Also every pair of mode/palette for one input
(their frames are kept apart) and explicit output files.
"""

import contextlib
import io
import itertools
import os
import shutil
import sys
import types

from vlib import enc, env, report, world
from checks import c18, c19

_w = _codec = None


def setup():
    global _w, _codec
    _w = world.World()
    _codec = world.Codec()
    import main  # noqa: F401
    sys.addaudithook(audit)


def valid(name):
    last = name.split("/")[-1]
    return not name.startswith("/") and last not in ("", ".", "..")


def tree(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            res[os.path.join(d, x)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p, "rb") as f:
                res[p] = f.read()
    return res


def transcode(path, mode, pal, output=None):
    import palette
    import video_mode
    with contextlib.redirect_stderr(io.StringIO()):
        world.program(
            path, "--video_mode", video_mode.VideoMode(mode).name,
            "--palette", palette.Palette(pal).name, "--audio_normalization",
            "1.0", *(["--output", output] if output else []))


_written = None     # while recording: every path opened for writing


def audit(event, args):
    if _written is None or event != "open":
        return
    path, mode, flags = args
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    if isinstance(path, str) and (
            set("wax+") & set(mode or "") if mode else
            flags & (os.O_WRONLY | os.O_RDWR)):
        _written.add(os.path.abspath(path))


def name_case(case, part):
    """Transcode; then again where every file written in passing is taken."""
    global _written
    _written = set()
    try:
        left = name_run(case, part, {})
        took = _written
    finally:
        _written = None
    if left is None or part.nviol:
        return
    before, after = left
    taken = {}
    for p in took:
        if os.path.dirname(p) in before and p not in before and \
                p not in after:
            taken[p] = ("a user's file: " + p).encode()
    if taken:
        name_run(case, part, taken)


def name_run(case, part, taken):
    """Returns the tree before and after, or None if something is wrong."""
    name, relative, mode = case["name"], case["relative"], case["mode"]
    out = case.get("output")
    root = os.path.join(env.scratch(), env.unique("c20"))
    shutil.rmtree(root, ignore_errors=True)
    base = os.path.join(root, "p", "q", "r", "s", "t", "u")
    os.makedirs(base)
    path = base + "/" + name
    os.makedirs(os.path.dirname(path), exist_ok=True)
    home = os.path.realpath(os.path.dirname(path))
    d = base
    while d.startswith(root):
        with open(os.path.join(d, "keep"), "w") as f:
            f.write("keep")
        d = os.path.dirname(d)
    with open(os.path.join(home, "keep"), "w") as f:
        f.write("keep")
    world.write_wav(path, [0] * 20)
    for p, data in taken.items():
        with open(p, "wb") as f:
            f.write(data)
    before = tree(root)
    _w.frames = c18.pics(2, mode)
    _w.frames = [(bytes(8192), bytes(8192) if mode else None)] * 2
    _w.rate = "3000/1"
    cwd = os.getcwd()
    outpath = base + "/" + out if out else None
    refused = False
    try:
        if relative:
            os.chdir(base)
        try:
            transcode(name if relative else path, mode, 5,
                      (out if relative else outpath) if out else None)
        finally:
            os.chdir(cwd)
    except Exception as e:
        if report.interface_changed(e):
            raise
        if not case.get("refusable"):
            part.violation(case, "transcoding %r: %s" % (
                name, report.brief_tb()))
            return
        refused = True
    after = tree(root)
    part.count(states=1, transitions=len(after) - len(before), traces=1)
    for p, data in before.items():
        if p not in after or after[p] != data:
            part.violation(case, "transcoding %r %s %s" % (
                name, "removed" if p not in after else "overwrote",
                os.path.relpath(p, base)))
            return
    new = [p for p in after if p not in before]
    if refused and not any(after[p] is not None for p in new):
        shutil.rmtree(root, ignore_errors=True)
        return
    streams = []
    for p in new:
        if outpath and os.path.realpath(outpath) == p:
            streams.append(p)
            continue
        if not p.startswith(home + os.sep):
            part.violation(case, "transcoding %r created %s, outside the "
                           "directory of the input" % (
                               name, os.path.relpath(p, base)))
            return
        if after[p] is not None and not out and os.path.dirname(p) == home:
            streams.append(p)
    if len(streams) != 1:
        part.violation(case, "transcoding %r left %d streams (%s)" % (
            name, len(streams), sorted(os.path.relpath(p, base)
                                       for p in new)))
        return
    if not out and not case.get("refusable"):
        stem = os.path.splitext(os.path.basename(path))[0]
        if os.path.basename(streams[0]) != stem + ".a2m":
            part.violation(case, "transcoding %r wrote %s" % (
                name, os.path.basename(streams[0])))
            return
    try:
        n = len(_codec.check_framing(after[streams[0]], mode))
        part.outcome("stream of %d opcodes" % n)
    except world.BadStream as e:
        part.violation(case, "transcoding %r: %s" % (name, e))
    shutil.rmtree(root, ignore_errors=True)
    return before, after


def shared_stem(case, part):
    """Two inputs that differ in their suffix only."""
    root = os.path.join(env.scratch(), "c20s_%d" % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    first, second = case["stem"]
    texts = []
    for name, pal in ((first, 0), (second, 5)):
        # Same palette, other content.
        def fn(name=name, pal=pal):
            import frame_grabber
            import palette
            import video_mode
            want = c19.wanted(0, pal, 2)
            _w.frames = want
            fg = frame_grabber.FileFrameGrabber(
                os.path.join(root, name), video_mode.VideoMode(0),
                palette.Palette(5))
            got = [(c18.contents(m), c18.contents(a))
                   for m, a in fg.frames()]
            return "" if got == want else "wrong frames"
        texts.append(c19.child(fn))
    part.count(states=1, traces=1, transitions=4)
    if any(texts):
        same = os.path.splitext(first)[0] == os.path.splitext(second)[0] and \
            os.path.splitext(first)[1] and os.path.splitext(second)[1]
        part.violation(case, "%s and then %s: %s" % (first, second, texts),
                       "same-stem" if same and texts == ["", "wrong frames"]
                       else None)
    shutil.rmtree(root, ignore_errors=True)


def group(cases, part):
    for c in cases:
        if "stem" in c:
            shared_stem(c, part)
        else:
            name_case(c, part)
        if part.nviol > 4:
            return


def run(chk):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    deep = chk.thorough
    cases = []
    top = 6 if deep else 5
    for n in range(1, top + 1):
        for t in itertools.product("ab./", repeat=n):
            name = "".join(t)
            if not valid(name):
                continue
            if n == top and "b" in name and not deep:
                continue
            cases.append(dict(name=name, relative=False, mode=len(name) & 1))
            if n < top - 1:
                cases.append(dict(name=name, relative=True, mode=n & 1))
    # Every printable character anywhere in the name.
    for c in [chr(k) for k in range(32, 127) if chr(k) not in "/."] + [
            "\t", "\n"]:
        for name in (c + ".mp4", "a" + c + "b.mp4", c, "a." + c,
                     "d" + c + "/a.mp4", "a" + c + c + ".mp4",
                     "a" + c + ".b" + c + ".mp4"):
            cases.append(dict(name=name, relative=False, mode=ord(c[0]) & 1))
            if not name.startswith("-") and (deep or len(name) < 6):
                cases.append(dict(name=name, relative=True,
                                  mode=len(name) & 1))
    for name in ("a", "a.mp4", ".a", "b/a.x", "../a.mp4", "a.b.c", "a b.mp4",
                 "a%s.mp4", "a{}.mp4", "a.MP4", "-a.mp4"):
        for mode in (0, 1):
            if not name.startswith("-"):
                cases.append(dict(name=name, relative=True, mode=mode))
            cases.append(dict(name=name, relative=False, mode=mode))
            for out in ("o", "o.a2m", "../o.a2m", "../../x.y"):
                cases.append(dict(name=name, relative=bool(
                    mode and name[0] != "-"), mode=mode, output=out))
    # The stream would take the place of the input: not at all, or elsewhere.
    for name, out in (("a.a2m", None), ("b/a.a2m", None), ("a.b.a2m", None),
                      ("../a.a2m", None), ("a.mp4", "a.mp4"),
                      ("a.mp4", "./a.mp4"), ("a", "../u/a"),
                      ("a.a2m", "a.a2m")):
        for mode in (0, 1):
            for relative in (False, True):
                cases.append(dict(name=name, relative=relative, mode=mode,
                                  refusable=True,
                                  **(dict(output=out) if out else {})))
    names = ["a", "b", "a.x", "a.y", "a.x.y", ".a", "a.", "b.x", "a.x.x",
             "aa.x", "a.yx"]
    for x, y in itertools.permutations(names, 2):
        cases.append(dict(stem=[x, y]))
    chk.assumptions += ["no symbolic links; a file that has the name of the "
                        "directory for the frames does not exist"]
    report.pmap(chk, group, [cases[i::64] for i in range(64)])
    chk.sample(cases[40])
    chk.sample(cases[-1])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all input names up to %d characters of a b . /, " \
        "and names with each printable character in seven places" % top


def replay(case, part):
    setup()
    enc.load("HGR", 5)
    enc.load("DHGR", 5)
    group([case], part)
