"""C18: frames come out of the background converter once each, in order.

The real frame grabber's threads run under a controlled scheduler; all
interleavings of its queue operations, conversions and the consumer's steps
are explored, for videos of every length around the queue's capacity, both
modes, consumers that stop early, and a fault at every event.
"""

import logging
import os
import shutil

import numpy as np

from vlib import env, report, sched, world

_w = None


def setup():
    global _w
    _w = world.World()
    import frame_grabber  # noqa: F401


def picture(k, aux):
    return bytes(((k * 37 + aux * 101 + i * (k % 7 + 1) + (i >> 8)) & 0x7F)
                 for i in range(8192))


_pics = {}


def pics(n, mode):
    for k in range(n):
        if (k, mode) not in _pics:
            _pics[k, mode] = (picture(k, 0), picture(k, 1) if mode else None)
    return [_pics[k, mode] for k in range(n)]


def contents(mm):
    return None if mm is None else np.asarray(
        mm.page_offset).astype(np.uint8).tobytes()


class Fault(Exception):
    pass


def execute(case, s, name):
    """One execution; returns what is wrong, or None."""
    import frame_grabber
    import palette
    import video_mode

    n, mode, stop = case["frames"], case["mode"], case.get("stop")
    fault = case.get("fault")
    _w.frames = pics(n, mode)
    _w.calls = []
    _w.look, _w.bad_picture = True, None
    fired = []

    def event(kind, detail):
        if kind == "output":
            k = detail[2]
        else:
            k = detail
        if not case.get("cached"):
            sched.point(kind)
        if fault and fault[0] == kind and fault[1] == k:
            fired.append(1)
            what = fault[2]
            if what == "raise":
                raise Fault("injected")
            if what == "short":
                return detail[1][:4096]
            if what == "empty":
                return b"\0"
            if what == "code":
                return 1
        return None

    _w.fault = event
    got = []
    held = []
    ended = []

    def consumer():
        fg = frame_grabber.FileFrameGrabber(
            name + ".mp4", video_mode.VideoMode(mode), palette.Palette(5))
        it = fg.frames()
        for item in it:
            main, aux = item
            got.append((contents(main), contents(aux)))
            held.append((main, aux))
            if not case.get("cached"):
                sched.point("use")
            if stop is not None and len(got) >= stop:
                it.close()
                return "stopped"
        ended.append(1)
        return "end"

    error = None
    try:
        with sched.Patched(s, [frame_grabber]):
            s.run(consumer)
    except sched.Pruned:
        raise
    except sched.Deadlock as e:
        error = "hangs: %s" % e
    except sched.Livelock as e:
        error = "never ends: %s" % e
    except Exception as e:
        if report.interface_changed(e):
            raise
        error = e
    finally:
        _w.fault = None
        if not case.get("cached"):
            shutil.rmtree(name, ignore_errors=True)

    if isinstance(error, str):
        return error
    want = pics(n, mode)
    if got != want[:len(got)]:
        bad = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
        if not bad:
            return "%d frames delivered of %d" % (len(got), n)
        i = bad[0]
        where = [k for k, p in enumerate(want) if p == got[i]]
        return "frame %d delivered wrong (%s)" % (
            i, "it is frame %d" % where[0] if where else "not any frame")
    for i, (m, a) in enumerate(held):
        if (contents(m), contents(a)) != want[i]:
            return "frame %d changed after it was delivered" % i
    if fired:
        if fault[2] == "code":
            # bmp2dhr's exit status is not meaningful.
            return None
        if error is None and not (stop is not None and len(got) >= stop):
            return "frame %d could not be converted, and nobody noticed" % \
                fault[1]
        if len(got) > fault[1]:
            return "%d frames delivered, frame %d had failed" % (
                len(got), fault[1])
        return None
    if error is not None:
        return "%s: %s" % (type(error).__name__, error)
    if _w.bad_picture:
        return "the picture given to bmp2dhr " + _w.bad_picture
    if stop is None and len(got) != n:
        return "%d frames delivered of %d" % (len(got), n)
    return None


def work(case, part):
    name = "c18_%d" % os.getpid()
    shutil.rmtree(name, ignore_errors=True)
    if case.get("cached"):
        s = sched.Sched()
        text = execute(case, s, name)
        if text:
            part.violation(dict(case, schedule=[]), text)
            return

    def files():
        res = []
        for d, _, fs in os.walk(name):
            for f in fs:
                res.append((f, os.stat(os.path.join(d, f)).st_size))
        return tuple(sorted(res))

    if case.get("long"):
        # Staying with a thread as long as it can go on, and changing often.
        for order in ([], [1] * 20000, [0, 1] * 10000):
            s = sched.Sched(order)
            text = execute(case, s, name)
            part.count(traces=1, transitions=case["frames"])
            if text:
                part.violation(case, text)
                break
        part.outcome("long video")
    elif "schedule" in case:
        s = sched.Sched(case["schedule"])
        text = execute(case, s, name)
        if text:
            part.violation(case, text)
    else:
        found, st = sched.explore(lambda s: execute(case, s, name),
                                  limit=case.get("limit"), extra_key=files,
                                  seconds=case.get("seconds"))
        part.count(states=st["states"], transitions=st["ops"],
                   traces=st["schedules"])
        part.outcome("fault" if case.get("fault") else "stopped early"
                     if case.get("stop") is not None else "complete")
        if not st["complete"] and not found:
            part.outcome("bound hit")
        for schedule, text in found:
            part.violation(dict(case, schedule=schedule), text)
    shutil.rmtree(name, ignore_errors=True)


def cases(deep):
    res = []
    for mode in (0, 1):
        for n in range(0, 6 if deep else 4):
            res.append(dict(mode=mode, frames=n))
        for n in (9, 10, 11, 12, 13, 25) if deep else (10, 11, 13):
            res.append(dict(mode=mode, frames=n, cached=True))
            if n >= 10:
                for stop in (1, n - 1, n):
                    res.append(dict(mode=mode, frames=n, cached=True,
                                    stop=stop))
        res.append(dict(mode=mode, frames=14, cached=True, stop=1))
        for n in (99, 101, 300):
            res.append(dict(mode=mode, frames=n, cached=True, long=True))
        for n in (1, 2, 3):
            for stop in range(1, n):
                res.append(dict(mode=mode, frames=n, stop=stop))
            faults = [("read", k, "raise") for k in range(n)]
            faults.append(("read-end", n, "raise"))
            for k in range(n):
                for what in ("raise", "short", "empty"):
                    faults.append(("output", k, what))
                faults.append(("exit", k, "raise"))
                faults.append(("exit", k, "code"))
            for f in faults:
                res.append(dict(mode=mode, frames=n, fault=f))
        for k in (0, 5, 10, 11):
            res.append(dict(mode=mode, frames=12, cached=True,
                            fault=("read", k, "raise")))
    return res


def run(chk):
    setup()
    cs = cases(chk.thorough)
    chk.assumptions += [
        "threads interact only through queue and threading objects and the "
        "file system; code between two such operations is atomic"]
    for c in cs:
        c["seconds"] = 300 if chk.thorough else 20
    # Executors of the standard library report threads we take down.
    logging.getLogger("concurrent.futures").setLevel(logging.CRITICAL + 1)
    report.pmap(chk, work, sorted(cs, key=lambda c: -c["frames"]))
    chk.sample(cs[2])
    chk.sample(cs[-1])
    chk.extra["exhaustive"] = "bound hit" not in chk.outcomes
    chk.extra["bound"] = ("all interleavings for 0..%d frames; with frames "
                          "already converted up to %d; at most %d s each" % (
                              5 if deep(chk) else 3, 25 if deep(chk) else 14,
                              cs[0]["seconds"]))


def deep(chk):
    return chk.thorough


def replay(case, part):
    setup()
    if case.get("fault"):
        case["fault"] = tuple(case["fault"])
    work(case, part)
