"""C25: opcodes carry the addresses of the player's routines, in any build.

The player is built with its code at several places; with each build's debug
information the transcoder's opcodes are loaded afresh, and every one of the
1028 is compared with the linker's label and, for the 1024 that play, executed
in that build.  The debug information is then varied: lines in other orders,
symbols with similar names in between, each opcode's symbol missing in turn.
"""

import os
import re
import sys

from vlib import apple, env, play, report
from checks import c01

PLACES = (None, ("start = $4000", "start = $4001"),
          ("start = $4000", "start = $4100"),
          ("start = $4000", "start = $43F3"),
          ("start = $2000", "start = $2003"))
TICKS = [(t, p) for t in range(4, 68, 2) for p in range(32, 64)]
OWN = ("header", "terminate", "nop", "ack")
NAMES = OWN + tuple("tick_%d_page_%d" % k for k in TICKS)
_cache = {}


def build(place):
    """The player as linked with another configuration."""
    if place not in _cache:
        def edit(d):
            if place:
                name = os.path.join(d, "apple2-asm-hgr.cfg")
                with open(name) as f:
                    text = f.read()
                if place[0] not in text:
                    raise RuntimeError("no %s in the linker's configuration" %
                                       place[0])
                with open(name, "w") as f:
                    f.write(text.replace(*place))
        _cache[place] = apple.Player(edit)
    return _cache[place]


def load(table):
    """The transcoder's opcodes, loaded with this debug information."""
    d = os.path.join(env.scratch(), "table%d" % os.getpid())
    os.makedirs(os.path.join(d, "player"), exist_ok=True)
    with open(os.path.join(d, "player", "iivision.dbg"), "w") as f:
        f.write(table)
    env.use_transcoder()
    here = os.path.join(env.REPO, "transcoder")
    for name, m in list(sys.modules.items()):
        f = getattr(m, "__file__", None)
        if f and os.path.dirname(os.path.abspath(f)) == here:
            del sys.modules[name]
    os.chdir(d)
    try:
        import opcodes
        return opcodes
    finally:
        os.chdir(env.scratch())


def addresses(o):
    """What is sent to have each opcode executed."""
    nop = play.emit(o.Nop())
    res = {"nop": nop, "terminate": play.emit(o.Terminate())}
    for aux in (False, True):
        raw = play.emit(o.Ack(aux))
        if len(raw) != 4 or raw[2] != (0x55 if aux else 0x54):
            raise report.CaseFailed("ACK is sent as %s" % raw.hex())
        if res.setdefault("ack", raw[:2]) != raw[:2]:
            raise report.CaseFailed("ACK is at two addresses")
    for t, p in TICKS:
        raw = play.emit(o.TICK_OPCODES[(t, p)](0x12, (1, 2, 3, 4)))
        if raw[2:] != bytes([0x12, 1, 2, 3, 4]):
            raise report.CaseFailed("opcode %d/%d is sent as %s" % (
                t, p, raw.hex()))
        res["tick_%d_page_%d" % (t, p)] = raw[:2]
    for name, raw in res.items():
        if name in ("nop", "terminate") and len(raw) != 2:
            raise report.CaseFailed("%s is sent as %s" % (name, raw.hex()))
    return {k: v[0] << 8 | v[1] for k, v in res.items()}


def compare(o, labels, part, case, what):
    got = addresses(o)
    part.count(states=len(got), transitions=len(got))
    for name in NAMES:
        if name != "header" and got[name] != labels["op_" + name]:
            part.violation(case, "%s: %s is sent as $%04X, the player has it "
                           "at $%04X" % (what, name, got[name],
                                         labels["op_" + name]))
            return False
    return True


def relocated(item, part):
    """A build with the code elsewhere, every opcode executed."""
    _, place = item
    case = dict(relocated=[place])
    player = build(place and tuple(place))
    o = load(player.table)
    if not compare(o, player.labels, part, case, "built with %s" % (place,)):
        return
    r = c01.Runner(player)
    nop = r.starts[(34, 32)]
    for k, (t, p) in enumerate(TICKS):
        r.m.cpu.pc = r.starts[(t, p)]
        r.m.cpu.x = 0
        msg, gap = r.run(t, p, k & 255, (9, 8, 7, k >> 2), nop)
        part.count(transitions=1)
        if msg is None and abs(gap - t) > 1:    # exactly t: C01
            msg = "speaker toggles %d cycles apart" % gap
        if msg:
            part.violation(case, "built with %s, opcode %d/%d: %s" % (
                place, t, p, msg))
            return
    part.count(traces=1)
    part.outcome("build")


def variants(table):
    """Debug information that says the same."""
    lines = table.split("\n")
    syms = [x for x in lines if x.startswith("sym")]
    rest = [x for x in lines if not x.startswith("sym") and x]
    name = lambda x: re.search(r'name="([^"]*)"', x).group(1)  # noqa: E731
    yield "symbols first", syms + rest
    yield "symbols last", rest + syms
    yield "backwards", rest + syms[::-1]
    yield "by name", rest + sorted(syms, key=name)
    yield "by name, backwards", rest + sorted(syms, key=name)[::-1]
    for k in (len(syms) // 3, len(syms) // 2, len(syms) - 1):
        yield "rotated by %d" % k, rest + syms[k:] + syms[:k]
    yield "symbols only", syms
    ops = [x for x in syms if name(x).startswith("op_")]
    yield "opcodes only", rest + ops
    decoys = [re.sub(r'name="[^"]*"', 'name="%s"' % n,
                     re.sub(r"val=0x[0-9A-F]+", "val=0x1234", ops[0]))
              for n in ("op_nop2", "op_acknowledge", "xop_ack", "op_tick",
                        "op_header_end", "op_tick_4_page_3", "OP_ACK",
                        "op_tick_4_page_320", "tick_4_page_32", "op__ack",
                        "op_tick_34_page_032", "ack", "op_",
                        "op_tick_68_page_32", "op_tick_4_page_64")]
    yield "similar names before", rest + decoys + syms
    yield "similar names after", rest + syms + decoys
    yield "short numbers", [re.sub(r"val=0x0+(?=[0-9A-F])", "val=0x", x)
                            for x in lines]
    yield "long numbers", [re.sub(r"val=0x([0-9A-F]+)", lambda m: "val=0x" +
                                  m.group(1).rjust(4, "0"), x) for x in lines]


def described(item, part):
    """The same build, its debug information written differently."""
    _, k = item
    player = build(None)
    what, lines = list(variants(player.table))[k]
    case = dict(described=[k])
    o = load("\n".join(lines) + "\n")
    if compare(o, player.labels, part, case, what):
        part.count(traces=1)
        part.outcome("description")


def missing(item, part):
    """A player without one of the opcodes is refused."""
    _, lo, hi = item
    player = build(None)
    lines = player.table.split("\n")
    for name in NAMES[lo:hi]:
        cut = [x for x in lines if '"op_%s"' % name not in x]
        if len(cut) != len(lines) - 1:
            raise RuntimeError("%s is there %d times" % (
                name, len(lines) - len(cut)))
        part.count(states=1, transitions=1)
        case = dict(missing=[NAMES.index(name), NAMES.index(name) + 1])
        try:
            o = load("\n".join(cut))
        except ImportError:
            raise
        except Exception:
            part.count(traces=1)
            part.outcome("refused")
            continue
        if name == "header":
            continue                    # never sent as an address
        try:
            cls = getattr(o, name.capitalize(), None)
            if cls is None:
                t, p = re.findall(r"\d+", name)
                op = o.TICK_OPCODES[(int(t), int(p))](1, (1, 2, 3, 4))
            else:
                op = cls(False) if name == "ack" else cls()
            raw = play.emit(op)
        except Exception:
            part.count(traces=1)
            part.outcome("refused when used")
            continue
        part.violation(case, "the player has no %s, it is sent as %s" % (
            name, raw.hex()))
        return


PARTS = dict(relocated=relocated, described=described, missing=missing)


def work(item, part):
    case = {item[0]: list(item[1:])}
    try:
        PARTS[item[0]](item, part)
    except report.CaseFailed:
        raise
    except Exception as e:
        if report.interface_changed(e):
            raise
        part.violation(case, report.brief_tb())


def run(chk):
    env.use_transcoder()
    items = []
    for place in PLACES:
        build(place)
        items.append(("relocated", place))
    for k in range(len(list(variants(build(None).table)))):
        items.append(("described", k))
    described_n = len(items) - len(PLACES)
    step = 16
    for lo in range(0, len(NAMES), step):
        items.append(("missing", lo, min(lo + step, len(NAMES))))
    chk.assumptions += ["debug information as ld65 writes it, one symbol per "
                        "opcode"]
    report.pmap(chk, work, items)
    chk.sample({"relocated": PLACES[1]})
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = ("all 1028 opcodes in %d builds and %d descriptions; "
                          "each of %d opcodes missing" % (
                              len(PLACES), described_n,
                              len(NAMES)))


def replay(case, part):
    env.use_transcoder()
    for k in PARTS:
        if k in case:
            work((k,) + tuple(tuple(x) if isinstance(x, list) else x
                              for x in case[k]), part)
