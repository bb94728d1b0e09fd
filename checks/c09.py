"""C09: the encoder only ever stores to visible screen bytes.

Every history of C10's small world, and busy images, all with target images
whose screen holes hold values that must not get out (bmp2dhr may leave
anything there); every opcode must be well formed for the player.
"""

from vlib import enc, report, world

_codec = None


def spoil(plane, value):
    b = bytearray(plane)
    for a in enc.HOLES:
        b[a] = value
    return bytes(b)


def targets(mode, pal):
    res = []
    for i, (name, planes) in enumerate(enc.small(mode)):
        v = (0xFF, 0x55, 0x2A, 0x80)[i % 4]
        if mode == "DHGR":
            v &= 0x7F
        res.append(enc.bitmap(mode, pal, *[
            spoil(enc.image(c), v) for c in planes]))
    return res


def monitor(e, op, ti, hist):
    page, content, offs = op
    for x in offs:
        if not enc.VISIBLE[(page - 32) * 256 + x]:
            raise enc.Bad("opcode %s stores to the screen hole at $%04X" % (
                op, page * 256 + x))
    if e.mode == "DHGR" and content > 0x7F:
        raise enc.Bad("opcode %s stores bit 7 in double hi-res" % (op,))
    # The transcoder turns it into bytes for every audio level.
    for t in (4, 34, 66):
        cls = _codec.o.TICK_OPCODES[(t, page)]
        raw = bytes(int(x) for x in _machine.emit(cls(content, list(offs))))
        want = bytes([cls._START >> 8, cls._START & 255, content]) + \
            bytes(offs)
        if raw != want:
            raise enc.Bad("opcode %s is sent as %s" % (op, raw.hex()))


_machine = None


def setup():
    global _codec, _machine
    _codec = world.Codec()
    import machine
    _machine = machine.Machine()


def small(item, part):
    mode, pal, ti, depth = item
    enc.explore(part, mode, pal, depth, monitor, firsts=[ti],
                targets=targets(mode, pal))


def busy(case, part):
    mode, pal, seed = case["mode"], case["palette"], case["seed"]
    enc.Lcg(seed).install()
    mask = 0x7F if mode == "DHGR" else 0xFF
    e = enc.Encoder(mode, pal)
    n = 0
    for k in range(case["frames"]):
        t = enc.bitmap(mode, pal, *[
            spoil(enc.noise(seed + 3 * k + b, mask), 0x11 * (k + 1) & mask)
            for b in e.banks()])
        e.start(t, k % len(e.banks()))
        for _ in range(case["ops"]):
            try:
                op = e.op()
                monitor(e, op, 0, [])
            except enc.Bad as err:
                part.violation(case, "opcode %d: %s" % (n, err))
                return
            n += 1
            part.count(states=1, transitions=1)
    part.count(traces=1)
    for bank in (0, 1):
        if any(e.mem[bank][a] for a in enc.HOLES):
            part.violation(case, "screen holes changed")


def run(chk):
    setup()
    deep = chk.thorough
    chk.assumptions += ["edit distance tables as built from the current tree"]
    items = []
    for mode, pal in (("HGR", 5), ("DHGR", 0)):
        enc.load(mode, pal)
        for ti in range(len(enc.small(mode))):
            items.append((mode, pal, ti, 3 if deep else 2))
    report.pmap(chk, small, items)
    cases = [dict(mode=m, palette=p, seed=s, frames=4,
                  ops=2600 if deep else 180)
             for m, p in (("HGR", 5), ("DHGR", 0)) for s in range(1, 5)]
    report.pmap(chk, busy, cases)
    chk.sample(cases[0])
    chk.extra["exhaustive"] = True
    chk.extra["bound"] = "all histories of %d encodings of %d/%d images" % (
        3 if deep else 2, len(enc.small("HGR")), len(enc.small("DHGR")))


def replay(case, part):
    setup()
    enc.load(case["mode"], case["palette"])
    if "hist" in case:
        enc.replay_history(case, part, monitor,
                           targets(case["mode"], case["palette"]))
    else:
        busy(case, part)
