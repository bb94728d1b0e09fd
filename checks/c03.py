"""C03: player start-up under every answer of the network.

Model: the real binary + W5100 + ROM stubs, started at the load address with
arbitrary (swept) memory, register and chip contents.  Choices: what the socket
status register says at every read, and how much of the header has arrived at
every poll.  Breadth-first search over complete machine states.
"""

import os
import subprocess
import sys

from vlib import apple, env, play, report

CONFIG = {"MAC": bytes([0, 8, 0xDC, 1, 2, 3]),
          "SRCADDR": bytes([10, 0, 65, 2]),
          "FADDR": bytes([10, 0, 0, 1])}
ATTEMPTS = 6

_player = None
_port = None

OPEN_ANSWERS = (0x13, 0x00, 0x17, 0x22)
CONNECT_ANSWERS = (0x15, 0x00, 0x17, 0x16, 0x13, 0x1C)


def server_port():
    code = ("import sys; sys.dont_write_bytecode=True; "
            "sys.path.insert(0, %r); import server; "
            "print(server.parser.parse_args(['x']).port)" %
            os.path.join(env.REPO, "server"))
    return int(env.run([sys.executable, "-W", "ignore", "-c", code]).split()[
        -1])


def config(name):
    """The committed settings, wherever the source keeps them."""
    a = _player.labels.get(name)
    n = len(CONFIG[name])
    if a is None or not _player.load <= a < _player.end - n:
        return CONFIG[name]
    return _player.code[a - _player.load:a - _player.load + n]


def stage(m):
    """What the machine waits for: open / connect / data."""
    if play.at_rsr_poll(m):
        return "data"
    if play.at_status_poll(m):
        last = [e[0] for e in m.w.log if e[0] in ("open", "connect")]
        return last[-1] if last else None
    return None


def check_setup(common, sock):
    """The chip as programmed when a connection is made."""
    want = [(common[0x09:0x0F], config("MAC"), "MAC address"),
            (common[0x0F:0x13], config("SRCADDR"), "source address"),
            (common[0x1A:0x1B], b"\x03", "receive buffer size"),
            (sock[0x0C:0x10], config("FADDR"), "server address"),
            (sock[0x10:0x12], bytes([_port >> 8, _port & 255]),
             "server port")]
    for got, exp, what in want:
        if bytes(got) != bytes(exp):
            return "%s is %s, not %s" % (what, bytes(got).hex(),
                                         bytes(exp).hex())
    if sock[0] & 0x0F != 1:
        return "socket mode $%02X is not TCP" % sock[0]
    if not any(sock[4:6]):
        return "no local port"
    return None


def until_next(m):
    """Runs to the next environment choice, a halt, or the clear screen."""
    watch = [False]
    limit = 0
    while m.halt is None and stage(m) is None:
        n = len(m.mem.swlog)
        m.step()
        for name, val in m.mem.swlog[n:]:
            if name == "TEXT" and not val:
                main, aux = play.screens(m)
                dhgr = m.rx_mode
                if any(main) or (dhgr and any(aux)):
                    return "display switched on before the screen is clear"
                if not m.mem.sw["HIRES"] or m.mem.sw["PAGE2"]:
                    return "display switched on with switches %s" % m.mem.sw
        limit += 1
        if limit > 40000:
            return "no progress at $%04X" % m.cpu.pc
    return None


def text(m):
    return bytes(b & 0x7F for b in m.text).decode("ascii", "replace")


NO_SOCKET = "UTHERNET II: COULD NOT OPEN SOCKET!"
NO_CONNECTION = "SOCKET COULD NOT CONNECT - CHECK REMOTE HOST"


def said(m):
    """What was printed, after the dots that count the attempts."""
    return " ".join(text(m).upper().lstrip(". \r").split())


def judge_open(m):
    """Invariants of the chip log."""
    log = m.w.log
    attempts = [e for e in log if e[0] == "open"]
    if len(attempts) > ATTEMPTS:
        return "%d connection attempts" % len(attempts)
    for i, e in enumerate(log):
        if e[0] in ("open", "connect"):
            msg = check_setup(e[1], e[2])
            if msg:
                return "attempt %d: %s" % (len(attempts), msg)
        if e[0] == "connect" and m.answers.get(
                sum(1 for x in log[:i] if x[0] == "open")) != 0x13:
            return "connect command although the socket did not open"
        if e[0] == "open" and ("reset",) not in log[:i]:
            return "chip used without a reset"
    return None


def advance(m, choice):
    st = stage(m)
    w = m.w
    if st == "open":
        n = sum(1 for e in w.log if e[0] == "open")
        m.answers = dict(m.answers)
        m.answers[n] = choice
        w.mem[0x403] = choice
    elif st == "connect":
        w.mem[0x403] = choice
    else:
        w.deliver(choice - w.rsr())
    if st == "data" and w.rsr() < 256 and w.read_order == 0:
        m.step()
        msg = until_next(m)
        if msg:
            return msg
        if w.read_order:
            return "read the header with only %d bytes received" % w.rsr()
        if stage(m) != "data":
            return "left the header wait with %d bytes" % w.rsr()
        return None
    m.step()
    msg = until_next(m) or judge_open(m)
    if msg:
        return msg
    nopen = sum(1 for e in w.log if e[0] == "open")
    nconn = sum(1 for e in w.log if e[0] == "connect")
    if st == "open":
        if choice == 0x13:
            if m.halt or stage(m) != "connect" or nconn != nopen:
                return "socket open but no connection attempted"
        else:
            if not m.halt or m.halt[0] != "brk":
                return "continues although the socket did not open"
            if said(m) != NO_SOCKET:
                return "wrong error message: %r" % text(m)
    elif st == "connect":
        if choice == 0x17:
            if stage(m) != "data":
                return "connected but does not wait for the header"
        elif choice == 0:
            if nopen == ATTEMPTS and (m.halt is not None):
                if m.halt[0] != "brk" or said(m) != NO_CONNECTION:
                    return "gave up with a wrong error message: %r" % text(m)
            elif m.halt is not None:
                return "gave up after %d attempts" % nopen
            elif stage(m) != "open":
                return "no new attempt after a failed connection"
        elif stage(m) != "connect":
            return "left the connection wait on status $%02X" % choice
    else:
        if m.halt or stage(m) != "data" or w.read_order != 7:
            return "header not consumed (%d bytes read)" % w.read_order
        s = m.mem.sw
        want = {"TEXT": False, "HIRES": True, "MIXED": False,
                "PAGE2": False, "80STORE": m.rx_mode, "80COL": m.rx_mode,
                "DHIRES": m.rx_mode}
        for k, v in want.items():
            if s[k] != bool(v):
                return "%s is %s in mode %d" % (k, s[k], m.rx_mode)
        main, aux = play.screens(m)
        if any(main) or (m.rx_mode and any(aux)):
            return "screen not clear at the start"
        v = m.mem.main[0x3F2] | m.mem.main[0x3F3] << 8
        if m.mem.main[0x3F4] != m.mem.main[0x3F3] ^ 0xA5:
            return "reset vector not validated"
        if not _player.load <= v < _player.end or 0x2000 <= v < 0x4000:
            return "reset vector is $%04X" % v
    return None


def start(item):
    hdr = bytes([255] * 6 + [item["mode"]])
    rx = bytearray(play.header(item["mode"]))
    if len(rx) != 7:
        raise report.CaseFailed("header is %d bytes" % len(rx))
    rx += bytes(8192)
    m = apple.Machine(_player, bytes(rx), fill=item["fill"],
                      regs=tuple(item["regs"]), wfill=item["wfill"])
    m.cpu.p = item["p"] | 0x30
    m.mem.kbd = item["kbd"]
    m.rx_mode = item["mode"]
    m.answers = {}
    m.cpu.pc = _player.load
    return m, until_next(m)


def explore(item, part):
    m, msg = start(item)
    if msg:
        part.violation(dict(item, path=[]), msg)
        return
    if stage(m) != "open":
        part.violation(dict(item, path=[]), "does not open a socket")
        return
    seen = set()
    frontier = [(m, [])]
    while frontier:
        nxt = []
        for m, path in frontier:
            st = stage(m)
            if st == "open":
                chs = OPEN_ANSWERS
            elif st == "connect":
                chs = CONNECT_ANSWERS
            else:
                chs = [x for x in (0, 1, 255, 256, 257, 2047, 2048, 8192)
                       if x >= m.w.rsr()]
            for ch in chs:
                k = m.clone()
                part.count(transitions=1)
                try:
                    msg = advance(k, ch)
                except apple.PlayerCrash as e:
                    msg = str(e)
                p = path + [ch]
                if msg:
                    part.violation(dict(item, path=p), msg)
                    if part.nviol > 3:
                        return
                    continue
                if k.halt is not None:
                    part.count(traces=1)
                    part.outcome("gave up: " + text(k).strip(". \r")[:60])
                    continue
                if k.w.read_order:
                    part.count(traces=1)
                    part.outcome("plays mode %d" % k.rx_mode)
                    continue
                nopen = sum(1 for e in k.w.log if e[0] == "open")
                key = (k.key(), nopen, stage(k))
                if key in seen:
                    continue
                seen.add(key)
                part.count(states=1)
                nxt.append((k, p))
        frontier = nxt
    part.sample("start %s" % item)


def run(chk):
    global _player, _port
    _player = apple.Player()
    _port = server_port()
    chk.assumptions += [
        "ROM routines HGR0 ($F3F2) and COUT ($FDED) and the ProDOS MLI as "
        "documented; D flag clear on entry"]
    items = []
    fills = [0, 0xFF, 0x55] + ([0x17, 0x80, 0x01] if chk.thorough else [])
    regs = [[0, 0, 0], [255, 255, 255], [0x12, 0x9C, 0x77]]
    for mode in (0, 1):
        for i, fill in enumerate(fills):
            for j, r in enumerate(regs):
                if not chk.thorough and (i + j) % 3 == 2:
                    continue
                items.append(dict(
                    mode=mode, fill=fill, regs=r,
                    wfill=[0xA5, 0x00, 0x17, 0xFF][(i + j) % 4],
                    p=[0, 0xC3][(i + j) % 2],
                    kbd=[0x00, 0x8D][(i + j) % 2]))
    report.pmap(chk, explore, items)
    chk.extra["bound"] = (
        "socket status answers %s/%s at every read, up to all %d attempts; "
        "header arrival levels; %d initial machines" % (
            OPEN_ANSWERS, CONNECT_ANSWERS, ATTEMPTS, len(items)))


def replay(case, part):
    global _player, _port
    _player = apple.Player()
    _port = server_port()
    m, msg = start(case)
    for ch in case.get("path", []):
        if msg:
            break
        try:
            msg = advance(m, ch)
        except apple.PlayerCrash as e:
            msg = str(e)
    if msg:
        part.violation(case, msg)
