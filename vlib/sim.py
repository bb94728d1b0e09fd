"""Drivers for the repository's Apple II simulator."""

from vlib import env


def modules():
    env.use_simulator()
    import apple2
    import machine
    import memory
    import uthernet
    return apple2, machine, memory, uthernet


def new(stream=b""):
    """A machine with memory protection on, as the simulator uses it."""
    apple2, _, _, uthernet = modules()
    a2 = apple2.AppleII(uthernet.Uthernet(stream))
    a2.memory_manager.enable()
    return a2


# --- reference: documented I/O map (Apple IIe Technical Reference) ---------

# name: (off, on, status, whether reading the address works it too)
SWITCHES = {
    "80STORE": (0xC000, 0xC001, 0xC018, False),
    "RAMRD": (0xC002, 0xC003, 0xC013, False),
    "RAMWRT": (0xC004, 0xC005, 0xC014, False),
    "INTCXROM": (0xC006, 0xC007, 0xC015, False),
    "ALTZP": (0xC008, 0xC009, 0xC016, False),
    "SLOTC3ROM": (0xC00A, 0xC00B, 0xC017, False),
    "80COL": (0xC00C, 0xC00D, 0xC01F, False),
    "ALTCHAR": (0xC00E, 0xC00F, 0xC01E, False),
    "TEXT": (0xC050, 0xC051, 0xC01A, True),
    "MIXED": (0xC052, 0xC053, 0xC01B, True),
    "PAGE2": (0xC054, 0xC055, 0xC01C, True),
    "HIRES": (0xC056, 0xC057, 0xC01D, True),
}
# The simulator does not implement memory banking.
REFUSED = ("80STORE", "RAMRD", "RAMWRT", "INTCXROM", "ALTZP", "SLOTC3ROM")
TICK = 0xC030
MODE, ADRH, ADRL, DATA = 0xC094, 0xC095, 0xC096, 0xC097

# (first, last, writable) of everything but plain memory
REGIONS = [
    ("zero page", 0x0000, 0x00FF, True),
    ("stack", 0x0100, 0x01FF, True),
    ("text page", 0x0400, 0x07FF, True),
    ("hi-res page 1", 0x2000, 0x3FFF, True),
    ("hi-res page 2", 0x4000, 0x5FFF, False),
    ("I/O", 0xC000, 0xC0FF, None),
] + [("slot %d ROM" % s, 0xC000 + 256 * s, 0xC0FF + 256 * s, False)
     for s in range(1, 8)] + [("ROM", 0xD000, 0xFFFF, False)]
ENTRIES = (0xF3E2, 0xFCA8, 0xFDED, 0xFE89)


def region(addr):
    for k, (_, lo, hi, _) in enumerate(REGIONS):
        if lo <= addr <= hi:
            return k
    return None
