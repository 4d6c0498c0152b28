"""C13 UART decoder returns every transmitted byte"""

BOUNDS = ("1..2 transmitted bytes: one byte of any value; two bytes of which one is any of 16 bit patterns (thorough: any value) and the other from 6 (thorough: 20) patterns, "
          "start time any, idle gap before every byte any length 0..200 bit times, every edge off by up to 0.04 bit, "
          "3 baud rates stated (and detected, from jitter-free waveforms), normal/inverted signal, inversion "
          "detected/stated; redundant samples in the trace; analog levels")
OUTSIDE = ("longer messages (decoder state is reset between frames); a last byte whose stop bit is not followed by "
           "another edge; frame formats beside 8N1; edges off by more than 0.1 bit")
STUBS = ["logging disabled"]
FAKE_H5 = False

SECOND = (0x00, 0xFF, 0x55, 0x41, 0x80, 0x7F)
MORE = (0x01, 0xAA, 0x0D, 0x0A, 0xFE, 0xC3, 0x3C, 0x20, 0x7E, 0xF0, 0x0F, 0x81, 0x6B, 0xE0)


def cases(tier):
    out = []
    for inv in (False, True):
        for known in (False, True):
            out.append((f"one/inv={inv}/stated={known}", "message", {"rest": [], "inv": inv, "known": known}))
    for s in SECOND + (MORE if tier != "quick" else ()):
        part = tier == "quick"
        o = {} if part else {"budget": 2500}
        out.append((f"two/{s:02x}", "message", {"rest": [s], "inv": s == 0x41, "lo_nibble": part}, o))
        out.append((f"two-first/{s:02x}", "message", {"rest": [s], "first": True, "lo_nibble": part}, o))
    for b in (9600, 115200, 1_000_000):
        out.append((f"baud/{b}", "message", {"rest": [], "baud": b, "lo_nibble": True}))
        out.append((f"detect/{b}", "message", {"rest": [0x55], "baud": b, "detect": True}))
    out.append(("redundant", "message", {"rest": [], "redundant": True, "lo_nibble": True}))
    out.append(("redundant/inv", "message", {"rest": [], "redundant": True, "lo_nibble": True, "inv": True}))
    out.append(("analog", "message", {"rest": [], "analog": (0.2, 3.1), "lo_nibble": True}))
    out.append(("broken", "broken", {}))
    return out


def bits_of(sx, name, fixed=None):
    """(value, list of 8 concrete bits, least significant first)"""
    if fixed is not None:
        return fixed, [(fixed >> k) & 1 for k in range(8)]
    bits = [1 if sx.flag(f"{name}_b{k}") else 0 for k in range(8)]
    return sum(b << k for k, b in enumerate(bits)), bits


def message(sx, rest, inv=False, known=False, baud=9600, detect=False, lo_nibble=False,
            redundant=False, analog=None, first=False):
    from shepherd_core.decoder_waveform import Uart
    if lo_nibble:
        b = [1 if sx.flag(f"x_b{k}") else 0 for k in (0, 3, 6, 7)]
        v = b[0] | (b[1] << 3) | (b[2] << 6) | (b[3] << 7)
        head = bits_of(sx, "x", v)
    else:
        head = bits_of(sx, "x")
    tail = [bits_of(sx, "", r) for r in rest]
    frames = [*tail, head] if first else [head, *tail]
    tick = 1.0 / baud
    t0 = 0.0 if detect else sx.real("t0", 0, 1e6)
    edges = [(t0, 1)]           # (time in ticks after t0, level), idle first
    pos = 150.0
    starts, evs = [], [(0.0, 1)]
    level = 1
    jn = 0
    for i, (_v, bits) in enumerate(frames):
        if i and not detect:
            pos = pos + sx.real(f"gap{i}", 0, 200)
        starts.append(pos)
        for k, lv in enumerate([0, *bits, 1]):
            if lv != level:
                j = 0.0
                if not detect:
                    j = sx.real(f"j{jn}", -0.04, 0.04)
                    jn += 1
                evs.append((pos + k + j, lv))
                level = lv
        pos = pos + 10
    # next start bit ends the last stop bit; a longer toggling tail satisfies the minimum trace size
    gap = 120.0 if detect else sx.real("gap_end", 90, 200)
    pos = pos + gap
    stop_at = pos
    for k in range(7):
        evs.append((pos, 0 if k % 2 == 0 else 1))
        pos = pos + (10 if k % 2 == 0 else 2)
    if redundant:
        more = []
        for i, (t, lv) in enumerate(evs):
            more.append((t, lv))
            if i == 0 or i == 3:
                more.append((t + 0.01, lv))
        evs = more
    low, high = analog or (0.0, 1.0)
    rows = [[t0 + t * tick, (high if (lv == 1) != inv else low)] for t, lv in evs]
    _ = edges
    arr = sx.matrix(rows)
    kw = {}
    if not detect:
        kw["baud_rate"] = baud
    if known:
        kw["inversion"] = inv
    u = Uart(arr, **kw)
    sym = u.get_symbols()
    got = [(sx.num(sym[i][0]), sym[i][1]) for i in range(sx.length(sym))]
    # what follows the message (the tail) is not part of it
    got = [g for g in got if sx.is_true(g[0] < t0 + (stop_at - 0.5) * tick)]
    sx.check("number of symbols", len(got) == len(frames))
    sx.observe("n", len(got))
    for i, ((v, _b), s, g) in enumerate(zip(frames, starts, got)):
        sx.check(f"symbol {i}", sx.ord(g[1]) == v)
        sx.check(f"start time {i}", sx.close(g[0], t0 + s * tick, 0.05 * tick + 1e-9 * (t0 + 1)))


def broken(sx):
    """unusable traces are refused"""
    from shepherd_core.decoder_waveform import Uart
    kind = sx.choice("kind", ("short", "three", "reverse", "parity", "frame"))
    t = [sx.real("t0", 0, 1e3)]
    for k in range(11):
        t.append(t[-1] + 1e-4 * (150 if k == 0 else 1))
    rows = [[a, float((k + 1) % 2)] for k, a in enumerate(t)]
    kw = {"baud_rate": 10_000}
    if kind == "short":
        rows = rows[:sx.choice("m", (1, 4, 7))]
    elif kind == "three":
        rows = [[*r, 0.0] for r in rows]
    elif kind == "reverse":
        rows[5][0] = rows[4][0] - sx.real("back", 1e-5, 1)
    elif kind == "parity":
        from shepherd_core.decoder_waveform.uart import Parity
        kw["parity"] = sx.choice("p", (Parity.even, Parity.odd))
    else:
        kw["frame_length"] = sx.choice("f", (0, -1, 65))
    ok, res = sx.attempt(lambda: Uart(sx.matrix(rows), **kw), TypeError, ValueError)
    sx.check("refused", not ok)
