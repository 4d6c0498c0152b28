"""C14 UART line splitting keeps every character"""

BOUNDS = "0..4 (thorough 7) symbols of any code 0..255 with any time stamps"
OUTSIDE = "longer texts (the splitter keeps one bit of state)"
STUBS = ["logging disabled"]
FAKE_H5 = False


def cases(tier):
    return [(f"len/{n}", "lines", {"n": n}) for n in range(5 if tier == "quick" else 8)] + \
           [(f"text/{n}", "text", {"n": n}) for n in (0, 1, 4)] + [("redo", "redo", {}), ("decoded", "decoded", {})]


def uart(sx):
    """a decoder whose symbols get replaced"""
    from shepherd_core.decoder_waveform import Uart
    rows = [[0.0, 1.0]] + [[0.02 + 1e-4 * k, float(k % 2)] for k in range(12)]
    return Uart(sx.matrix(rows), baud_rate=10_000)


def feed(sx, u, n, p="s"):
    codes = [sx.int(f"{p}{i}", 0, 255) for i in range(n)]
    times = [sx.real(f"{p}t{i}", 0, 1e6) for i in range(n)]
    if not hasattr(u, "events_symbols"):
        sx.need(u, "events_symbols")
    u.events_symbols = sx.objects([[times[i], sx.chr(codes[i])] for i in range(n)], 2)
    return codes, times


def expected(sx, codes):
    """index ranges of the lines"""
    out, a = [], 0
    n = len(codes)
    for i in range(n):
        if sx.is_true(codes[i] == 10):
            out.append((a, i + 1))
            a = i + 1
        elif sx.is_true(codes[i] == 13) and not (i + 1 < n and sx.is_true(codes[i + 1] == 10)):
            out.append((a, i + 1))
            a = i + 1
    if a < n:
        out.append((a, n))
    return out


def compare(sx, got, codes, times, tag=""):
    exp = expected(sx, codes)
    sx.check("number of lines", sx.length(got) == len(exp))
    sx.observe(f"lines{tag}", sx.length(got))
    if sx.length(got) != len(exp):
        return
    for k, (a, b) in enumerate(exp):
        line = got[k][1]
        sx.check(f"length of line {k}", sx.length(line) == b - a)
        if sx.length(line) == b - a:
            for i in range(b - a):
                sx.check(f"line {k} symbol {i}", sx.ord(line[i]) == codes[a + i])
        sx.check(f"stamp of line {k}", sx.num(got[k][0]) == times[a])


def lines(sx, n):
    u = uart(sx)
    codes, times = feed(sx, u, n)
    got = u.get_lines()
    compare(sx, got, codes, times)


def text(sx, n):
    """the whole text (characters from a list: joining is done by the interpreter's C code)"""
    u = uart(sx)
    sym = [sx.choice(f"c{i}", ("A", "\r", "\n", "\xe4")) for i in range(n)]
    u.events_symbols = sx.objects([[float(i), c] for i, c in enumerate(sym)], 2)
    sx.check("text is complete", u.get_text() == "".join(sym))
    sx.check("text stays", u.get_text() == "".join(sym))
    u.events_symbols = sx.objects([[1.0, "B"]], 2)
    u.get_lines(force_redo=True)
    sx.check("new text", u.get_text(force_redo=True) == "B")


def redo(sx):
    """results are kept until a recalculation is forced"""
    u = uart(sx)
    c1, t1 = feed(sx, u, 2, "a")
    compare(sx, u.get_lines(), c1, t1, 1)
    c2, t2 = feed(sx, u, 2, "b")
    compare(sx, u.get_lines(force_redo=True), c2, t2, 2)
    compare(sx, u.get_lines(), c2, t2)


def decoded(sx):
    """lines of a decoded waveform hold exactly its symbols"""
    from shepherd_core.decoder_waveform import Uart
    msg = [0x41, sx.choice("b", (10, 13, 0x42)), sx.choice("c", (10, 13, 0)), 0x43]
    t, level = 200, 1
    rows = [[0.0, 1.0]]
    for v in msg:
        for k, lv in enumerate([0, *[(v >> i) & 1 for i in range(8)], 1]):
            if lv != level:
                rows.append([(t + k) * 1e-4, float(lv)])
                level = lv
        t += 10
    rows.append([(t + 100) * 1e-4, 0.0])
    rows.append([(t + 101) * 1e-4, 1.0])
    u = Uart(sx.matrix(rows), baud_rate=10_000)
    txt = u.get_text()
    sx.check("all symbols", [ord(c) for c in str(txt)] == msg)
    ln = u.get_lines()
    sx.check("joined lines", "".join(str(ln[i][1]) for i in range(len(ln))) == str(txt))
