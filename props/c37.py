"""C37 embedding firmware is lossless"""
from .fw_common import (content, hash_of, reset, stand_ins, symbolic_files, write_blob, write_elf, write_hex)

BASE, N = 0x8000, 8
BOUNDS = ("file contents of 0..4 free bytes; contents of 300, 5000 and 70000 bytes with free bytes at start, middle and end; the other "
          "content of the comparison 0..4 free bytes; targets: file name with 4 suffixes or a directory, missing parents, existing "
          "larger file; ELF with 8 free bytes, HEX with free start address")
OUTSIDE = "losslessness of zstd and base64 themselves, collisions of sha3, names of targets with further dots"
STUBS = ["zstd -> text standing for the content, base64 runs for real on it (replays use the real libraries)",
         "sha3 -> hash without collisions", "binary files -> symbolic bytes", "ELF and HEX readers -> symbolic images"]
MODULES = ("shepherd_core.fw_tools", "shepherd_core.data_models.content")
FAKE_H5 = False


def extra_shims():
    stand_ins()
    symbolic_files()


def cases(tier):
    big = [300, 5000, 70_000] + ([200_000, 1_100_000] if tier == "thorough" else [])
    out = [(f"convert/{n}", "convert", {"n": n}) for n in [0, 1, 2, 4, *big]]
    out += [(f"identify/{n}-{m}", "identify", {"n": n, "m": m}) for n in (0, 1, 2, 4) for m in (0, 1, 2, 3, 4)]
    for t in ("elf", "hex", "path_elf", "path_hex"):
        out += [(f"extract/{t}/{n}", "extract", {"t": t, "n": n}) for n in (0, 2, 5000)]
    for k in ("elf", "hex"):
        for e in (True, False):
            out.append((f"model/{k}/{'embed' if e else 'link'}", "model", {"kind": k, "embed": e}))
    out += [(f"faulty/{t}", "faulty", {"t": t}) for t in ("elf", "hex")]
    return out


def data(sx, n, name="a"):
    if n <= 8:
        return [sx.int(f"{name}{k}", 0, 255) for k in range(n)]
    out = [(k * 7 + k // 256) & 255 for k in range(n)]
    for k in (0, 1, n // 2, n - 2, n - 1):
        out[k] = sx.int(f"{name}{k}", 0, 255)
    return out


def same(sx, label, path, items):
    if not path.is_file():
        sx.check(label, False)
        return
    if sx.sym:
        f = content(path)
        from .fw_common import raw
        got = f["items"] if f is not None and f["kind"] == "blob" else list(raw(path))
        sx.check(label + ": size", len(got) == len(items))
        if len(got) == len(items):
            sx.check(label, sx.both(True, *[x == y for x, y in zip(got, items) if x is not y]))
    else:
        got = path.read_bytes()
        sx.check(label + ": size", len(got) == len(items))
        sx.check(label, got == bytes(items))


def convert(sx, n):
    from shepherd_core import fw_tools
    reset()
    d = sx.tmpdir()
    a = data(sx, n)
    p, q = d / "fw.bin", d / "new" / "sub" / "fw.out"
    write_blob(sx, p, a)
    if sx.flag("exists"):
        q.parent.mkdir(parents=True)
        write_blob(sx, q, [sx.int("old", 0, 255), *([1] * (n + 3))])
    txt = fw_tools.file_to_base64(p)
    sx.check("is text", isinstance(txt, str) and txt.isascii() and len(txt) > 0)
    fw_tools.base64_to_file(txt, q)
    same(sx, "restored", q, a)
    same(sx, "original kept", p, a)
    h = fw_tools.file_to_hash(p)
    sx.check("hash of the file", h == hash_of(sx, a))
    sx.check("hash of the text", fw_tools.base64_to_hash(txt) == hash_of(sx, a))
    sx.check("hash of the restored file", fw_tools.file_to_hash(q) == h)
    for f in (fw_tools.file_to_base64, fw_tools.file_to_hash):
        sx.check("missing file refused", not sx.attempt(lambda f=f: f(d / "none"), ValueError, OSError)[0])


def mcu():
    from shepherd_core.data_models.testbed import MCU
    return MCU(name="nRF52")


def identify(sx, n, m):
    """embedded content against hash and file of any other content"""
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    reset()
    a, b = data(sx, n), data(sx, m, "b")
    p, q = sx.tmpdir() / "fw.bin", sx.tmpdir() / "other.bin"
    write_blob(sx, p, a)
    write_blob(sx, q, b)
    eq = n == m and sx.is_true(sx.both(True, *[x == y for x, y in zip(a, b)]))
    sx.check("hash identifies the content", sx.iff(fw_tools.file_to_hash(p) == fw_tools.file_to_hash(q), eq))
    t = sx.choice("type", ["elf", "hex"])
    txt = fw_tools.file_to_base64(p)
    kw = {"name": "fw", "mcu": mcu(), "data": txt, "data_type": t}
    ok, fw = sx.attempt(lambda: Firmware(**kw, data_hash=hash_of(sx, b)), ValueError)
    sx.check("accepted exactly with the hash of its content", ok == eq)
    fw = Firmware(**kw, data_hash=hash_of(sx, a))
    sx.check("own content matches", fw.compare_hash() is True)
    sx.check("other file matches if identical", fw.compare_hash(q) == eq)
    out = fw.extract_firmware(sx.tmpdir() / "x.y")
    same(sx, "extracted", out, a)
    same(sx, "other file kept", q, b)


def extract(sx, t, n):
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    reset()
    d = sx.tmpdir()
    a = data(sx, n)
    p = d / "src.bin"
    write_blob(sx, p, a)
    known = sx.flag("known")
    kw = {"data_hash": hash_of(sx, a)} if known else {}
    name = sx.choice("name", ["blink", "blink.elf", "blink.hex", "blink.bin"])
    fw = Firmware(name=name, mcu=mcu(), data_type=t, data=fw_tools.file_to_base64(p) if not t.startswith("path") else p, **kw)
    suffix = "." + t[-3:]
    where = sx.choice("target", ["dir", "plain", "elf", "bin", "exists"])
    if where == "dir":
        (d / "out").mkdir()
        target, want = d / "out", d / "out" / ("blink" + suffix)
    else:
        target = d / "sub" / "dir" / {"plain": "f", "elf": "f.elf", "bin": "f.bin", "exists": "f"}[where]
        want = d / "sub" / "dir" / ("f" + suffix)
        if where == "exists":
            want.parent.mkdir(parents=True)
            write_blob(sx, want, [sx.int("old", 0, 255), *([1] * (n + 3))])
    new = fw.extract_firmware(target)
    sx.check("location", new == want)
    same(sx, "content", new, a)
    same(sx, "source kept", p, a)
    sx.check("hash of the extracted file", fw_tools.file_to_hash(new) == hash_of(sx, a))
    sx.check("single file", [x.name for x in want.parent.iterdir()] == [want.name])


def model(sx, kind, embed):
    """from file to model to file"""
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    reset()
    d = sx.tmpdir()
    p = d / ("blink" + sx.choice("suffix", {"elf": [".elf", ".out", ".bin", ".ELF"], "hex": [".hex", ".ihex", ".ihx", ".HEX"]}[kind]))
    if kind == "elf":
        write_elf(sx, p, "little", BASE, [sx.int(f"m{k}", 0, 255) for k in range(N)], {"SHEPHERD_NODE_ID": BASE})
    else:
        write_hex(sx, p, sx.int("start", 0, 0xF000), 4, None)
    ref = p.read_bytes()
    fw = Firmware.from_firmware(p, embed=embed)
    sx.check("type", getattr(fw.data_type, "value", fw.data_type) == ("" if embed else "path_") + kind)
    sx.check("hash is stored", fw.data_hash == fw_tools.file_to_hash(p))
    sx.check("named after file", fw.name == p.name)
    sx.check("local exactly if not embedded", fw.data_local == (not embed))
    sx.check("own content", fw.compare_hash() is True)
    if sx.flag("replaced"):  # another firmware takes the place of the file
        if kind == "elf":
            write_elf(sx, p, "big", BASE, [0] * N, {"other": BASE})
        else:
            write_hex(sx, p, 0xF100, 5, None)
        sx.check("replaced file is noticed", fw.compare_hash(p) is False)
        sx.check("embedded content stays", fw.compare_hash() == embed)
        if not embed:
            return
    now = p.read_bytes()
    hx = fw_tools.firmware_to_hex(p)
    sx.check("as hex", hx.is_file() and fw_tools.is_hex(hx) and (hx == p) == (kind == "hex"))
    sx.check("original kept", p.read_bytes() == now)
    new = fw.extract_firmware(d / "out" / "f.x")
    sx.check("location", new == d / "out" / ("f." + kind))
    sx.check("content", new.is_file() and new.read_bytes() == ref)
    sx.check("matches", fw.compare_hash(new) is True)


def faulty(sx, t):
    import base64

    import zstandard
    from shepherd_core.data_models.content import Firmware
    good = base64.b64encode(zstandard.compress(b"firmware" * 9)).decode()
    cut = sx.int("cut", 0, len(good))
    how = sx.choice("how", ["none", "padding", "text", "cut", "raw"])
    bad = {"none": good, "padding": "abcde", "text": "no base64 at all: ä", "cut": good[:int(cut) // 4 * 4],
           "raw": base64.b64encode(b"not compressed").decode()}[how]
    ok, fw = sx.attempt(lambda: Firmware(name="fw", mcu=mcu(), data=bad, data_type=t), ValueError)
    sx.check("faulty data is refused", ok == (bad == good))
