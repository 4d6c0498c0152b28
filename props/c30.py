"""C30 firmware is identified by content and patched in place"""
from .fw_common import (SYMBOL, content, elf_memory, hash_of, reset, same_content, stand_ins, write_blob, write_elf,
                        write_hex)

BASE, N = 0x8000, 8
BOUNDS = ("ELF: data block of 8 symbolic bytes, symbol at any position in it, both byte orders, written values -70000..140000, symbol "
          "reads of 1..4 bytes; HEX: symbolic start address 0..0xF000, blocks of 0, 4, 2000 bytes, reset vector 0..0xFFFF or "
          "absent; hashes: contents of 2 symbolic bytes against any other content; a content against stated hashes that differ in any "
          "digits or in length")
OUTSIDE = "layout of ELF and HEX files (pwnlib, intelhex, objcopy), symbols outside of the loaded data or in a page shared by segments, images larger than 200 (thorough 2000) bytes"
STUBS = ["ELF and HEX readers -> symbolic images (replays use the real libraries on real files)", "sha3 -> hash without collisions",
         "base64 and zstd run on a text standing for the content"]
MODULES = ("shepherd_core.fw_tools", "shepherd_core.data_models.content", "shepherd_core.data_models.task")
FAKE_H5 = False


def extra_shims():
    stand_ins()


def cases(tier):
    out = []
    for e in ("little", "big"):
        for m in ("arm", "msp430"):
            out += [(f"patch/{e}/{m}/{'in-place' if o else 'copy'}", "patch", {"endian": e, "machine": m, "overwrite": o})
                    for o in (False, True)]
        out += [(f"uid/{e}", "uid", {"endian": e}), (f"missing/{e}", "missing", {"endian": e})]
        out += [(f"end/{e}", "end", {"endian": e})]
        out += [(f"read/{e}/{k}", "read", {"endian": e, "length": k}) for k in (1, 2, 3, 4)]
    out += [(f"hex/{n}", "hex", {"n": n}) for n in (0, 4, 200) + ((2000,) if tier != "quick" else ())]
    out += [("type", "ftype", {})]
    for t in ("elf", "hex"):
        out += [(f"stated/{t}", "stated", {"t": t}), (f"compare/{t}", "compare", {"t": t}),
                (f"compare-path/{t}", "compare_path", {"t": t}), (f"task/{t}", "task", {"t": t})]
        out += [(f"digits/{t}/{n}", "digits", {"t": t, "n": n}) for n in (8, 55, 56, 57)]
    return out


def image(sx, endian, machine="arm", symbol=SYMBOL, room=2):
    reset()
    p = sx.tmpdir() / "fw.elf"
    mem = [sx.int(f"m{k}", 0, 255) for k in range(N)]
    addr = sx.int("addr", BASE, BASE + N - room)
    write_elf(sx, p, endian, BASE, mem, {symbol: addr, "other": BASE}, machine)
    return p, mem, addr, (None if sx.sym else p.read_bytes())


def pair(sx, mem, addr, endian):
    """16 bit value at the address"""
    b = []
    for k in range(2):
        v = mem[0]
        for i in range(1, N):
            v = sx.ite(addr + k == BASE + i, mem[i], v)
        b.append(v)
    return b[0] + 256 * b[1] if endian == "little" else b[0] * 256 + b[1]


def unchanged(sx, label, p, mem, ref):
    got = elf_memory(sx, p, BASE, N, ref)
    sx.check(label + ": file kept", got is not None)
    if got is not None:
        sx.check(label, sx.both(True, *[a == b for a, b in zip(got, mem)]))


def written(sx, p, mem, addr, endian, value, ref):
    got = elf_memory(sx, p, BASE, N, ref)
    sx.check("rest of the file kept", got is not None)
    if got is None:
        return
    sx.check("value in byte order of the file", pair(sx, got, addr, endian) == value)
    for i in range(N):
        sx.check("other bytes kept", sx.either(addr == BASE + i, addr + 1 == BASE + i, got[i] == mem[i]))


def patch(sx, endian, machine, overwrite):
    from pydantic import ValidationError
    from shepherd_core.fw_tools import modify_symbol_value, read_symbol
    p, mem, addr, ref = image(sx, endian, machine)
    v = sx.int("value", -70_000, 140_000)
    good = sx.is_true(sx.both(v >= 0, v <= 65535))
    ok, new = sx.attempt(lambda: modify_symbol_value(p, SYMBOL, v, overwrite=overwrite), ValidationError)
    sx.check("exactly 16 bit values are accepted", ok == good)
    if not ok or not good:
        unchanged(sx, "refused value changes nothing", p, mem, ref)
        sx.check("no other file", len(list(p.parent.iterdir())) == 1)
        return
    sx.check("returns the file", new is not None)
    if new is None:
        return
    if overwrite:
        sx.check("in place", new == p)
        sx.check("no other file", len(list(p.parent.iterdir())) == 1)
    else:
        sx.check("new file", new != p)
        sx.check("beside the original", new.parent == p.parent)
        if not sx.sym:
            sx.check("named after the value", new.name == f"fw_{v}.elf")
        unchanged(sx, "original untouched", p, mem, ref)
    written(sx, new, mem, addr, endian, v, ref)
    sx.check("reads back", read_symbol(new, SYMBOL) == v)


def uid(sx, endian):
    from shepherd_core.fw_tools import modify_uid, read_uid
    p, mem, addr, ref = image(sx, endian)
    v = sx.int("value", 0, 65535)
    old = read_uid(p)
    sx.check("reads the id", old == pair(sx, mem, addr, endian))
    sx.observe("old", old)
    new = modify_uid(p, v)
    sx.check("in place", new == p)
    written(sx, p, mem, addr, endian, v, ref)
    sx.check("reads back", read_uid(p) == v)


def read(sx, endian, length):
    from shepherd_core.fw_tools import read_symbol
    p, mem, addr, _ = image(sx, endian, room=length)
    got = read_symbol(p, SYMBOL, length)
    want = 0
    for k in range(length):
        b = mem[0]
        for i in range(1, N):
            b = sx.ite(addr + k == BASE + i, mem[i], b)
        want = want + b * 256 ** (k if endian == "little" else length - 1 - k)
    sx.check("value of the symbol", got == want)
    sx.observe("value", got)


def end(sx, endian):
    """symbol without data in the file"""
    from shepherd_core.fw_tools import modify_symbol_value
    p, mem, addr, ref = image(sx, endian, room=0)
    sx.assume(addr == BASE + N)
    v = sx.int("value", 0, 65535)
    sx.check("not written", modify_symbol_value(p, SYMBOL, v, overwrite=sx.flag("overwrite")) is None)
    sx.check("no other file", len(list(p.parent.iterdir())) == 1)
    unchanged(sx, "nothing changed", p, mem, ref)


def missing(sx, endian):
    from shepherd_core.fw_tools import find_symbol, modify_symbol_value, modify_uid, read_symbol, read_uid
    p, mem, addr, ref = image(sx, endian, symbol="another_id")
    v = sx.int("value", 0, 65535)
    sx.check("not found", not find_symbol(p, SYMBOL))
    sx.check("found", find_symbol(p, "another_id") is True)
    sx.check("not read", read_uid(p) is None)
    sx.check("not read by name", read_symbol(p, SYMBOL) is None)
    sx.check("not written", modify_uid(p, v) is None)
    sx.check("not written to copy", modify_symbol_value(p, SYMBOL, v, overwrite=False) is None)
    sx.check("no other file", len(list(p.parent.iterdir())) == 1)
    unchanged(sx, "missing symbol changes nothing", p, mem, ref)
    txt = sx.tmpdir() / "fw.txt"
    txt.write_bytes(b"not a firmware")
    sx.check("no id in other files", read_uid(txt) is None)
    sx.check("other files are not written", modify_uid(txt, v) is None)
    sx.check("other file untouched", txt.read_bytes() == b"not a firmware")


def hex(sx, n):
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    reset()
    p = sx.tmpdir() / "fw.hex"
    start = sx.int("start", 0, 0xF000)
    vec = [sx.int("v0", 0, 255), sx.int("v1", 0, 255)] if sx.flag("vec") else None
    write_hex(sx, p, start, n, vec)
    got = fw_tools.is_hex_msp430(p)
    good = False
    if n and vec is not None:
        v = vec[0] + 256 * vec[1]
        good = sx.is_true(sx.both(start == 0x4000, v >= 0x4000, v < 0xFF80))
    sx.check("msp430 exactly for images in its flash", got == good)
    sx.observe("got", got)
    if n == 0 and vec is None:
        return
    sx.check("architecture", fw_tools.determine_arch(p) == ("msp430" if good else "nrf52"))
    fw = Firmware.from_firmware(p, embed=sx.flag("embed"))
    sx.check("mcu of the firmware", fw.mcu.name.lower() == ("msp430fr" if good else "nrf52"))
    given = Firmware.from_firmware(p, mcu={"name": "nrf52"})
    sx.check("given mcu is kept", given.mcu.name.lower() == "nrf52")


def ftype(sx):
    from shepherd_core import fw_tools
    reset()
    d = sx.tmpdir()
    kind = sx.choice("kind", ["elf", "hex", "text", "none"])
    p = d / f"fw.{sx.choice('suffix', ['elf', 'hex', 'bin'])}"
    if kind == "elf":
        write_elf(sx, p, "little", BASE, [sx.int("m", 0, 255)] * N, {SYMBOL: BASE})
    elif kind == "hex":
        write_hex(sx, p, sx.int("start", 0, 0xF000), 4, None)
    elif kind == "text":
        p.write_bytes(b"something else\n")
    ok, t = sx.attempt(lambda: fw_tools.determine_type(p), ValueError)
    sx.check("known by content", ok == (kind in ("elf", "hex")))
    if ok:
        sx.check("type by content", t.value == "path_" + kind)
    if kind != "none":
        sx.check("is elf", fw_tools.is_elf(p) == (kind == "elf"))
        sx.check("is hex", fw_tools.is_hex(p) == (kind == "hex"))


# ------------------------------------------------------------------------- hash
def base(sx, t, **kw):
    from shepherd_core.data_models.testbed import MCU
    return {"name": "fw", "mcu": MCU(name="nRF52"), "data_type": t, **kw}


def three(sx):
    """content, another content, path of a file with the content"""
    reset()
    a, b = [[sx.int(f"{n}{k}", 0, 255) for k in range(2)] for n in "ab"]
    p = sx.tmpdir() / "fw.bin"
    write_blob(sx, p, a)
    return a, b, p, sx.is_true(sx.both(a[0] == b[0], a[1] == b[1]))


def stated(sx, t):
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    a, b, p, same = three(sx)
    known = sx.flag("known")
    kw = {"data_hash": hash_of(sx, b)} if known else {}
    ok, fw = sx.attempt(lambda: Firmware(**base(sx, t, data=fw_tools.file_to_base64(p), **kw)), ValueError)
    sx.check("wrong hash is refused", ok == (same or not known))
    if ok:
        sx.check("content kept", fw.data == fw_tools.file_to_base64(p))
        sx.check("hash kept", fw.data_hash == kw.get("data_hash"))


def compare(sx, t):
    """embedded firmware with its hash, compared to itself and to other files"""
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    a, b, p, same = three(sx)
    known = sx.flag("known")
    kw = {"data_hash": hash_of(sx, a)} if known else {}
    fw = Firmware(**base(sx, t, data=fw_tools.file_to_base64(p), **kw))
    q = sx.tmpdir() / "other"
    sx.check("own data", fw.compare_hash() is True)
    sx.check("missing file: own data", fw.compare_hash(q) is True)
    write_blob(sx, q, b)
    sx.check("other file", fw.compare_hash(q) == (same or not known))
    sx.check("own file", fw.compare_hash(p) is True)


def digits(sx, t, n):
    """a hash that differs in any of its digits or in its length"""
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    reset()
    p = sx.tmpdir() / "fw.bin"
    write_blob(sx, p, [1, 2, 3, 4, 5])
    true = hash_of(sx, [1, 2, 3, 4, 5])
    txt = fw_tools.file_to_base64(p)
    codes, diff = [], []
    for k in range(n):
        r = ord(true[k]) if k < len(true) else ord("7")
        d = sx.int(f"d{k}", 0, 1)
        codes.append(r + d * ((48 if r != 48 else 49) - r))
        diff.append(d == 1)
    if sx.sym:
        from symx.shims import SymStr
        stated = SymStr(codes)
    else:
        stated = "".join(map(chr, codes))
    same = len(true) == n and sx.is_true(sx.neg(sx.either(*diff)))
    ok, fw = sx.attempt(lambda: Firmware(**base(sx, t, data=txt, data_hash=stated)), ValueError)
    sx.check("embedded: accepted exactly with its hash", ok == same)
    fw = Firmware(**base(sx, "path_" + t, data=p, data_hash=stated))
    sx.check("path: matches exactly with its hash", fw.compare_hash() == same)


def compare_path(sx, t):
    """firmware outside of the model"""
    from shepherd_core.data_models.content import Firmware
    a, b, p, same = three(sx)
    known = sx.flag("known")
    kw = {"data_hash": hash_of(sx, b)} if known else {}
    fw = Firmware(**base(sx, "path_" + t, data=p, **kw))
    sx.check("own file", fw.compare_hash() == (same or not known))
    sx.check("explicit file", fw.compare_hash(p) == (same or not known))
    q = sx.tmpdir() / "other"
    sx.check("missing file: own file", fw.compare_hash(q) == (same or not known))
    write_blob(sx, q, b)
    sx.check("matching file", fw.compare_hash(q) is True)


def task(sx, t):
    """the task that prepares the firmware can be made from both kinds"""
    from shepherd_core import fw_tools
    from shepherd_core.data_models.content import Firmware
    from shepherd_core.data_models.task import FirmwareModTask
    a, b, p, _same = three(sx)
    emb = sx.flag("embedded")
    data = fw_tools.file_to_base64(p) if emb else p
    kw = {"data_hash": hash_of(sx, a)} if sx.flag("known") else {}
    fw = Firmware(**base(sx, t if emb else "path_" + t, data=data, **kw))
    cid = sx.int("cid", 0, 65535)
    tsk = FirmwareModTask.from_firmware(fw, firmware_file=sx.tmpdir() / "x.hex", custom_id=cid)
    sx.check("data", tsk.data == fw.data)
    sx.check("type", tsk.data_type == fw.data_type)
    sx.check("id", tsk.custom_id == cid)
    sx.check("file", tsk.firmware_file == sx.tmpdir() / "x.hex")
