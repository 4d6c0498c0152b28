"""firmware files with symbolic content.

During symbolic execution a firmware file holds a short unique text; the library stand-ins (ELF and HEX reader, hash)
look up the symbolic content it stands for. Replays write the real files.
"""
import hashlib
import os
from pathlib import Path

from . import elf_common

SYMBOL = "SHEPHERD_NODE_ID"
_files: list = []


def digest(name, items):
    """text that stands for the hash of a content: injective, without white space, of no particular length"""
    from symx.shims import SymStr
    r = SymStr([*map(ord, name), *[v + 0x4000 for v in items]])
    r.opaque = True
    return r


def reset():
    _files.clear()


def _put(path, kind, **kw):
    _files.append({"kind": kind, **kw})
    pre = {"elf": b"\x7fELF", "hex": b":", "blob": b""}[kind]
    raw_write(path, pre + b"stand-in %06d" % (len(_files) - 1))


def _get(data):
    if isinstance(data, bytes) and len(data) < 30 and b"stand-in " in data:
        return _files[int(data[-6:])]
    return None


def content(path):
    """what the file holds now"""
    return _get(raw(path))


def raw(path):
    """what is really on disk"""
    fd = os.open(path, os.O_RDONLY)
    try:
        return os.read(fd, 1 << 20)
    finally:
        os.close(fd)


def raw_write(path, data):
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
    try:
        os.write(fd, data)
    finally:
        os.close(fd)


# ------------------------------------------------------------------ stand-ins
class FakeELF:
    def __init__(self, path, checksec=True):
        from elftools.common.exceptions import ELFError
        f = content(path)
        if f is None or f["kind"] != "elf":
            raise ELFError("Magic number does not match")
        self.f = {**f, "mem": list(f["mem"])}
        self.path = self.file_name = str(path)
        self.symbols = self.sym = dict(f["symbols"])
        self.endian, self.arch, self.elftype = f["endian"], f["arch"], "EXEC"
        self.little_endian = self.endian == "little"
        self.bits, self.bytes = 32, 4

    def read(self, address, count):
        from symx import engine as E
        from symx.shims import SymBytes
        f, n = self.f, len(self.f["mem"])
        out = []
        for k in range(count):
            a = address + k
            if not bool((a >= f["base"]) & (a < f["base"] + n)):
                break
            v = f["mem"][0]
            for i in range(1, n):
                v = E.ite(a == f["base"] + i, f["mem"][i], v)
            out.append(v)
        return SymBytes(out)

    def write(self, address, data):
        from symx import engine as E
        f, n = self.f, len(self.f["mem"])
        for k, d in enumerate(list(data)):
            a = address + k
            if not bool((a >= f["base"]) & (a < f["base"] + n)):
                raise AttributeError("address outside of the segments")
            f["mem"] = [E.ite(a == f["base"] + i, d, f["mem"][i]) for i in range(n)]

    @property
    def data(self):
        raise E_unsupported("raw data of the ELF stand-in")

    def save(self, path=None):
        _put(path or self.path, **self.f)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        return False


def E_unsupported(txt):
    from symx.engine import Unsupported
    return Unsupported(txt)


class FakeHex:
    """image of n bytes from a start address, and optionally the reset vector"""

    def __init__(self, source=None):
        f = content(source)
        if f is None or f["kind"] != "hex":
            from intelhex import HexRecordError
            raise HexRecordError(line=1)
        self.f = f
        self.start_addr = None

    def minaddr(self):
        return self.f["start"] if self.f["n"] else (0xFFFE if self.f["vec"] is not None else None)

    def maxaddr(self):
        return 0xFFFF if self.f["vec"] is not None else (self.f["start"] + self.f["n"] - 1 if self.f["n"] else None)

    def addresses(self):
        return _Addr(self.f)

    def segments(self):
        f = self.f
        return ([(f["start"], f["start"] + f["n"])] if f["n"] else []) + ([(0xFFFE, 0x10000)] if f["vec"] is not None else [])

    def __len__(self):
        return self.f["n"] + (2 if self.f["vec"] is not None else 0)

    def __getitem__(self, a):
        if self.f["vec"] is not None and a in (0xFFFE, 0xFFFF):
            return self.f["vec"][a - 0xFFFE]
        raise E_unsupported("content of the HEX stand-in")

    def gets(self, addr, length):
        from intelhex import NotEnoughDataError
        from symx.shims import SymBytes
        if self.f["vec"] is None:
            raise NotEnoughDataError(address=addr, length=length)
        return SymBytes([self[addr + k] for k in range(length)])

    def get_memory_size(self):
        from intelhex import IntelHex
        ih = IntelHex()
        for k in range(len(self)):
            ih[0x4000 + k] = 1
        return ih.get_memory_size()


class _Addr:
    def __init__(self, f):
        self.f = f

    def __len__(self):
        return self.f["n"] + (2 if self.f["vec"] is not None else 0)

    def __contains__(self, a):
        f = self.f
        if f["vec"] is not None and a in (0xFFFE, 0xFFFF):
            return True
        return bool(f["n"]) and bool((f["start"] <= a) & (f["start"] + f["n"] > a))

    def __iter__(self):
        for k in range(self.f["n"]):
            yield self.f["start"] + k
        if self.f["vec"] is not None:
            yield from (0xFFFE, 0xFFFF)

    def __getitem__(self, k):
        if k < 0:
            k += len(self)
        return list(self)[k]


class FakeHash:
    """a hash without collisions: the content itself"""

    def __getattr__(self, name):
        real = getattr(hashlib, name)
        if not callable(real) or not (name.startswith("sha") or name.startswith("blake") or name == "md5"):
            return real

        def make(data=b"", **k):
            return _Hash(name, real, data)
        return make


class _Hash:
    def __init__(self, name, real, data):
        self.name, self.real, self.parts = name, real, [data] if len(data) else []

    def update(self, data):
        self.parts.append(data)

    def hexdigest(self):
        from symx.shims import SymStr
        from symx.shims import SymBytes
        if any(type(x) is SymBytes for x in self.parts):
            items = [v for x in self.parts for v in x]
            if all(type(v) is int for v in items):
                return self.real(bytes(items)).hexdigest()
            return digest(self.name, [v for x in self.parts for v in x])
        f = _get(b"".join(self.parts))
        if f is not None and f["kind"] == "blob" and all(type(v) is int for v in f["items"]):
            return self.real(bytes(f["items"])).hexdigest()
        if f is None:
            return self.real(b"".join(self.parts)).hexdigest()
        if f["kind"] != "blob":
            return f"{self.name} of {_files.index(f)}"
        return digest(self.name, f["items"])


def stand_ins():
    import intelhex
    from symx import shims
    shims.MODULE_SHIMS[hashlib] = FakeHash()
    shims.NAME_SHIMS[id(intelhex.IntelHex)] = FakeHex
    from pwnlib.elf import ELF
    shims.NAME_SHIMS[id(ELF)] = FakeELF


# ------------------------------------------------------------------ symbolic bytes in files
class FakeFile:
    """binary file of symbolic bytes, the real file holds the text standing for it"""

    def __init__(self, path, mode):
        from symx.shims import SymBytes
        self.path, self.mode, self.pos, self.closed = path, mode, 0, False
        self.name = str(path)
        self.buf = SymBytes([])
        if "w" not in mode:
            f = content(path) if Path(path).exists() else None
            if f is not None and f["kind"] == "blob":
                self.buf = SymBytes(f["items"])
            elif Path(path).exists():
                self.buf = raw(path)
        if "a" in mode:
            self.pos = len(self.buf)
        if "w" in mode:
            raw_write(path, b"")

    def read(self, n=-1):
        out = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readall(self):
        return self.read()

    def seek(self, off, whence=0):
        self.pos = off + (0, self.pos, len(self.buf))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        self.buf = self.buf[:self.pos] + data + self.buf[self.pos + len(data):]
        self.pos += len(data)
        return len(data)

    def flush(self):
        pass

    def close(self):
        from symx.shims import SymBytes
        if self.closed:
            return
        self.closed = True
        if self.mode.strip("b") == "r":
            return
        if type(self.buf) is SymBytes and not all(type(x) is int for x in self.buf.items):
            _put(self.path, "blob", items=list(self.buf))
        else:
            raw_write(self.path, bytes(self.buf.items) if type(self.buf) is SymBytes else self.buf)

    def __enter__(self):
        return self

    def __exit__(self, *_a):
        self.close()
        return False


class FakeZstd:
    """lossless compression: the text standing for the content"""

    def __init__(self):
        import zstandard
        self.real = zstandard

    def compress(self, data, *a, **k):
        from symx.shims import SymBytes
        if type(data) is SymBytes:
            if all(type(x) is int for x in data.items):
                data = bytes(data.items)
            else:
                _files.append({"kind": "blob", "items": list(data)})
                data = b"stand-in %06d" % (len(_files) - 1)
        return self.real.compress(data, *a, **k)

    def decompress(self, data, *a, **k):
        from symx.shims import SymBytes
        data = self.real.decompress(data, *a, **k)
        f = _get(data)
        return SymBytes(f["items"]) if f is not None and f["kind"] == "blob" else data

    def __getattr__(self, name):
        outer = self
        if name == "ZstdCompressor":
            class Cmp:
                def __init__(self, level=3, **_k):
                    self.level = level

                def compress(self, data):
                    return outer.compress(data, self.level)
            return Cmp
        if name == "ZstdDecompressor":
            class Dec:
                def __init__(self, **_k):
                    pass

                def decompress(self, data, *a, **k):
                    return outer.decompress(data)
            return Dec
        return getattr(self.real, name)


class FakeProcess:
    """objcopy from ELF to HEX"""

    def __getattr__(self, name):
        import subprocess
        if name != "run":
            return getattr(subprocess, name)

        def run(cmd, *a, **k):
            f = content(cmd[-2]) if list(cmd[:3]) == ["objcopy", "-O", "ihex"] and os.path.isfile(cmd[-2]) else None
            if f is None or f["kind"] != "elf":
                return subprocess.run(cmd, *a, **k)
            _put(cmd[-1], "hex", start=f["base"], n=len(f["mem"]), vec=None)
            return subprocess.CompletedProcess(cmd, 0)
        return run


def symbolic_files():
    """files of registered content deliver symbolic bytes; file content may be compressed"""
    import builtins

    import zstandard
    from symx import shims
    import subprocess
    shims.MODULE_SHIMS[zstandard] = FakeZstd()
    shims.MODULE_SHIMS[subprocess] = FakeProcess()
    old = Path.open

    def p_open(self, mode="r", *a, **k):
        return FakeFile(self, mode) if "b" in mode and a_blob(self, mode) else old(self, mode, *a, **k)

    def b_open(file, mode="r", *a, **k):
        if isinstance(file, (str, Path)) and "b" in mode and a_blob(file, mode):
            return FakeFile(file, mode)
        return builtins.open(file, mode, *a, **k)

    def p_read(self):
        with self.open("rb") as f:
            return f.read()

    def p_write(self, data):
        with self.open("wb") as f:
            return f.write(data)

    Path.open, Path.read_bytes, Path.write_bytes = p_open, p_read, p_write
    shims.SHIMS["open"] = b_open


def a_blob(path, mode):
    if "r" in mode:
        if not os.path.isfile(path):
            return False
        f = content(path)
        return f is not None and f["kind"] == "blob"
    return os.path.isdir(os.path.dirname(path) or ".")


# ------------------------------------------------------------------ files
def write_blob(sx, path, items):
    if sx.sym:
        _put(path, "blob", items=list(items))
    else:
        Path(path).write_bytes(bytes(items))


def hash_of(sx, items):
    if sx.sym and not all(type(v) is int for v in items):
        from symx.shims import SymStr
        return digest("sha3_224", items)
    return hashlib.sha3_224(bytes(items)).hexdigest()


def same_content(sx, path, items):
    if sx.sym:
        f = content(path)
        if f is None or f["kind"] != "blob":
            return False
        return sx.both(True, *[a == b for a, b in zip(f["items"], items)])
    return Path(path).read_bytes() == bytes(items)


def write_elf(sx, path, endian, base, mem, symbols, machine="arm"):
    if sx.sym:
        _put(path, "elf", endian=endian, base=base, mem=list(mem), symbols=dict(symbols),
             arch={"arm": "arm", "msp430": "em_msp430"}[machine])
    else:
        data, _ = elf_common.build(endian, base, bytes(mem), symbols, machine)
        Path(path).write_bytes(data)


def elf_memory(sx, path, base, n, ref=None):
    """bytes of the data block; replays also insist that the rest of the file equals the reference"""
    if sx.sym:
        f = content(path)
        return f["mem"] if f is not None and f["kind"] == "elf" else None
    data = Path(path).read_bytes()
    off = int.from_bytes(data[56:60], "little" if data[5] == 1 else "big")
    if ref is not None and (len(ref) != len(data) or data[:off] != ref[:off] or data[off + n:] != ref[off + n:]):
        return None
    return list(data[off:off + n])


def write_hex(sx, path, start, n, vec):
    if sx.sym:
        _put(path, "hex", start=start, n=n, vec=vec)
        return
    from intelhex import IntelHex
    ih = IntelHex()
    for k in range(n):
        ih[start + k] = k & 255
    if vec is not None:
        ih[0xFFFE], ih[0xFFFF] = vec
    ih.write_hex_file(str(path))
