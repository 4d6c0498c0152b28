"""minimal executable with one data block and a symbol in it"""
import struct


def build(endian, vaddr, blob, symbols, machine="arm", dup=False):
    """ELF32; symbols: name -> address"""
    e = "<" if endian == "little" else ">"
    em = {"arm": 40, "msp430": 105}[machine]
    names = b"\0"
    syms = struct.pack(e + "IIIBBH", 0, 0, 0, 0, 0, 0)
    for n, a in symbols.items():
        syms += struct.pack(e + "IIIBBH", len(names), a, 2, 0x11, 0, 1)
        names += n.encode() + b"\0"
    shstr = b"\0.data\0.symtab\0.strtab\0.shstrtab\0"
    nph = 2 if dup else 1
    off_data = 52 + 32 * nph
    pad = (-(off_data - vaddr)) % 4096  # keep offset congruent to the address
    off_data += pad
    off_sym = off_data + len(blob)
    off_sym += -off_sym % 4
    off_str = off_sym + len(syms)
    off_shs = off_str + len(names)
    off_sh = off_shs + len(shstr)
    off_sh += -off_sh % 4
    ident = b"\x7fELF" + bytes([1, 1 if endian == "little" else 2, 1]) + b"\0" * 9
    hdr = ident + struct.pack(e + "HHIIIIIHHHHHH", 2, em, 1, vaddr, 52, off_sh, 0x5000000 if em == 40 else 0, 52, 32, nph, 40, 5, 4)
    ph = struct.pack(e + "IIIIIIII", 1, off_data, vaddr, vaddr, len(blob), len(blob), 6, 4096)
    out = bytearray(off_sh + 5 * 40)
    out[0:52] = hdr
    for i in range(nph):
        out[52 + 32 * i:84 + 32 * i] = ph
    out[off_data:off_data + len(blob)] = blob
    out[off_sym:off_sym + len(syms)] = syms
    out[off_str:off_str + len(names)] = names
    out[off_shs:off_shs + len(shstr)] = shstr
    sh = [(0,) * 10,
          (1, 1, 3, vaddr, off_data, len(blob), 0, 0, 4, 0),
          (7, 2, 0, 0, off_sym, len(syms), 3, 1, 4, 16),
          (15, 3, 0, 0, off_str, len(names), 0, 0, 1, 0),
          (23, 3, 0, 0, off_shs, len(shstr), 0, 0, 1, 0)]
    for i, s in enumerate(sh):
        out[off_sh + 40 * i:off_sh + 40 * (i + 1)] = struct.pack(e + "10I", *s)
    return bytes(out), off_data
