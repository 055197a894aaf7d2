"""writes small but well-formed ELF shared objects: dynamic section, symbol table, version requirements, ISA notes"""
from __future__ import annotations
import struct

MACH = {"x86_64": (62, 64, "<"), "i686": (3, 32, "<"), "aarch64": (183, 64, "<"), "armv7l": (40, 32, "<"), "ppc64le": (21, 64, "<"),
        "ppc64": (21, 64, ">"), "s390x": (22, 64, ">"), "riscv64": (243, 64, "<"), "loongarch64": (258, 64, "<"), "sparc": (43, 64, ">"),
        "mips": (8, 32, "<")}
BIND = {"local": 0, "global": 1, "weak": 2}
TYPE = {"notype": 0, "object": 1, "func": 2, "tls": 6}


def elf(arch="x86_64", needed=(), soname=None, rpath=None, runpath=None, interp=None, symbols=(), verneed=(), osabi=0, isa=None,
        flags=None, payload=b"", sections=True, dynamic=True, etype=3):
    """symbols: (name, bind, type, defined) ; verneed: [(library, [version, ...])] ; isa: bits of GNU_PROPERTY_X86_ISA_1_NEEDED"""
    mach, bits, en = MACH[arch]
    is64 = bits == 64
    if flags is None:
        flags = 0x05000400 if arch == "armv7l" else 0
    P = lambda f, *a: struct.pack(en + f, *a)
    strtab = bytearray(b"\0")
    offs = {}

    def st(s):
        b = s.encode()
        if b not in offs:
            offs[b] = len(strtab)
            strtab.extend(b + b"\0")
        return offs[b]
    # symbols
    syms = [(0, 0, 0, 0)]
    for name, bind, typ, defined in symbols:
        syms.append((st(name), BIND[bind] << 4 | TYPE[typ], 0xfff1 if defined else 0, 0))
    dynsym = b""
    for n, info, shndx, val in syms:
        dynsym += P("IBBHQQ", n, info, 0, shndx, val, 0) if is64 else P("IIIBBH", n, val, 0, info, 0, shndx)
    # version requirements
    vr, idx = b"", 2
    for k, (lib, vers) in enumerate(verneed):
        last = k == len(verneed) - 1
        vr += P("HHIII", 1, len(vers), st(lib), 16 if vers else 0, 0 if last else 16 + 16 * len(vers))
        for j, v in enumerate(vers):
            vr += P("IHHII", 0, 0, idx, st(v), 0 if j == len(vers) - 1 else 16)
            idx += 1
    versym = P("H", 0) * len(syms)
    note = b""
    if isa is not None:
        isas = isa if isinstance(isa, (list, tuple)) else [isa]
        desc = b""
        for v in isas:
            desc += P("II", 0xC0008002, 4) + P("I", v)
            if is64:
                desc += b"\0" * 4
        note = P("III", 4, len(desc), 5) + b"GNU\0" + desc
    dyn = []
    for n in needed:
        dyn.append((1, st(n)))
    if soname is not None:
        dyn.append((14, st(soname)))
    if rpath is not None:
        dyn.append((15, st(rpath)))
    if runpath is not None:
        dyn.append((29, st(runpath)))
    ehs, phs, shs = (64, 56, 64) if is64 else (52, 32, 40)
    nph = 1 + (1 if dynamic else 0) + (1 if interp is not None else 0) + (1 if note else 0)
    off = ehs + nph * phs
    blobs = []

    def place(b, align=8):
        nonlocal off
        pad = -off % align
        off += pad
        blobs.append(b"\0" * pad + b)
        o = off
        off += len(b)
        return o
    o_interp = place(interp.encode() + b"\0") if interp is not None else 0
    o_note = place(note) if note else 0
    o_sym = place(dynsym)
    o_str = place(bytes(strtab))
    o_vs = place(versym)
    o_vr = place(vr) if vr else 0
    if dynamic:
        dyn += [(5, o_str), (10, len(strtab)), (6, o_sym), (11, 24 if is64 else 16)]
        if vr:
            dyn += [(0x6FFFFFFE, o_vr), (0x6FFFFFFF, len(verneed)), (0x6FFFFFF0, o_vs)]
        dyn.append((0, 0))
    dynb = b"".join(P("QQ" if is64 else "II", a, b) for a, b in dyn) if dynamic else b""
    o_dyn = place(dynb) if dynamic else 0
    o_pay = place(payload) if payload else 0
    shstr = bytearray(b"\0")
    secs = []

    def sec(name, typ, fl, o, size, link=0, info=0, align=8, ent=0):
        n = len(shstr)
        shstr.extend(name.encode() + b"\0")
        secs.append((n, typ, fl, o, o, size, link, info, align, ent))
    if sections:
        order = []
        if interp is not None:
            order.append(".interp")
        if note:
            order.append(".note.gnu.property")
        order += [".dynsym", ".dynstr", ".gnu.version"] + ([".gnu.version_r"] if vr else []) + ([".dynamic"] if dynamic else [])
        ix = {n: i + 1 for i, n in enumerate(order)}
        if interp is not None:
            sec(".interp", 1, 2, o_interp, len(interp) + 1, align=1)
        if note:
            sec(".note.gnu.property", 7, 2, o_note, len(note))
        sec(".dynsym", 11, 2, o_sym, len(dynsym), ix[".dynstr"], 1, 8, 24 if is64 else 16)
        sec(".dynstr", 3, 2, o_str, len(strtab), align=1)
        sec(".gnu.version", 0x6FFFFFFF, 2, o_vs, len(versym), ix[".dynsym"], 0, 2, 2)
        if vr:
            sec(".gnu.version_r", 0x6FFFFFFE, 2, o_vr, len(vr), ix[".dynstr"], len(verneed), 8, 0)
        if dynamic:
            sec(".dynamic", 6, 3, o_dyn, len(dynb), ix[".dynstr"], 0, 8, 16 if is64 else 8)
        sn = len(shstr)
        shstr.extend(b".shstrtab\0")
        o_shstr = place(bytes(shstr), 1)
        secs.append((sn, 3, 0, 0, o_shstr, len(shstr), 0, 0, 1, 0))
        pad = -off % 8
        blobs.append(b"\0" * pad)
        off += pad
        o_sh = off
        shb = b"\0" * shs
        for s in secs:
            shb += P("IIQQQQIIQQ" if is64 else "IIIIIIIIII", *s)
        nsh, shstrndx = len(secs) + 1, len(secs)
    else:
        o_sh, shb, nsh, shstrndx = 0, b"", 0, 0
    total = off
    ph = []

    def phdr(t, fl, o, size, align=8):
        ph.append(P("IIQQQQQQ", t, fl, o, o, o, size, size, align) if is64 else P("IIIIIIII", t, o, o, o, size, size, fl, align))
    if interp is not None:
        phdr(3, 4, o_interp, len(interp) + 1, 1)
    phdr(1, 7, 0, total, 0x1000)
    if dynamic:
        phdr(2, 6, o_dyn, len(dynb))
    if note:
        phdr(4, 4, o_note, len(note))
    ident = b"\x7fELF" + bytes([2 if is64 else 1, 1 if en == "<" else 2, 1, osabi]) + b"\0" * 8
    eh = ident + (P("HHIQQQIHHHHHH", etype, mach, 1, 0, ehs, o_sh, flags, ehs, phs, nph, shs, nsh, shstrndx) if is64 else
                  P("HHIIIIIHHHHHH", etype, mach, 1, 0, ehs, o_sh, flags, ehs, phs, nph, shs, nsh, shstrndx))
    assert len(eh) == ehs
    return eh + b"".join(ph) + b"".join(blobs) + shb


if __name__ == "__main__":
    import io, sys
    from elftools.elf.elffile import ELFFile
    for arch in MACH:
        b = elf(arch, ["libc.so.6", "libz.so.1"], "libx.so", "/a:$ORIGIN/b", None, "/lib64/ld.so", [("foo", "global", "func", False), ("bar", "weak", "func", False)],
                [("libc.so.6", ["GLIBC_2.2.5", "GLIBC_2.17"]), ("libm.so.6", ["GLIBC_2.3"])], isa=4 if arch == "x86_64" else None)
        e = ELFFile(io.BytesIO(b))
        s = e.get_section_by_name(".dynsym")
        print(arch, [x.name for x in s.iter_symbols()], [t.needed for t in e.get_section_by_name(".dynamic").iter_tags() if t.entry.d_tag == "DT_NEEDED"],
              [(v.name, [a.name for a in it]) for v, it in e.get_section_by_name(".gnu.version_r").iter_versions()],
              [n["n_desc"] for sc in e.iter_sections() if sc.name == ".note.gnu.property" for n in sc.iter_notes()],
              [t.needed for sg in e.iter_segments() if sg["p_type"] == "PT_DYNAMIC" for t in sg.iter_tags() if t.entry.d_tag == "DT_NEEDED"])
