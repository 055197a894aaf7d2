"""ELF evidence extraction on generated ELF files"""
import os, pathlib
from rac.base import SKIP
from rac.elfgen import elf
RULE = "generated ELF files of several architectures with random symbol tables (binding, type, defined or not), version requirements and dependencies, and files that are no ELF files"
NAMES = ["PyInit_mod", "initmod", "_cffi_pypyinit_mod", "PyInit_mod2", "PyInit_mod.cpython", "PyInit_", "init", "PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter", "PyFPE_jbuf2", "PyUnicodeUCS2_X",
         "xPyUnicodeUCS2_", "PyUnicodeUCS4_X", "PyUnicodeUCS2", "foo", "free", "*", "mod"]
LIBS = ["libc.so.6", "libm.so.6", "ld-linux-x86-64.so.2", "ld-linux.so.2", "ld64.so.1", "ld64.so.2", "ld64.so.3", "libld-linux.so", "libz.so.1", "ld-musl-x86_64.so.1"]
VERS = ["GLIBC_2.2.5", "GLIBC_2.17", "GLIBC_2.34", "ZLIB_1.2", "GLIBC_PRIVATE"]


def one(rng):
    syms = [[n, rng.choice(["local", "global", "weak"]), rng.choice(["notype", "object", "func", "func", "tls"]), rng.random() < 0.5] for n in rng.choices(NAMES, k=rng.randrange(0, 7))]
    vn = [[l, rng.sample(VERS, rng.randrange(1, 4))] for l in rng.sample(LIBS, rng.choice([0, 1, 2, 3]))]
    return dict(arch=rng.choice(["x86_64", "i686", "aarch64", "s390x", "ppc64le", "armv7l"]), symbols=syms, verneed=vn, needed=rng.sample(LIBS, rng.randrange(0, 4)), sections=rng.random() < 0.93)


def cases(rng, tier):
    while True:
        if rng.random() < 0.15:
            fs = []
            for n in rng.sample(["a.so", "b.py", "c", "d.so.1", "e.py.so", "f.pyc", "g.PY", "sub/h.py", "i.txt"], 5):
                r = rng.random()
                fs.append([n, "elf" if r < 0.5 else rng.choice(["", "text", "\x7fEL", "\x7fELF", "\x7fELF\x02\x01" + "\0" * 10])])
            yield dict(kind="filter", files=fs)
        else:
            yield dict(kind="elf", name=rng.choice(["mod.so", "mod.cpython-39-x86_64-linux-gnu.so", "mod", "mod2.abi3.so", ".so", "libmod.so.1"]), e=one(rng))


def check(case, tmp):
    from auditwheel import elfutils as E
    from elftools.elf.elffile import ELFFile
    tmp = pathlib.Path(tmp)
    if case["kind"] == "filter":
        ps = []
        for n, k in case["files"]:
            p = tmp / n
            p.parent.mkdir(exist_ok=True)
            p.write_bytes(elf(symbols=[("x", "global", "func", True)]) if k == "elf" else k.encode("latin-1"))
            ps.append(p)
        got = []
        for p, e in E.elf_file_filter(iter(ps)):
            got.append(p)
            if not isinstance(e, ELFFile) or e.header["e_machine"] != "EM_X86_64":
                return f"elf_file_filter yields {e} for {p.name}"
        want = [p for p, (n, k) in zip(ps, case["files"]) if k == "elf" and not n.endswith(".py")]
        return None if got == want else f"elf_file_filter yields {[p.name for p in got]}, expected {[p.name for p in want]}"
    e = case["e"]
    p = tmp / case["name"]
    p.write_bytes(elf(arch=e["arch"], symbols=[tuple(s) for s in e["symbols"]], verneed=[(a, b) for a, b in e["verneed"]], needed=e["needed"], sections=e["sections"]))
    S = e["symbols"] if e["sections"] else []
    V = e["verneed"] if e["sections"] else []
    with p.open("rb") as f:
        x = ELFFile(f)
        got = sorted(E.elf_find_versioned_symbols(x))
        want = sorted((l, v) for l, vs in V for v in vs if not l.startswith("ld-linux") and l not in ("ld64.so.1", "ld64.so.2"))
        if got != want:
            return f"versioned symbols {got}, expected {want}"
        got = sorted(E.elf_find_ucs2_symbols(x))
        want = sorted(n for n, b, t, d in S if "PyUnicodeUCS2_" in n and not d and t == "func")
        if got != want:
            return f"UCS2 symbols {got}, expected {want}"
        got = E.elf_references_pyfpe_jbuf(x)
        want = any(n in ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter") and not d and t in ("func", "notype") for n, b, t, d in S)
        if bool(got) != want:
            return f"PyFPE use {got}, expected {want}"
        got = E.elf_is_python_extension(p, x)
        mod = case["name"].split(".", 1)[0]
        tab = {"init" + mod: 2, "PyInit_" + mod: 3, "_cffi_pypyinit_" + mod: 2}
        hits = {tab[n] for n, b, t, d in S if n in tab and d and t == "func"}
        if not (tuple(got) == (False, None) if not hits else got[0] is True and got[1] in hits):
            return f"python extension {got}, expected one of {hits}"
    got = E.get_undefined_symbols(p)
    want = {n for n, b, t, d in S if not d and b != "weak"}
    if set(got) - {""} != want:
        return f"undefined symbols {sorted(got)}, expected {sorted(want)}"
    if e["sections"]:
        got = list(E.elf_read_dt_needed(p))
        if got != e["needed"]:
            return f"needed {got}, expected {e['needed']}"
    return None
