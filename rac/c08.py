"""grafting and relinking of external libraries"""
import os
from rac.base import SKIP
from rac import rep, world as W
RULE = rep.RULE


def cases(rng, tier):
    while True:
        yield rep.rand_case(rng, libpython=0.1, script=0.1, knobs=dict(hard=0.0, fpe=0.0, ucs=0.0, isa=0.0, black=0.0, noversion=0.9))


def check(case, tmp):
    r = rep.run(case, tmp)
    if r is SKIP or r.expect or r.too_high:
        return SKIP
    if r.missing:
        if r.error is None and r.wheels:
            return "repair succeeded although an external library could not be located"
        return None
    if r.error is not None:
        return f"repair failed: {type(r.error).__name__}: {r.error} {r.text[-200:]}"
    if not r.wheels:
        return "repair succeeded without an output wheel"
    files, _ = rep.unpack(r.wheels[0], None)
    dest = r.w["name"] + case["sdir"]
    for fn, libs in r.files.items():
        smap = {s: rep.new_name(p) for s, p in libs.items() if p is not None}
        at = rep.final_path(r, fn)
        if at not in files:
            return f"{at} is missing from the repaired wheel"
        src = next(f for f in r.w["files"] if f["path"] == fn)["elf"]
        got = rep.elf_info(files[at][0])
        want = [smap[n] if n in libs and n in smap else n for n in src.get("needed", []) if not (n in libs and W.LIBPY.fullmatch(n))]
        if got["needed"] != want:
            return f"{fn}: dependencies after repair {got['needed']}, expected {want}"
        for n, p in libs.items():
            if p is not None and f"{dest}/{smap[n]}" not in files:
                return f"{fn}: {n} was not grafted as {dest}/{smap[n]}"
        if libs:
            rp = got["rpath"] if got["rpath"] is not None else got["runpath"] or ""
            new = "$ORIGIN/" + os.path.relpath(dest, os.path.dirname(at) or ".")
            if os.path.normpath(new) not in [os.path.normpath(x) for x in rp.split(":")]:
                return f"{fn}: RPATH {rp!r} lacks the graft directory {new}"
        else:
            if files[at][0] != W.elf_bytes(src, lambda s: s.replace("{EXT}", r.o.ext)):
                return f"{fn} was changed although it has no external libraries"
    for name, (p, smap) in r.grafted.items():
        at = f"{dest}/{name}"
        got = rep.elf_info(files[at][0])
        src = r.o.fs[p]["elf"]
        if got["soname"] != name:
            return f"grafted {at} has SONAME {got['soname']}"
        want = [smap.get(n, n) for n in src.get("needed", [])]
        if got["needed"] != want:
            return f"grafted {at}: dependencies {got['needed']}, expected {want}"
        rp = got["rpath"] if got["rpath"] is not None else got["runpath"]
        if (rp or None) != ("$ORIGIN" if any(n in smap for n in src.get("needed", [])) else None):
            return f"grafted {at}: RPATH {rp!r}"
    return None
