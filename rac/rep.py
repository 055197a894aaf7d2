"""runs the real 'auditwheel repair' (real patchelf) on a synthetic wheel and compares the result with the oracle; shared by C07-C14, C18, C24"""
from __future__ import annotations
import argparse, contextlib, io, os, pathlib, stat, zipfile
from rac.base import SKIP, quiet
from rac import world as W, an

RULE = ("synthetic wheels repaired by the real command (real patchelf) in a scratch directory: random platform, only-plat, lib-sdir, tag and strip options; "
        "the output wheel is unpacked and its ELF files, tags and RECORD compared with an oracle computed from the specification")


def rand_case(rng, **kn):
    kn.setdefault("have", 0.985)
    kn.setdefault("missing", 0.01)
    kn.setdefault("pure", 0.01)
    c = an.rand_case(rng, **kn)
    w = c["w"]
    arch, libc = w["arch"], w["libc"]
    cat = W.catalogue(libc, arch)
    names = [n for p in cat[1:] for n in (p.name, *p.aliases)]
    r = rng.random()
    if r < 0.5:
        w["plat"] = f"linux_{arch}"
    elif r < 0.65:
        w["plat"] = rng.choice(names)
    elif r < 0.75:
        p = rng.choice(cat[1:])
        w["plat"] = ".".join(sorted((p.name, *p.aliases, f"linux_{arch}")))
    elif r < 0.82:
        w["plat"] = "any"
        w["py"] = rng.choice(["py3-none", "py2.py3-none"])
        w["purelib"] = "true"
    if w["plat"] != "any" and rng.random() < 0.2:
        w["py"] = rng.choice(["cp39.cp310-abi3", "py3-none", "cp27-cp27m.cp27mu"])
    py, abi = w.get("py", "cp39-cp39").split("-")
    w["tags"] = [f"{a}-{b}-{p}" for a in py.split(".") for b in abi.split(".") for p in w["plat"].split(".")]
    c["plat"] = rng.choice(["auto", "auto", rng.choice(names), rng.choice(names)])
    c["only"] = rng.random() < 0.4
    c["sdir"] = rng.choice([".libs"] * 4 + ["_deps", ".d/x"][:1])
    c["update"] = rng.random() < 0.9
    for k in ("libc", "arch", "req", "graft"):
        c.pop(k, None)
    return c


def cases(rng, tier, **kn):
    while True:
        yield rand_case(rng, **kn)


def tree(root):
    """relative path -> (bytes, mode) for files"""
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = (open(p, "rb").read(), stat.S_IMODE(os.stat(p).st_mode))
    return out


def elf_info(path_or_bytes):
    from elftools.elf.elffile import ELFFile
    b = path_or_bytes if isinstance(path_or_bytes, bytes) else pathlib.Path(path_or_bytes).read_bytes()
    e = ELFFile(io.BytesIO(b))
    res = dict(needed=[], rpath=None, runpath=None, soname=None)
    for s in e.iter_segments():
        if s["p_type"] == "PT_DYNAMIC":
            for t in s.iter_tags():
                if t.entry.d_tag == "DT_NEEDED":
                    res["needed"].append(t.needed)
                elif t.entry.d_tag in ("DT_RPATH", "DT_RUNPATH", "DT_SONAME"):
                    k = t.entry.d_tag[3:].lower()
                    res[k] = getattr(t, k)
            break
    return res


class Out:
    pass


def run(case, tmp, patcher="patchelf"):
    """-> Out or SKIP.  Out.error: None / exception; Out.wheels: list of output wheel paths"""
    from auditwheel import main_repair
    w = case["w"]
    tmp = pathlib.Path(os.path.realpath(tmp))
    if len({f["path"] for f in w["files"]}) != len(w["files"]) or len({f["path"] for f in w["ext"]}) != len(w["ext"]):
        return SKIP
    whl, ld = W.build(w, tmp)
    o = W.Oracle(w, W.ext_root(tmp))
    r = Out()
    r.o, r.whl, r.ld, r.tmp, r.w, r.D, r.V, r.expect = o, whl, ld, tmp, w, None, None, None
    r.ext_before = tree(W.ext_root(tmp))
    # oracle for the analysis part
    plats = w["plat"].split(".")
    archs = {w["arch"]} if w["plat"] != "any" else set()
    libcs = {l for p in plats for l, t in (("glibc", "manylinux"), ("musl", "musllinux")) if p.startswith(t)}
    r.plat = case["plat"]
    base = r.plat
    reqa = None
    for a in ("aarch64", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x", "x86_64"):
        if base.endswith("_" + a):
            base, reqa = base[: -len(a) - 1], a
            break
    arch = next(iter(archs)) if archs else reqa
    libc = next(iter(libcs)) if len(libcs) == 1 else None
    if base.startswith("manylinux"):
        libc = libc or "glibc"
    if base.startswith("musllinux"):
        libc = libc or "musl"
    try:
        r.D = o.elfdata(libc, arch, case["exclude"])
        r.V = o.verdicts(r.D, case["disable"], True, base)
    except W.Ambiguous:
        return SKIP
    except W.Expect as e:
        r.expect = str(e)
    if r.V is not None:
        choose(r, base, case)
        if r.chosen is None:
            return SKIP
        r.grafted = {}      # new name -> (a source, {soname: new name} of the libraries grafted along with it)
        for fn, libs in r.files.items():
            names = {k: new_name(v) for k, v in libs.items() if v is not None and not W.LIBPY.fullmatch(k) and "." in os.path.basename(v)}
            if any(v is not None and "." not in os.path.basename(v) for v in libs.values()):
                return SKIP
            for k, n in names.items():
                known = r.grafted.setdefault(n, (libs[k], {}))[1]
                if any(known.get(a, b) != b for a, b in names.items()):
                    return SKIP         # one copy, grafted by two files for which a name means different libraries: which one it needs is open
                known.update(names)
    outd = tmp / "out"
    p = argparse.ArgumentParser(prog="auditwheel")
    sub = p.add_subparsers()
    main_repair.configure_parser(sub)
    args = p.parse_args(["repair", str(whl), "-w", str(outd), "-L", case["sdir"], "--ldpaths", ld, "--patcher", patcher]
                        + (["--only-plat"] if case["only"] else []) + ([] if case["update"] else ["--no-update-tags"])
                        + (["--disable-isa-ext-check"] if case["disable"] else []) + (["--allow-pure-python-wheel"] if case.get("allow_pure") else [])
                        + [x for e in case["exclude"] for x in ("--exclude", e)])
    args.PLAT = r.plat
    r.in_before = whl.read_bytes()
    os.chdir(tmp)
    r.cwd = os.getcwd()
    r.error, r.rc = None, None
    with quiet() as (so, se):
        try:
            r.rc = args.func(args, p)
        except SystemExit as e:
            r.error = e
        except Exception as e:  # noqa: BLE001
            r.error = e
    r.text = se.getvalue()
    r.wheels = sorted(x for x in outd.rglob("*") if x.is_file()) if outd.exists() else []
    r.args = args
    return r


def choose(r, base, case):
    """requested policy, verdict conflict and the tags to write (C07)"""
    cat, V = r.D.cat, r.V
    if base == "auto":
        r.chosen = V.overall if V.overall is not cat[0] else cat[1]
    else:
        hit = [p for p in cat if f"{base}_{r.D.arch}" == p.name or f"{base}_{r.D.arch}" in p.aliases]
        r.chosen = hit[0] if len(hit) == 1 else None
        if r.chosen is None:
            return
    c = r.chosen
    r.too_high = [n for n, v in (("symbol", V.sym), ("ucs2", V.ucs), ("pyfpe", V.pyfpe), ("deny-list", V.black), ("isa", V.machine)) if c.prio > v.prio]
    r.abis = [c.name, *c.aliases]
    if not case["only"] and c.prio < V.overall.prio:
        r.abis = [V.overall.name, *V.overall.aliases, *r.abis]
    r.files = {fn: r.D.refs[fn][r.abis[0]][0] for fn in r.D.refs}
    r.missing = any(v is None and not W.LIBPY.fullmatch(k) for f in r.files.values() for k, v in f.items())


def expected_fail(r):
    return r.expect is not None or bool(r.too_high) or r.missing


def unpack(whl, to):
    """own unpacking of the output wheel: path -> (bytes, mode)"""
    with zipfile.ZipFile(whl) as z:
        return {i.filename: (z.read(i), (i.external_attr >> 16) & 0o777) for i in z.infolist() if not i.is_dir()}, [i for i in z.infolist()]


def new_name(src):
    import hashlib
    b = pathlib.Path(src).read_bytes()
    h = hashlib.sha256(b).hexdigest()[:8]
    n = os.path.basename(src)
    base, ext = n.split(".", 1)
    return n if base.endswith("-" + h) else f"{base}-{h}.{ext}"


def in_wheel_entries(rp, fn):
    """entries of an RPATH string that lead inside the wheel, for a file at fn"""
    import platform as pl
    out = []
    d = os.path.dirname("/W/" + fn)
    for e in rp.split(":"):
        x = e
        for tok, val in (("ORIGIN", d), ("LIB", "lib64" if pl.architecture()[0] == "64bit" else "lib"), ("PLATFORM", pl.machine())):
            x = x.replace("$" + tok, val).replace("${" + tok + "}", val)
        if not x.startswith("/"):
            continue
        x = os.path.normpath(x)
        if x == "/W" or x.startswith("/W/"):
            if e not in out:
                out.append(e)
    return out


def final_path(r, fn):
    parts = fn.split("/")
    if r.files.get(fn) and len(parts) == 3 and parts[0].endswith(".data") and parts[1] == "scripts":
        return f"{r.w['name']}.scripts/{parts[2]}"
    return fn
