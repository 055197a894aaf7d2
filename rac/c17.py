"""dependency trees of ELF files, path lists and ELF compatibility"""
import os, pathlib, zipfile
from rac.base import SKIP
from rac import world as W, an
RULE = ("every ELF file of synthetic wheels resolved by ldd (RPATH, RUNPATH, environment, configured directories, interpreter, symlinks, incompatible and non-ELF candidates, "
        "exclusions) and compared with an oracle; random path lists; all pairs of ELF platforms")
OS = ["ELFOSABI_NONE", "ELFOSABI_SYSV", "ELFOSABI_GNU", "ELFOSABI_LINUX", "ELFOSABI_FREEBSD", "ELFOSABI_SOLARIS", 97, 64]


def search(rng):
    """few names, each in several directories, found through every list there is"""
    w = dict(an.rand_case(rng, exclude=0, libpython=0, pure=0.0)["w"])
    names, dirs = ["liba.so.1", "libb.so.1", "libc9.so.1"], ["d0", "d1", "d2", "d3"]

    def paths():
        return rng.choice([None, None, "{EXT}/" + rng.choice(dirs), ":".join("{EXT}/" + rng.choice(dirs) for _ in range(2)), "$ORIGIN", "{EXT}/nope", "$ORIGIN/../" + rng.choice(dirs)])

    def spec(n):
        return dict(arch=w["arch"], soname=n, needed=rng.sample([x for x in names if x != n], rng.randrange(0, 3)), rpath=paths(), runpath=paths())

    w["ext"] = [dict(path=f"{d}/{n}", elf=spec(n)) for d in dirs for n in names if rng.random() < 0.6]
    w["files"] = [dict(path=f"pkg/m{i}.cpython-39-x86_64-linux-gnu.so", elf=dict(spec(""), soname=None, needed=rng.sample(names, rng.randint(1, 2)))) for i in range(2)]
    w["ld"], w["env"], w["dirs"] = rng.choice([[], [rng.choice(dirs)], rng.sample(dirs, 2)]), rng.choice([[], [rng.choice(dirs)], rng.sample(dirs, 2)]), dirs
    return dict(kind="tree", w=w, exclude=[])


def cases(rng, tier):
    while True:
        yield search(rng)
        yield search(rng)
        r = rng.random()
        if r < 0.7:
            c = an.rand_case(rng, exclude=0.25, libpython=0.15, pure=0.0)
            w = c["w"]
            if rng.random() < 0.35:
                w["env"] = rng.choice([["d1"], ["d1", "d0", "d1"], ["nope", "d1"], ["store"]])
                if rng.random() < 0.5:
                    w["ld"] = rng.choice([[], ["d0"]])
            for f in w["files"]:
                if "elf" in f and rng.random() < 0.15:
                    f["elf"]["interp"] = rng.choice(["{EXT}/d1/ld-linux-x86-64.so.2", "{EXT}/d0/libfoo.so.1", "{EXT}/d1/ld-musl-x86_64.so.1"])
            yield dict(kind="tree", w=w, exclude=c["exclude"])
        elif r < 0.9:
            parts = ["", "{R}/a", "{R}/b", "{R}/a/", "{R}//a", "{R}/a/../b", "{R}/missing", "$ORIGIN", "${ORIGIN}/../a", "$ORIGIN/..", "{R}/file", "{R}/link"]
            yield dict(kind="paths", parts=[rng.choice(parts) for _ in range(rng.randrange(0, 7))], origin=rng.choice(["{R}/b/x.so", "{R}/x.so"]))
        else:
            pl = lambda: [rng.choice(OS), rng.choice([32, 64]), rng.choice([True, False]), rng.choice(["EM_X86_64", "EM_386"])]
            p = pl()
            q = pl() if rng.random() < 0.5 else [rng.choice(OS), *p[1:]]
            if rng.random() < 0.3:
                q = list(p)
                q[rng.randrange(4)] = pl()[0] if False else q[0]
            yield dict(kind="compat", p=p, q=q)


def check(case, tmp):
    from auditwheel import lddtree as L
    tmp = pathlib.Path(os.path.realpath(tmp))
    if case["kind"] == "compat":
        mk = lambda x: L.Platform(*x, None, None, None)
        p, q = case["p"], case["q"]
        ok = lambda a, b: a == b or {a, b} <= {"ELFOSABI_NONE", "ELFOSABI_SYSV", "ELFOSABI_GNU", "ELFOSABI_LINUX"}
        want = p[1:] == q[1:] and ok(p[0], q[0])
        got = mk(p).is_compatible(mk(q))
        return None if bool(got) == want else f"is_compatible({p}, {q}) is {got}"
    if case["kind"] == "paths":
        for d in ("a", "b"):
            (tmp / d).mkdir()
        (tmp / "file").write_text("x")
        os.symlink("a", tmp / "link")
        os.chdir(tmp / "b")
        sub = lambda s: s.replace("{R}", str(tmp))
        got = L.parse_ld_paths(":".join(sub(p) for p in case["parts"]), path=sub(case["origin"]))
        want = []
        if ":".join(case["parts"]):
            for p in case["parts"]:
                p = sub(p)
                o = os.path.dirname(sub(case["origin"]))
                p = os.getcwd() if p == "" else p.replace("${ORIGIN}", o).replace("$ORIGIN", o)
                p = os.path.normpath(p).replace("//", "/")
                if p not in want and os.path.isdir(p):
                    want.append(p)
        return None if got == want else f"parse_ld_paths of {case['parts']}: {got}, expected {want}"
    w = case["w"]
    if len({f["path"] for f in w["files"]}) != len(w["files"]) or len({f["path"] for f in w["ext"]}) != len(w["ext"]):
        return SKIP
    whl, ld = W.build(w, tmp)
    root = tmp / "W"
    root.mkdir()
    with zipfile.ZipFile(whl) as z:
        z.extractall(root)
    os.chdir(root)
    o = W.Oracle(w, W.ext_root(tmp))
    r = an.Run()
    r.o = o
    os.environ.pop("LD_LIBRARY_PATH", None)
    os.environ.pop("AUDITWHEEL_LD_LIBRARY_PATH", None)
    if w.get("env"):
        os.environ["AUDITWHEEL_LD_LIBRARY_PATH"] = ":".join(str(W.ext_root(tmp) / d) for d in w["env"])
    try:
        for fn, spec in o.elfs():
            try:
                t, exp_err = o.tree(fn, case["exclude"]), None
            except W.Ambiguous:
                continue
            except W.Expect as e:
                t, exp_err = None, str(e)
            try:
                got = L.ldd(pathlib.Path(fn), exclude=frozenset(case["exclude"]), ldpaths=L.ld_paths_from_arg(ld))
            except Exception as e:  # noqa: BLE001
                if exp_err == type(e).__name__:
                    continue
                return f"{fn}: {type(e).__name__}: {e}"
            if exp_err:
                return f"{fn}: no {exp_err}"
            if tuple(got.needed) != tuple(t.needed):
                return f"{fn}: direct dependencies {got.needed}, expected {tuple(t.needed)}"
            nm = lambda p: None if p is None else an.norm(r, os.path.join(root, p)) if not str(p).startswith("/") else an.norm(r, p)
            a = {k: (x.soname, nm(x.realpath), tuple(x.needed) if k != os.path.basename(spec.get("interp") or "//") else ()) for k, x in got.libraries.items()}
            b = {k: (x.soname, x.real, x.needed if k != os.path.basename(spec.get("interp") or "//") else ()) for k, x in t.libs.items()}
            if a != b:
                return f"{fn}: libraries {({k: v for k, v in a.items() if b.get(k) != v})} expected {({k: v for k, v in b.items() if a.get(k) != v})}"
            if [str(x) for x in got.rpath] != [x.replace("/W", str(root), 1) if x.startswith("/W") else x for x in t.rpath]:
                return f"{fn}: rpath {got.rpath} expected {t.rpath}"
    finally:
        os.environ.pop("AUDITWHEEL_LD_LIBRARY_PATH", None)
    return None
