"""ELF executables in the scripts directory"""
import os, pathlib, stat, sys, sysconfig
from rac.base import SKIP, patched
from rac import rep, fake, world as W
RULE = ("the shim step run on files with random names, modes and package names, the shim executed with a recording os.execv; path classification on random paths; full repairs of wheels "
        "with ELF scripts with a recording patch tool")
NAMES = ["tool", "my-tool.exe", "sp ace", "quo'te", 'dq"x', "back\\slash", "\u00fcml", "a{b}c", "new\tline", "x.so"]


def cases(rng, tier):
    while True:
        r = rng.random()
        if r < 0.45:
            yield dict(kind="shim", pkg=rng.choice(["pkg", "my_pkg", "p.k", "a'b"]), name=rng.choice(NAMES), mode=rng.choice([0o755, 0o644, 0o700, 0o555, 0o600]), content=rng.choice(["\x7fELFabc", "", "x" * 100]),
                       exists=rng.random() < 0.3, args=rng.choice([[], ["a"], ["a b", "--x"]]))
        elif r < 0.7:
            comp = ["pkg-1.0.data", "scripts", "tool", "pkg", "x.data", "Scripts", "purelib", ".data", "data", "scripts2"]
            yield dict(kind="path", p=[rng.choice(comp) for _ in range(rng.choice([1, 2, 3, 3, 3, 4]))])
        else:
            c = rep.rand_case(rng, script=1.0, libpython=0.05, missing=0.0, pure=0.0, knobs=dict(hard=0.0, black=0.0, isa=0, ucs=0, fpe=0, noversion=1.0))
            w = c["w"]
            if rng.random() < 0.3:
                e = next((f for f in w["files"] if "/scripts/" in f["path"]), None)
                if e is not None and rng.random() < 0.7:
                    w["files"].append(dict(path=f"{w['name']}-1.0.data/scripts/second-tool", elf=dict(e["elf"]), mode=0o755))
                elif e is not None:
                    w["files"].append(dict(path=f"{w['name']}-1.0.data/scripts/sub/deep", elf=dict(e["elf"]), mode=0o755))
            c["plat"] = "auto" if rng.random() < 0.7 else c["plat"]
            yield dict(kind="repair", c=c)


class Exec(BaseException):
    pass


def run_shim(path, platlib, argv):
    """execute the launcher with os.execv replaced; returns recorded calls"""
    calls = []

    def execv(p, a):
        calls.append((str(p), list(a)))
        raise Exec

    def get_path(name, *a, **k):
        return platlib if name == "platlib" else "/other/" + name
    src = path.read_text(encoding="utf-8")
    if not src.startswith("#!python\n"):
        return f"launcher does not start with a #!python line: {src[:40]!r}"
    old = sys.argv
    sys.argv = argv
    others = {n: execv_fail(n, calls) for n in ("execve", "execvp", "execl", "execlp", "execvpe")}
    try:
        with patched(os, execv=execv, **others), patched(sysconfig, get_path=get_path):
            exec(compile(src, str(path), "exec"), {"__name__": "__main__", "__file__": str(path)})
    except Exec:
        pass
    except Exception as e:  # noqa: BLE001
        return f"launcher fails: {type(e).__name__}: {e}"
    finally:
        sys.argv = old
    return calls


def execv_fail(n, calls):
    def f(p, *a, **k):
        calls.append((str(p), list(a[0]) if n in ("execve", "execvp", "execvpe") else list(a)))
        raise Exec
    return f


def check(case, tmp):
    from auditwheel import repair as R
    tmp = pathlib.Path(os.path.realpath(tmp))
    if case["kind"] == "path":
        if not hasattr(R, "_path_is_script"):
            return SKIP
        p = case["p"]
        want = len(p) == 3 and p[0].endswith(".data") and p[1] == "scripts"
        got = R._path_is_script(pathlib.Path(*p))
        return None if bool(got) == want else f"_path_is_script({'/'.join(p)}) is {got}"
    if case["kind"] == "shim":
        if not hasattr(R, "_replace_elf_script_with_shim"):
            return SKIP
        os.chdir(tmp)
        os.umask(0o022)
        f = pathlib.Path(f"{case['pkg']}-1.0.data/scripts") / case["name"]
        f.parent.mkdir(parents=True)
        f.write_bytes(case["content"].encode())
        f.chmod(case["mode"])
        if case["exists"]:
            pathlib.Path(f"{case['pkg']}.scripts").mkdir()
        new = R._replace_elf_script_with_shim(case["pkg"], f)
        want = pathlib.Path(f"{case['pkg']}.scripts") / case["name"]
        if new != want:
            return f"moved to {new}, expected {want}"
        return judge(tmp, f, want, case["content"].encode(), case["mode"], case["args"])
    c = case["c"]
    with fake.fake_patchelf(tmp) as calls:
        r = rep.run(c, tmp)
        if r is SKIP or rep.expected_fail(r) or r.error is not None or len(r.wheels) != 1:
            return SKIP
        done = [fake.parse(x) for x in calls()]
    files, _ = rep.unpack(r.wheels[0], None)
    x = tmp / "x"
    for n, (b, m) in files.items():
        p = x / n
        p.parent.mkdir(parents=True, exist_ok=True)
        p.write_bytes(b)
        p.chmod(m)
    os.chdir(x)
    for f in r.w["files"]:
        if "elf" not in f or ".data/" not in f["path"]:
            continue
        fn = f["path"]
        orig = W.elf_bytes(f["elf"], lambda s: s.replace("{EXT}", str(W.ext_root(r.tmp))))
        to = rep.final_path(r, fn)
        if to == fn:
            if files.get(fn, (None,))[0] != orig:
                return f"{fn} needs no patch or is no script but was changed or moved"
            continue
        v = judge(x, pathlib.Path(fn), pathlib.Path(to), orig, f.get("mode", 0o644) | 0o600, ["a"])
        if v:
            return f"{fn}: {v}"
        mine = [d for d in done if d["file"] == to or d["file"].endswith("/" + to)]
        if any(d["file"] == fn or d["file"].endswith("/" + fn) for d in done):
            return f"patches for {fn} were applied to the launcher"
        need = {k for k in r.files[fn] if not W.LIBPY.fullmatch(k)}
        lp = {k for k in r.files[fn] if W.LIBPY.fullmatch(k)}
        if len(mine) != 1 or {a for a, _ in mine[0]["replace"]} != need or set(mine[0]["remove"]) != lp or not mine[0]["rpath"]:
            return f"{fn}: patches {mine} applied to {to}, expected to rename {need} and remove {lp}"
    return None


def judge(root, shim, moved, content, mode, args):
    if not (root / moved).is_file() or (root / moved).read_bytes() != content:
        return f"the executable is not unchanged at {moved}"
    if not (root / shim).is_file():
        return "no launcher left in the scripts directory"
    ms = [stat.S_IMODE((root / q).stat().st_mode) for q in (moved, shim)]
    if ms != [mode, mode]:
        return f"modes of the executable and of the launcher are {[oct(m) for m in ms]}, originally {mode:o}"
    argv = [str(root / shim), *args]
    calls = run_shim(root / shim, "/plat lib/dir", list(argv))
    if isinstance(calls, str):
        return calls
    want = [(os.path.join("/plat lib/dir", moved.as_posix()), argv)]
    return None if calls == want else f"the launcher executes {calls}, expected {want}"
