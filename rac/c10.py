"""RPATH rewriting: append_rpath_within_wheel with a recording patcher, and end to end"""
import os, pathlib
from rac.base import SKIP
from rac import rep, world as W, fake
RULE = "random RPATH strings (in-wheel, outside, relative, empty, duplicate, every token with and without braces) for files at random depths; plus " + rep.RULE
ENTS = ["$ORIGIN", "${ORIGIN}", "$ORIGIN/..", "$ORIGIN/../x.libs", "${ORIGIN}/../x.libs", "$ORIGIN/../../..", "$ORIGIN/../../../../etc", "", ".", "lib", "{W}", "{W}/", "{W}/a", "{W}2/a",
        "{W}/../w/a", "{W}/../q", "/usr/lib", "/usr/$LIB", "$LIB", "$ORIGIN/$LIB", "$ORIGIN/${LIB}", "{W}/${PLATFORM}", "{W}/$PLATFORM/x", "$PLATFORM", "/", "$FOO", "$ORIGINAL", "{W}/a/b", "../x.libs",
        "$ORIGIN/", "$ORIGIN//", "/$ORIGIN", "//usr", "{W}/link/x", "$ORIGIN/a:", "{W}/loop"]


def cases(rng, tier):
    for e in ENTS:
        yield dict(kind="fn", old=[e], new="$ORIGIN/../x.libs", at="a/m.so", rel=False)
    while True:
        if rng.random() < 0.9:
            old = [rng.choice(ENTS) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
            yield dict(kind="fn", old=old, new=rng.choice(["$ORIGIN/../x.libs", "$ORIGIN/x.libs", "$ORIGIN", "${ORIGIN}/../x.libs"]), at=rng.choice(["m.so", "a/m.so", "a/b/m.so"]), rel=rng.random() < 0.4,
                       twice=rng.random() < 0.3)
        else:
            yield dict(kind="e2e", c=rep.rand_case(rng, libpython=0.0, script=0.2, knobs=dict(hard=0.0, fpe=0.0, ucs=0.0, isa=0.0, black=0.0, noversion=0.9)))


class Stub:
    def __init__(self, cur):
        self.cur, self.calls = cur, []

    def get_rpath(self, p):
        self.key = os.path.realpath(p)
        return self.cur

    def set_rpath(self, p, v):
        self.calls.append(os.path.realpath(p))
        self.cur = v


def inside(e, d, root):
    """does entry e of a file in directory d lead inside root?  (own expansion)"""
    import platform as pl
    x = e
    for tok, val in (("ORIGIN", d), ("LIB", "lib64" if pl.architecture()[0] == "64bit" else "lib"), ("PLATFORM", pl.machine())):
        x = x.replace("$" + tok, val).replace("${" + tok + "}", val)
    if not x.startswith("/"):
        return False
    x = os.path.realpath(x)
    return x == root or x.startswith(root + "/")


def check(case, tmp):
    if case["kind"] == "e2e":
        return e2e(case["c"], tmp)
    try:
        from auditwheel.repair import append_rpath_within_wheel
    except ImportError:
        return SKIP
    tmp = os.path.realpath(tmp)
    root = tmp + "/w"
    os.makedirs(root + "/a/b")
    os.makedirs(tmp + "/w2")
    os.symlink(tmp + "/w2", root + "/link")
    os.symlink(root, tmp + "/w2/loop")
    os.chdir(root)
    lib = os.path.join(root, case["at"])
    open(lib, "w").close()
    d = os.path.dirname(lib)
    if any(x in e for e in case["old"] for x in ("$ORIGINAL", "$FOO")):
        pass
    old = ":".join(case["old"]).replace("{W}", root)
    stub = Stub(old)
    for _ in range(2 if case.get("twice") else 1):
        try:
            append_rpath_within_wheel(pathlib.Path(case["at"] if case["rel"] else lib), case["new"], pathlib.Path(root), stub)
        except TypeError:
            return SKIP
    want = []
    for e in old.split(":") + [case["new"]]:
        if (e == case["new"] or inside(e, d, root)) and e not in want:
            if e == case["new"] and not inside(e, d, root) and e in old.split(":"):
                return SKIP
            want.append(e)
    if stub.cur != ":".join(want):
        return f"RPATH {old!r} plus {case['new']!r} for {case['at']} became {stub.cur!r}, expected {':'.join(want)!r}"
    if set(stub.calls) != {lib}:
        return f"RPATH of {stub.calls} was set, expected {lib}"
    return None


def e2e(case, tmp):
    with fake.fake_patchelf(tmp) as calls:
        r = rep.run(case, tmp)
        if r is SKIP or r.expect or r.too_high or r.missing or r.error is not None or not r.wheels:
            return SKIP
        log = [fake.parse(a) for a in calls()]
    dest = r.w["name"] + case["sdir"]
    for fn, libs in r.files.items():
        at = rep.final_path(r, fn)
        sets = [(x, c) for c in log if c["file"].endswith("/" + at) and not c["file"].endswith(dest + "/" + at) for x in c["rpath"]]
        if not libs:
            if at not in {rep.final_path(r, f) for f in r.files if r.files[f]} and sets:
                return f"{fn}: RPATH set to {sets[0][0]} without external libraries"
            continue
        src = next(f for f in r.w["files"] if f["path"] == fn)["elf"]
        old = src.get("runpath") if src.get("runpath") is not None else src.get("rpath") or ""
        old = old.replace("{EXT}", r.o.ext)
        new = "$ORIGIN/" + os.path.relpath(dest, os.path.dirname(at) or ".")
        new = str(pathlib.PurePosixPath(new))
        want = rep.in_wheel_entries(old, at)
        if new not in want:
            want.append(new)
        if [x for x, _ in sets] != [":".join(want)]:
            return f"{fn}: RPATH {old!r} became {[x for x, _ in sets]}, expected {':'.join(want)!r}"
    return None
