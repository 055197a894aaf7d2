"""completed dependency trees of bundled libraries"""
from rac.base import SKIP
from rac import an
RULE = an.RULE + "; and random dependency graphs completed directly"


def graph(rng):
    """a dependency graph over a few libraries; complete trees over it (with some libraries excluded) and trees of bundled libraries with gaps"""
    names = [f"lib{c}.so" for c in "abcdefg"[:rng.randint(3, 7)]]
    need = {n: rng.sample([m for m in names if m != n], min(len(names) - 1, rng.choice([0, 1, 1, 2, 2, 3]))) for n in names}

    def closure(roots, drop=(), stop=()):
        seen, todo = [], list(roots)
        while todo:
            n = todo.pop(0)
            if n not in seen and n not in drop:
                seen.append(n)
                if n not in stop:
                    todo += need[n]
        return seen
    trees, nonpy = [], []
    for i in range(rng.randint(1, 2)):
        drop = [n for n in names if rng.random() < 0.1]
        gap = [n for n in names if rng.random() < 0.1]
        roots = rng.sample(names, rng.randint(1, 2))
        trees.append(dict(name=f"x{i}", roots=roots, libs=closure(roots, drop, gap), gap=gap))
    for n in rng.sample(names, rng.randint(1, min(3, len(names)))):
        gap = [m for m in names if rng.random() < 0.4]
        nonpy.append(dict(name=n, twin=rng.random() < 0.15, roots=need[n], libs=closure(need[n], [n], gap), gap=gap))
    return dict(kind="graph", need=need, trees=trees, nonpy=nonpy)


def check_graph(case, tmp):
    import pathlib
    from auditwheel import wheel_abi as WA
    from auditwheel.lddtree import DynamicExecutable, DynamicLibrary
    tmp = pathlib.Path(tmp)
    need = case["need"]
    for n in [*need, *[t["name"] for t in case["trees"]]]:
        (tmp / n).write_bytes(b"")
        (tmp / "other").mkdir(exist_ok=True)
        (tmp / "other" / n).write_bytes(b"")

    def place(t):      # a twin is another file of the same name as a library of the graph
        return tmp / "other" / t["name"] if t.get("twin") else tmp / t["name"]

    def library(n, t):
        return DynamicLibrary(n, None, None) if n in t["gap"] else DynamicLibrary(n, str(tmp / n), tmp / n, None, tuple(need[n]))

    def tree(t):
        return DynamicExecutable(None, None, t["name"], place(t), None, tuple(t["roots"]), (), (), {n: library(n, t) for n in t["libs"]})

    def known(t):
        return {n: None if n in t["gap"] else tuple(need[n]) for n in t["libs"]}
    fix = getattr(WA, "_fixup_elf_trees", None)
    if fix is None:
        return SKIP
    py = {pathlib.Path(t["name"]): tree(t) for t in case["trees"]}
    non = {pathlib.Path(t["name"]): tree(t) for t in case["nonpy"]}
    py0, non0 = dict(py), dict(non)
    try:
        fix(py, non)
    except TypeError:
        return SKIP
    if py != py0 or list(py) != list(py0):
        return "trees of Python extensions were altered"
    full = [t for t in case["trees"] + case["nonpy"] if not set(t["gap"]) & set(t["libs"])]
    for t in case["nonpy"]:
        got = non[pathlib.Path(t["name"])]
        have = {n: None if x.realpath is None else tuple(x.needed) for n, x in got.libraries.items()}
        old = known(t)
        refs = [r for r in full if t["name"] in r["libs"] and not t.get("twin")]
        wants = []
        for r in refs if None in old.values() else []:
            w = dict(old)
            todo = [n for n in old if old[n] is None and n in r["libs"]]
            for n in todo:
                w[n] = tuple(need[n])
            while todo:
                for m in need[todo.pop(0)]:
                    if m not in w and m in r["libs"]:
                        w[m] = tuple(need[m])
                        todo.append(m)
            wants.append(w)
        if have not in (wants or [old]):
            return f"{t['name']}: completed tree {have}, expected {wants or [old]}"
        if got.needed != tuple(t["roots"]) or got.realpath != place(t):
            return f"{t['name']}: the file itself was altered"
    return None


def cases(rng, tier):
    while True:
        for _ in range(10):
            yield graph(rng)
        yield an.rand_case(rng, script=0.0, exclude=0.02)


def check(case, tmp):
    if case.get("kind") == "graph":
        return check_graph(case, tmp)
    r = an.analyse(case, tmp, data_only=True)
    if r is SKIP or r.expect or r.err:
        return SKIP
    for fn, t in r.data.full_elftree.items():
        want = r.D.full.get(str(fn))
        if want is None:
            return SKIP
        got = {k: (x.soname, an.norm(r, x.realpath), tuple(x.needed)) for k, x in t.libraries.items()}
        exp = {k: (x.soname, x.real, x.needed) for k, x in want.libs.items()}
        if got != exp:
            return f"{fn}: dependency tree {got}, expected {exp}"
        if tuple(t.needed) != tuple(want.needed):
            return f"{fn}: direct dependencies {t.needed}, expected {want.needed}"
    return None
