"""retagging: add_platforms on opened wheels, and get_wheel_platforms / get_replace_platforms"""
import os, pathlib, zipfile
from rac.base import SKIP
RULE = "random wheel names (tags, builds, 'any'), WHEEL files with random tag lists and headers, random platforms to add and to remove"
PLATS = ["linux_x86_64", "manylinux_2_17_x86_64", "manylinux2014_x86_64", "manylinux_2_28_x86_64", "manylinux_2_5_x86_64", "any", "musllinux_1_1_x86_64", "linux_aarch64"]
PYC = ["cp39-cp39", "cp310-abi3", "py3-none", "py2-none", "cp27-cp27mu"]


def cases(rng, tier):
    while True:
        n = rng.choice([0, 0, 1, 2, 4, 7])
        fplats = rng.sample(PLATS, rng.choice([1, 1, 2, 3]))
        tags = [f"{rng.choice(PYC)}-{rng.choice(fplats if rng.random() < 0.8 else PLATS)}" for _ in range(n)]
        if rng.random() < 0.6:
            tags = [f"{pc}-{p}" for pc in rng.sample(PYC, rng.choice([1, 2])) for p in fplats]
        py = rng.choice(["cp39-cp39", "py2.py3-none", "cp39.cp310-abi3", "py3-none"])
        yield dict(name=rng.choice(["pkg-1.0", "my_pkg-1!2.0+local.1", "pkg-1.0-1", "p.k-2.0-3abc"]), py=py, fplats=fplats, tags=tags, purelib=rng.choice(["true", "false", None]),
                   add=rng.sample(PLATS, rng.choice([0, 1, 1, 2, 3])), rem=rng.sample(PLATS, rng.choice([0, 0, 1, 2])), out=rng.choice([True, True, False]),
                   extra=rng.choice([[], [["Build", "1"]], [["X-Note", "a: b"], ["X-Note", "c"]]]))


def make(case, tmp, di="pkg-1.0.dist-info"):
    whl = tmp / f"{case['name']}-{case['py']}-{'.'.join(case['fplats'])}.whl"
    head = [("Wheel-Version", "1.0"), ("Generator", "gen (1)")]
    if case["purelib"] is not None:
        head.append(("Root-Is-Purelib", case["purelib"]))
    head += [tuple(x) for x in case["extra"]]
    txt = "".join(f"{k}: {v}\n" for k, v in head) + "".join(f"Tag: {t}\n" for t in case["tags"])
    with zipfile.ZipFile(whl, "w") as z:
        z.writestr(f"{di}/WHEEL", txt)
        z.writestr(f"{di}/METADATA", "Metadata-Version: 2.1\nName: pkg\n")
        z.writestr("pkg/x.py", "x")
        z.writestr(f"{di}/RECORD", "")
    return whl, head


def dedupe(xs):
    return list(dict.fromkeys(xs))


def check(case, tmp):
    from auditwheel.wheeltools import InWheelCtx, add_platforms
    from email.parser import Parser
    tmp = pathlib.Path(os.path.realpath(tmp))
    whl, head = make(case, tmp)
    before = whl.read_bytes()
    os.chdir(tmp)
    (tmp / "out").mkdir()
    with InWheelCtx(whl) as ctx:
        if case["out"]:
            ctx.out_wheel = tmp / "out" / whl.name
        root = ctx.path
        res = add_platforms(ctx, list(case["add"]), list(case["rem"]))
        text = (root / "pkg-1.0.dist-info" / "WHEEL").read_text()
        other = (root / "pkg-1.0.dist-info" / "METADATA").read_text()
        outw = ctx.out_wheel
        if not case["out"]:
            ctx.out_wheel = None
            base = root
        else:
            base = tmp / "out"
    fin = sorted(set(case["fplats"]))
    plats = [p for p in fin if p not in case["rem"]] + case["add"]
    dropped = "any" in plats and len(set(plats)) > 1
    want = sorted(set(plats) - ({"any"} if dropped else set()))
    wname = f"{case['name']}-{case['py']}-{'.'.join(want)}.whl"
    if res.name != wname:
        return f"wheel renamed to {res.name}, expected {wname}"
    if res.parent != base or str(outw) != str(res):
        return f"output wheel is {outw} / {res}, expected it in {base}"
    msg = Parser().parsestr(text)
    got = msg.get_all("Tag") or []
    rem = set(case["rem"]) | ({"any"} if dropped else set())
    pycs = dedupe("-".join(t.split("-")[:2]) for t in case["tags"])
    keep = [t for t in case["tags"] if t not in {f"{c}-{p}" for c in pycs for p in rem}]
    newt = dedupe(f"{c}-{p}" for c in pycs for p in case["add"])
    keep_s = sorted(keep + [t for t in newt if t not in case["tags"]])
    alt = sorted(keep + [t for t in newt if t not in keep])
    if set(case["add"]) & rem:
        if not set(got) <= set(alt) or not set(keep) <= set(got):
            return f"WHEEL tags {got}, expected {keep_s}"
    elif sorted(got) != keep_s:
        return f"WHEEL tags {got}, expected {keep_s}"
    changed = sorted(got) != sorted(case["tags"])
    pl = msg.get_all("Root-Is-Purelib")
    wpl = ["False"] if dropped and changed else [case["purelib"]] if case["purelib"] is not None else None
    if [x.lower() for x in pl or []] != [x.lower() for x in wpl or []]:
        return f"Root-Is-Purelib {pl}, expected {wpl} (tags {case['tags']} -> {got})"
    rest = [(k, v) for k, v in msg.items() if k not in ("Tag", "Root-Is-Purelib")]
    if rest != [(k, v) for k, v in head if k != "Root-Is-Purelib"]:
        return f"other WHEEL metadata changed: {rest}"
    if other != "Metadata-Version: 2.1\nName: pkg\n":
        return "METADATA changed"
    if whl.read_bytes() != before:
        return "input wheel changed"
    return None
