"""content-addressed copies: end to end with a recording patch tool (copies stay as grafted), and on copylib directly"""
import hashlib, os, pathlib, stat
from rac.base import SKIP
from rac import rep, world as W, fake
RULE = rep.RULE + "; copylib called directly on random files, names, modes and pre-existing copies"
BASES = ["libfoo", "lib-x", "libfoo-12345678", "l", "libstdc++", "lib.a", "libHASH"]


def cases(rng, tier):
    while True:
        if rng.random() < 0.8:
            yield dict(kind="copylib", seq=[dict(name=rng.choice(BASES) + "." + rng.choice(["so", "so.1", "so.1.2.3"]), data=rng.choice(["", "a", "b", "x" * 70000, "A" * 131072]),
                                                 mode=rng.choice([0o644, 0o755, 0o444, 0o555, 0o400, 0o640]), hashed=rng.random() < 0.3, dir=rng.choice(["a", "b"]))
                                            for _ in range(rng.choice([1, 1, 2, 4]))])
        else:
            yield dict(kind="e2e", c=rep.rand_case(rng, libpython=0.0, script=0.0, knobs=dict(hard=0.0, fpe=0.0, ucs=0.0, isa=0.0, black=0.0, noversion=0.9)))


class Stub:
    def __init__(self):
        self.calls = []

    def set_soname(self, p, n):
        self.calls.append((str(p), n))

    def __getattr__(self, k):
        if k.startswith("_"):
            raise AttributeError(k)
        return lambda *a, **kw: self.calls.append((k, a))


def want_name(name, h):
    base, ext = name.split(".", 1)
    return name if base.endswith("-" + h) else f"{base}-{h}.{ext}"


def check(case, tmp):
    if case["kind"] == "e2e":
        return e2e(case["c"], tmp)
    try:
        from auditwheel.repair import copylib
    except ImportError:
        return SKIP
    os.chdir(tmp)
    dest = pathlib.Path("dest")
    dest.mkdir()
    stub = Stub()
    seen = {}
    for k, f in enumerate(case["seq"]):
        data = f["data"].encode()
        h = hashlib.sha256(data).hexdigest()[:8]
        name = f["name"]
        if f["hashed"]:
            b, e = name.split(".", 1)
            name = f"{b}-{h}.{e}"
        d = pathlib.Path(f"src{f['dir']}{k}")
        d.mkdir()
        src = d / name
        src.write_bytes(data)
        src.chmod(f["mode"])
        n0 = len(stub.calls)
        try:
            got = copylib(src, dest, stub)
        except TypeError:
            return SKIP
        want = want_name(name, h)
        if tuple(map(str, got)) != (want, f"dest/{want}"):
            return f"copylib({name}) returned {got}, expected {want}"
        p = dest / want
        if not p.is_file() or p.read_bytes() != data:
            return f"copy of {name} is missing or differs from the original"
        if want in seen:
            if len(stub.calls) != n0:
                return f"grafting {name} again patched the copy again: {stub.calls[n0:]}"
            if seen[want] != (p.stat().st_mtime_ns, p.stat().st_ino):
                return f"grafting {name} again copied it again"
        else:
            if [(os.path.normpath(a), b) for a, b in stub.calls[n0:]] != [(f"dest/{want}", want)]:
                return f"patch requests for the new copy of {name}: {stub.calls[n0:]}"
            m = stat.S_IMODE(p.stat().st_mode)
            if m != f["mode"] | 0o200:
                return f"copy of {name} has mode {m:o}, original {f['mode']:o}"
            t = p.stat().st_mtime_ns
            os.utime(p, ns=(t - 10**9, t - 10**9))
            seen[want] = (p.stat().st_mtime_ns, p.stat().st_ino)
        if src.read_bytes() != data or stat.S_IMODE(src.stat().st_mode) != f["mode"]:
            return f"{name}: the original was changed"
    if sorted(x.name for x in dest.iterdir()) != sorted(seen):
        return f"library directory holds {sorted(x.name for x in dest.iterdir())}, expected {sorted(seen)}"
    return None


def e2e(case, tmp):
    with fake.fake_patchelf(tmp) as calls:
        r = rep.run(case, tmp)
        if r is SKIP or r.expect or r.too_high or r.missing or r.error is not None or not r.wheels:
            return SKIP
        log = [fake.parse(a) for a in calls()]
    files, _ = rep.unpack(r.wheels[0], None)
    dest = r.w["name"] + case["sdir"]
    orig = {f["path"] for f in r.w["files"]}
    want = {f"{dest}/{n}": p for n, (p, _) in r.grafted.items()}
    got = {p for p in files if p.startswith(dest + "/") and p not in orig}
    if got != set(want):
        return f"grafted {sorted(got)}, expected {sorted(want)}"
    for at, p in want.items():
        b, m = files[at]
        if b != pathlib.Path(p).read_bytes():
            return f"grafted {at} is not a copy of {p}"
        if not m & 0o200:
            return f"grafted {at} is not writable by its owner ({m:o})"
        sets = [s for c in log if c["file"].endswith("/" + at) for s in c["soname"]]
        if sets != [os.path.basename(at)]:
            return f"grafted {at}: SONAME set to {sets}"
    for p, (b, m) in r.ext_before.items():
        q = W.ext_root(r.tmp) / p
        if q.read_bytes() != b:
            return f"external file {p} was changed"
    return None
