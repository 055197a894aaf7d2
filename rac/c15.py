"""policy catalogue construction on the real and on synthetic policy files"""
import copy, json, os, pathlib, re
from rac.base import SKIP, patched
from rac import world as W
RULE = ("the three real policy files for every architecture and musl policy, Android wheel tags at random API levels, and random synthetic policy files "
        "(consistent and inconsistent ones), each with lookups of every name and alias")
ARCHS = ["x86_64", "i686", "aarch64", "ppc64", "ppc64le", "armv7l", "s390x", "riscv64", "loongarch64", "x86_64_v2", "x86_64_v3", "x86_64_v4"]
FN = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}


def real(libc):
    return json.loads((W.REPO / "src/auditwheel/policy" / f"{FN[libc]}-policy.json").read_text())


def synth(rng, libc):
    """a policy file: usually consistent; a fault is planted at times"""
    archs = rng.sample(["x86_64", "i686", "aarch64", "armv7l"], rng.choice([1, 2, 3]))
    n = rng.choice([1, 2, 3, 4])
    libs = ["liba.so", "libb.so.1", "libc.so", "libd.so"]
    ns = ["NA", "NB"]
    pols = []
    wl, sv = [], {a: {} for a in archs}
    for i in range(n):          # i = 0 is the most compatible (highest priority)
        wl = wl + [x for x in libs if x not in wl and rng.random() < 0.4]
        pol_archs = [a for a in archs if rng.random() < 0.85]
        for a in pol_archs:
            for s in ns:
                if rng.random() < 0.6 or s in sv[a]:
                    sv[a][s] = sorted(set(sv[a].get(s, [])) | {str(v) for v in range(5) if rng.random() < 0.4})
        name = {"glibc": f"many{10 - i}", "musl": f"musllinux_1_{i + 1}", "android": f"android_{21 + i * 3}"}[libc]
        if libc == "android":
            prio = 80 - 5 * i if False else 95 - 5 * (n - 1 - i)
        else:
            prio = 100 - 10 * i
        pols.append(dict(name=name, aliases=rng.sample([f"al{i}", f"alt{i}"], rng.choice([0, 1, 2])) if libc == "glibc" else [], priority=prio,
                         symbol_versions={a: copy.deepcopy(sv[a]) for a in pol_archs}, lib_whitelist=list(wl),
                         blacklist={x: rng.sample(["f", "g", "h", "*"], 2) for x in wl if rng.random() < 0.3}))
    if libc == "android":
        for i, p in enumerate(pols):        # a newer API level permits more and ranks lower
            p["priority"] = 100 - 10 * i
    pols.append(dict(name="linux", aliases=[], priority=0, symbol_versions={}, lib_whitelist=[], blacklist={}))
    f = rng.random()
    if f < 0.15 and len(pols) > 2:
        p = rng.choice(pols[1:-1])
        if p["lib_whitelist"]:
            p["lib_whitelist"].remove(rng.choice(p["lib_whitelist"]))
    elif f < 0.35 and len(pols) > 2:
        p = rng.choice(pols[1:-1])
        if p["symbol_versions"]:
            a = rng.choice(sorted(p["symbol_versions"]))
            if p["symbol_versions"][a]:
                s = rng.choice(sorted(p["symbol_versions"][a]))
                if rng.random() < 0.7 and p["symbol_versions"][a][s]:
                    p["symbol_versions"][a][s].remove(rng.choice(p["symbol_versions"][a][s]))
    rng.shuffle(pols)
    return pols


def cases(rng, tier):
    for libc in FN:
        for a in ARCHS:
            if libc == "android":
                continue
            yield dict(libc=libc, arch=a, file=None, musl=None, cur=[1, 2], tags=None)
            if libc == "musl":
                for m in ("musllinux_1_1", "musllinux_1_2", "musllinux_1", "xmusllinux_1_2", "musllinux_1_2_x"):
                    yield dict(libc=libc, arch=a, file=None, musl=m, cur=None, tags=None)
                for c in (None, [1, 1]):
                    yield dict(libc=libc, arch=a, file=None, musl=None, cur=c, tags=None)
    yield dict(libc="glibc", arch="x86_64", file=None, musl="musllinux_1_2", cur=None, tags=None)
    while True:
        libc = rng.choice(["glibc", "glibc", "musl", "android", "android"])
        f = None if libc == "android" and rng.random() < 0.5 else synth(rng, libc)
        tags = None
        if libc == "android":
            tags = rng.choice([[f"android_{rng.randrange(15, 40)}_{rng.choice(['x86_64', 'arm64_v8a'])}"]] * 8 + [["linux_x86_64"], ["android_24_x86_64", "android_30_x86_64"], None])
        yield dict(libc=libc, arch=rng.choice(["x86_64", "x86_64_v3", "i686", "aarch64", "armv7l"]), file=f, musl=rng.choice([None, None, "musllinux_1_1", "musllinux_1_2"]) if libc == "musl" else None,
                   cur=rng.choice([None, [1, 1], [1, 2], [1, 3]]), tags=tags)


def inconsistent(pols):
    """a more compatible (higher-priority) policy allows something a less compatible one lacks"""
    ps = sorted((p for p in pols if p["name"] != "linux"), key=lambda p: p["priority"])
    for i, lo in enumerate(ps):
        for hi in ps[i + 1:]:
            if not set(hi["lib_whitelist"]) <= set(lo["lib_whitelist"]):
                return True
            for a, d in hi["symbol_versions"].items():
                if a in lo["symbol_versions"]:
                    for s, v in d.items():
                        if s in lo["symbol_versions"][a] and not set(v) <= set(lo["symbol_versions"][a][s]):
                            return True
    return False


def check(case, tmp):
    from auditwheel import policy as P
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.error import InvalidLibcError
    import collections
    libc = Libc[case["libc"].upper()]
    arch = Architecture(case["arch"])
    if not hasattr(P, "_POLICY_JSON_MAP"):
        return SKIP
    raw = case["file"] or real(case["libc"])
    f = pathlib.Path(tmp) / "p.json"
    f.write_text(json.dumps(raw))
    mp = dict(P._POLICY_JSON_MAP)
    if case["file"]:
        mp[libc] = f

    def cur(self):
        if case["cur"] is None:
            raise InvalidLibcError("unknown")
        return collections.namedtuple("V", "major minor")(*case["cur"])
    fn = None if case["tags"] is None else pathlib.Path("pkg-1.0-cp39-cp39-" + ".".join(case["tags"]) + ".whl")
    err = pols = None
    with patched(P, _POLICY_JSON_MAP=mp), patched(Libc, get_current_version=cur):
        try:
            pols = P.WheelPolicies(libc=libc, arch=arch, wheel_fn=fn, musl_policy=case["musl"])
        except Exception as e:  # noqa: BLE001
            err = e
    base = W.BASE.get(case["arch"], case["arch"])
    # expected
    if case["musl"] is not None and case["libc"] != "musl":
        return None if isinstance(err, ValueError) else f"musl policy accepted for {case['libc']}"
    if case["musl"] is not None and not re.fullmatch(r"musllinux_\d+_\d+", case["musl"]):
        return None if isinstance(err, ValueError) else f"malformed musl policy {case['musl']} accepted"
    if inconsistent(raw):
        return None if isinstance(err, ValueError) else f"inconsistent policy file accepted ({err!r})"
    if case["libc"] == "android" and (case["tags"] is None or len(case["tags"]) != 1 or not case["tags"][0].startswith("android_")):
        return None if isinstance(err, ValueError) else f"accepted Android tags {case['tags']} ({err!r})"
    want = []
    for p in raw:
        if p["name"] == "linux":
            want.append(("linux_" + base, tuple(f"{a}_{base}" for a in p["aliases"]), p["priority"], {}, set(p["lib_whitelist"]), p["blacklist"]))
        elif base in p["symbol_versions"]:
            wl = set(p["lib_whitelist"])
            if case["libc"] == "musl" and "libc.so" in wl:
                if base not in W.MUSLSO:
                    return SKIP
                wl = wl - {"libc.so"} | {f"libc.musl-{W.MUSLSO[base]}.so.1"}
            want.append((f"{p['name']}_{base}", tuple(f"{a}_{base}" for a in p["aliases"]), p["priority"], p["symbol_versions"][base], wl, p["blacklist"]))
    want.sort(key=lambda p: p[2])
    if case["libc"] == "musl":
        sel = case["musl"] or (f"musllinux_{case['cur'][0]}_{case['cur'][1]}" if case["cur"] else None)
        rest = [p for p in want[1:] if p[0] == f"{sel}_{base}"] if sel else want[1:2]
        if len(rest) != 1:
            return SKIP
        want = [want[0], rest[0]]
    if case["libc"] == "android":
        lvl = int(case["tags"][0].split("_")[1])
        fit = [p for p in want[1:] if int(p[0].split("_")[1]) <= lvl]
        if not fit:
            return None if isinstance(err, ValueError) else f"accepted an Android tag {case['tags']} below every policy ({err!r})"
        b = max(fit, key=lambda p: int(p[0].split("_")[1]))
        want = [want[0], (case["tags"][0], *b[1:])]
    if err is not None:
        return f"rejected with {type(err).__name__}: {err}"
    got = [(p.name, tuple(p.aliases), p.priority, {k: set(v) for k, v in p.symbol_versions.items()}, set(p.whitelist), {k: set(v) for k, v in p.blacklist.items()}) for p in pols]
    exp = [(n, a, pr, {k: set(v) for k, v in sv.items()}, wl, {k: set(v) for k, v in bl.items()}) for n, a, pr, sv, wl, bl in want]
    if [g[:3] for g in got] != [e[:3] for e in exp]:
        return f"catalogue {[g[:3] for g in got]}, expected {[e[:3] for e in exp]}"
    for g, e in zip(got, exp):
        if g != e:
            return f"policy {g[0]} differs: {[(x, y) for x, y in zip(g, e) if x != y]}"
    pr = [g[2] for g in got]
    if any(a >= b for a, b in zip(pr, pr[1:])):
        return f"priorities are not strictly increasing: {pr}"
    for p in pols:
        for n in (p.name, *p.aliases):
            if pols.get_policy_by_name(n) is not p:
                return f"looking up {n} does not give {p.name}"
    try:
        q = pols.get_policy_by_name("nosuch_policy")
        return f"looking up an unknown name gives {q}"
    except LookupError:
        pass
    if pols.linux is not list(pols)[0] or pols.highest is not list(pols)[-1] or (len(got) > 1 and pols.lowest is not list(pols)[1]):
        return "linux / lowest / highest do not name the right policies"
    if pols.architecture is not arch or pols.libc is not libc:
        return "the catalogue's architecture or C library is not the given one"
    return None
