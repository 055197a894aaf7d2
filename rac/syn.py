"""synthetic catalogues and analysis results, to reach verdict combinations the shipped policy files do not produce"""
from __future__ import annotations
import collections, contextlib, pathlib
from rac.base import SKIP

NAMES = [("manylinux_2_39", []), ("manylinux_2_34", []), ("manylinux_2_28", []), ("manylinux_2_24", []), ("manylinux_2_17", ["manylinux2014"]),
         ("manylinux_2_12", ["manylinux2010"]), ("manylinux_2_5", ["manylinux1"])]
LIBS = ["liba.so.1", "libb.so.2", "libc9.so", "libz.so.1"]


def rand_catalogue(rng, top=5):
    """list of (base name, aliases, priority), lowest first, generic linux included"""
    k = rng.randint(1, top)
    chosen = sorted(rng.sample(range(len(NAMES)), k))
    prios = sorted(rng.sample(range(1, 100), k))
    return [("linux", [], 0)] + [(NAMES[i][0], NAMES[i][1], p) for i, p in zip(chosen, prios)]


def policies(cat, arch="x86_64", syms=None, white=None):
    from auditwheel.architecture import Architecture
    from auditwheel.libc import Libc
    from auditwheel.policy import Policy, WheelPolicies
    ps = [Policy(f"{n}_{arch}", tuple(f"{a}_{arch}" for a in al), pr, (syms or {}).get(n, {}), frozenset((white or {}).get(n, ())), {}) for n, al, pr in cat]
    w = object.__new__(WheelPolicies)
    w._policies, w._architecture, w._libc_variant, w._musl_policy = ps, Architecture(arch), Libc.GLIBC, None
    return w


def usable(w):
    try:
        return list(w) == w._policies and w.linux is w._policies[0] and w.highest is w._policies[-1]
    except Exception:  # noqa: BLE001
        return False


@contextlib.contextmanager
def stub(name, fn, *mods):
    """replace a function in the modules that have it"""
    old = [(m, getattr(m, name)) for m in mods if hasattr(m, name)]
    for m, _ in old:
        setattr(m, name, fn)
    try:
        yield
    finally:
        for m, f in old:
            setattr(m, name, f)


# ---- verdicts from evidence (C04) ----
def rand_evidence(rng):
    cat = rand_catalogue(rng)
    files = {}
    for i in range(rng.randint(1, 3)):
        refs = {}
        # a higher priority policy usually needs more grafted libraries, but not always
        for n, _, pr in cat:
            refs[n] = dict(libs=[] if pr == 0 or rng.random() < 0.4 else rng.sample(LIBS, rng.randint(1, len(LIBS))),
                           black={} if pr == 0 or rng.random() < 0.6 else {rng.choice(LIBS): rng.sample(["x", "y", "z"], rng.randint(1, 2))})
        files[f"f{i}.so"] = refs
    bases = [b for n, al, _ in cat[1:] for b in (n, *al)]
    return dict(syn="evidence", cat=cat, files=files, tree=[f for f in files if rng.random() < 0.8] or list(files), ucs=rng.random() < 0.2, fpe=rng.random() < 0.2,
                req=rng.choice([None, "auto", rng.choice(bases), rng.choice(bases), rng.choice(bases)]), graft=rng.random() < 0.5)


def check_evidence(case):
    from auditwheel import wheel_abi as W
    from auditwheel.architecture import Architecture
    from auditwheel.lddtree import DynamicExecutable, Platform
    from auditwheel.libc import Libc
    from auditwheel.policy import ExternalReference
    try:
        w = policies(case["cat"])
        by = {n: p for (n, _, _), p in zip(case["cat"], w._policies)}
        P = Platform("ELFOSABI_SYSV", 64, True, "EM_X86_64", Architecture.x86_64, None, None)
        refs = {pathlib.Path(f): {by[n].name: ExternalReference(dict.fromkeys(r["libs"]), {k: sorted(v) for k, v in r["black"].items()}, by[n])
                                  for n, r in rs.items()} for f, rs in case["files"].items()}
        tree = {pathlib.Path(f): DynamicExecutable(None, Libc.GLIBC, f, pathlib.Path(f), P, (), (), (), {}) for f in case["tree"]}
        data = W.WheelElfData(w, tree, refs, collections.defaultdict(set), case["ucs"], case["fpe"])
    except (TypeError, AttributeError):
        return SKIP
    if not usable(w):
        return SKIP
    n = []
    with stub("get_wheel_elfdata", lambda *a, **k: (n.append(1), data)[1], W):
        try:
            v = W.analyze_wheel_abi(Libc.GLIBC, Architecture.x86_64, pathlib.Path("x.whl"), frozenset(), disable_isa_ext_check=False,
                                    allow_graft=case["graft"], requested_policy_base_name=case["req"], args_ldpaths=None)
        except Exception:  # noqa: BLE001
            return SKIP
    if not n:
        return SKIP
    ps = w._policies
    libs = {p.name: set() for p in ps}
    black = {p.name: {} for p in ps}
    for f in tree:
        for name, r in case["files"][str(f)].items():
            libs[by[name].name] |= set(r["libs"])
            for k, s in r["black"].items():
                black[by[name].name].setdefault(k, set()).update(s)
    best = lambda c: max((p for p in ps if c(p)), key=lambda p: p.priority, default=ps[0])
    want = {}
    want["ref"] = best(lambda p: not libs[p.name])
    want["blacklist"] = best(lambda p: not black[p.name])
    want["ucs"] = ps[0] if case["ucs"] else ps[-1]
    want["pyfpe"] = ps[0] if case["fpe"] else ps[-1]
    if case["req"] in (None, "auto"):
        counted = [p for p in ps if p.priority > 0]
    else:
        counted = [p for p in ps if any(x.startswith(case["req"] + "_") for x in (p.name, *p.aliases))]
    limit = min((len(libs[p.name]) for p in counted), default=0)
    want["graft"] = best(lambda p: len(libs[p.name]) <= limit)
    for k, p in want.items():
        got = getattr(v, k + "_policy")
        if got.name != p.name:
            return f"{k} verdict {got.name}, expected {p.name}"
    for name, e in v.external_refs.items():
        if set(e.libs) != libs[name]:
            return f"external libraries of the wheel for {name} are {sorted(e.libs)}, expected {sorted(libs[name])}"
        if {k: sorted(s) for k, s in e.blacklist.items()} != {k: sorted(s) for k, s in black[name].items()}:
            return f"deny-listed symbols of the wheel for {name} are {e.blacklist}, expected {black[name]}"
    cand = [v.sym_policy, v.ucs_policy, v.pyfpe_policy, v.blacklist_policy, v.machine_policy]
    if case["req"] is not None:
        cand.append(v.graft_policy)
    if not case["graft"]:
        cand.append(v.ref_policy)
    o = min(cand, key=lambda p: p.priority)
    if v.overall_policy.name != o.name:
        return f"overall verdict {v.overall_policy.name}, the lowest individual verdict is {o.name}"
    return None


# ---- decisions from verdicts (C07) ----
KINDS = ["sym", "ucs", "pyfpe", "blacklist", "machine"]


def rand_verdicts(rng):
    cat = rand_catalogue(rng)
    names = [n for n, _, _ in cat]
    high = rng.choice(names)
    v = {k: (cat[-1][0] if rng.random() < 0.6 else rng.choice(names)) for k in KINDS}
    if rng.random() < 0.3:
        v = {k: names[min(names.index(x), names.index(high))] if rng.random() < 0.5 else x for k, x in v.items()}
    v["graft"] = rng.choice(names)
    bases = [b for n, al, _ in cat[1:] for b in (n, *al)]
    return dict(syn="verdicts", cat=cat, v=v, plat=rng.choice(["auto", rng.choice(bases), rng.choice(bases)]), suffix=rng.random() < 0.7,
                only=rng.random() < 0.3, tags=rng.choice(["linux_x86_64", "linux_x86_64", "manylinux_2_39_x86_64", "any"]))


class Refused(BaseException):
    pass


def check_verdicts(case, tmp):
    import argparse
    from auditwheel import main_repair as M, repair as R, wheel_abi as W
    from auditwheel.policy import ExternalReference
    try:
        w = policies(case["cat"])
        by = {n: p for (n, _, _), p in zip(case["cat"], w._policies)}
        v = {k: by[n] for k, n in case["v"].items()}
        overall = min(v.values(), key=lambda p: p.priority)
        refs = {p.name: ExternalReference({}, {}, p) for p in w._policies}
        info = W.WheelAbIInfo(w, {pathlib.Path("a.so"): refs}, overall, refs, w._policies[-1], {}, v["sym"], v["ucs"], v["pyfpe"], v["blacklist"], v["machine"], v["graft"])
    except (TypeError, AttributeError):
        return SKIP
    if not usable(w):
        return SKIP
    tmp = pathlib.Path(tmp)
    whl = tmp / f"foo-1.0-cp310-cp310-{case['tags']}.whl"
    whl.write_bytes(b"")
    seen, calls = [], []

    class Parser:
        def error(self, m):
            raise Refused(m)

    plat = case["plat"] + ("_x86_64" if case["suffix"] and case["plat"] != "auto" else "")
    ns = argparse.Namespace(EXCLUDE=[], WHEEL_DIR=tmp / "out", WHEEL_FILE=[whl], PLAT=plat, DISABLE_ISA_EXT_CHECK=False, LDPATHS=None, ALLOW_PURE_PY_WHEEL=False,
                            ONLY_PLAT=case["only"], UPDATE_TAGS=True, STRIP=False, LIB_SDIR=".libs", PATCHER="none", ZIP_COMPRESSION_LEVEL=6, verbose=0)
    err = None

    def fake_repair(*a, **k):
        calls.append(list(k["abis"] if "abis" in k else a[2]))

    with stub("analyze_wheel_abi", lambda *a, **k: (seen.append(1), info)[1], W, M), stub("repair_wheel", fake_repair, R, M):
        try:
            M.execute(ns, Parser())
        except Refused as e:
            err = str(e)
        except Exception as e:  # noqa: BLE001
            return SKIP if not seen else f"repair failed with {type(e).__name__}: {e}"
    if not seen:
        return SKIP
    if case["plat"] == "auto":
        want = overall if overall.priority > 0 else w._policies[1]
    else:
        want = next(p for p in w._policies if f"{case['plat']}_x86_64" in (p.name, *p.aliases))
    low = [k for k in KINDS if v[k].priority < want.priority]
    if low:
        if calls:
            return f"the wheel was rewritten for {want.name} although its {', '.join(low)} verdict ranks lower ({[v[k].name for k in low]})"
        if err is None:
            return f"repair for {want.name} ended without an error although its {', '.join(low)} verdict ranks lower"
        if (tmp / "out").exists() and any((tmp / "out").iterdir()):
            return "output touched by a refused repair"
        return None
    if err is not None:
        return f"repair for {want.name} refused ({err}) although no verdict ranks lower"
    tags = [want.name, *want.aliases]
    if not case["only"] and want.priority < overall.priority:
        tags = [overall.name, *overall.aliases, *tags]
    if calls != [tags]:
        return f"tags written {calls}, expected {tags}"
    return None
