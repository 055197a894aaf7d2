"""runs the real analysis on a synthetic wheel and compares it with the oracle; shared by C02-C06, C21-C23"""
from __future__ import annotations
import pathlib, os
from rac.base import SKIP
from rac import world as W

RULE = ("synthetic wheels (generated ELF extensions, bundled libraries, scripts, other-architecture and other-libc files) with external libraries in up to "
        "three directories (symlinks, wrong architecture/OS ABI, missing ones), analysed by the real code and compared with an oracle computed from the specification")


def libc_of(name):
    from auditwheel.libc import Libc
    return None if name is None else Libc[name.upper()]


def arch_of(name):
    from auditwheel.architecture import Architecture
    return None if name is None else Architecture(name)


def rand_case(rng, **kn):
    w = W.rand_world(rng, **kn)
    libc = rng.choice([None, None, w["libc"]])
    arch = rng.choice([None, w["arch"], w["arch"]])
    if arch == "x86_64" and rng.random() < kn.get("varch", 0.2):
        arch = rng.choice(["x86_64_v2", "x86_64_v3", "x86_64_v4"])
    cat = W.catalogue(w["libc"], w["arch"])
    pols = [n[: -len(w["arch"]) - 1] for p in cat[1:] for n in (p.name, *p.aliases)]
    req = rng.choice([None, "auto", rng.choice(pols) if pols else None, rng.choice(pols) if pols else None])
    ex = []
    if rng.random() < kn.get("exclude", 0.1):
        ex = rng.choice([["libfoo.so.1"], ["libb*"], ["*/d1/*"], ["libz.so.?"], ["nomatch"]])
    return dict(w=w, libc=libc, arch=arch, req=req, disable=rng.random() < kn.get("disable", 0.15), graft=rng.random() < 0.5, exclude=ex)


def cases(rng, tier, **kn):
    while True:
        yield rand_case(rng, **kn)


class Run:
    pass


def analyse(case, tmp, data_only=False):
    """-> Run(oracle, D, V, winfo / data, error) or SKIP"""
    from auditwheel import wheel_abi as WA
    w = case["w"]
    tmp = pathlib.Path(os.path.realpath(tmp))
    if len({f["path"] for f in w["files"]}) != len(w["files"]) or len({f["path"] for f in w["ext"]}) != len(w["ext"]):
        return SKIP
    whl, ld = W.build(w, tmp)
    o = W.Oracle(w, W.ext_root(tmp))
    r = Run()
    r.o, r.whl, r.ld, r.err, r.D, r.V, r.expect, r.tmp = o, whl, ld, None, None, None, None, tmp
    try:
        r.D = o.elfdata(case["libc"], case["arch"], case["exclude"])
        if not data_only:
            r.V = o.verdicts(r.D, case["disable"], case["graft"], case["req"])
    except W.Ambiguous:
        return SKIP
    except W.Expect as e:
        r.expect = str(e)
    try:
        if data_only:
            r.data = WA.get_wheel_elfdata(libc_of(case["libc"]), arch_of(case["arch"]), whl, frozenset(case["exclude"]), ld)
        else:
            r.win = WA.analyze_wheel_abi(libc_of(case["libc"]), arch_of(case["arch"]), whl, frozenset(case["exclude"]), disable_isa_ext_check=case["disable"],
                                         allow_graft=case["graft"], requested_policy_base_name=case["req"], args_ldpaths=ld)
    except Exception as e:  # noqa: BLE001
        r.err = e
    return r


def errors(r):
    """violation text when error behaviour differs; None when both fail alike; False when both succeeded"""
    if r.expect is None and r.err is None:
        return False
    if r.expect is None:
        return f"analysis failed with {type(r.err).__name__}: {r.err}"
    if r.err is None:
        return f"analysis succeeded although {r.expect} is required"
    if r.expect not in [t.__name__ for t in type(r.err).__mro__]:
        return f"analysis failed with {type(r.err).__name__}: {r.err} instead of {r.expect}"
    return None


def norm(r, p):
    """path as the oracle writes it"""
    if p is None:
        return None
    p = str(p)
    if p.startswith(r.o.ext + "/"):
        return p
    best = max((f["path"] for f in r.o.w["files"] if p.endswith("/" + f["path"])), key=len, default=None)
    return p if best is None else "/W/" + best


def refs_of(r, refs):
    """real external references -> (libs, blacklist) per policy name"""
    return {n: ({k: (None if v is None else str(v)) for k, v in e.libs.items()}, {k: list(v) for k, v in e.blacklist.items()}) for n, e in refs.items()}


def cmp_full_refs(r, full):
    got = {str(k): refs_of(r, v) for k, v in full.items()}
    want = r.D.refs
    if set(got) != set(want):
        return f"external references recorded for {sorted(got)}, expected {sorted(want)}"
    for fn in want:
        if set(got[fn]) != set(want[fn]):
            return f"{fn}: references for policies {sorted(got[fn])}, expected {sorted(want[fn])}"
    return got
