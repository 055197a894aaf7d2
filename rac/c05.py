"""symbol-version verdict with grafted libraries"""
from rac.base import SKIP
from rac import an
RULE = an.RULE


def cases(rng, tier):
    while True:
        yield an.rand_case(rng, knobs=dict(hard=0.3, noversion=0.25, black=0.02))


def plain(d):
    return {k: set(v) for k, v in d.items() if v}


def check(case, tmp):
    r = an.analyse(case, tmp)
    if r is SKIP or r.expect or r.err:
        return SKIP
    v = r.win
    if v.sym_policy.name != r.V.sym.name:
        return f"symbol-version verdict {v.sym_policy.name}, expected {r.V.sym.name} (per policy: { {k: p.name for k, p in r.V.per.items()} })"
    if plain(v.versioned_symbols) not in [plain(x) for x in r.V.vs]:
        return f"versioned symbols of the verdict are {plain(v.versioned_symbols)}, expected one of {[plain(x) for x in r.V.vs]}"
    from auditwheel import wheel_abi as WA
    try:
        data = WA.get_wheel_elfdata(an.libc_of(case["libc"]), an.arch_of(case["arch"]), r.whl, frozenset(case["exclude"]), r.ld)
    except (AttributeError, TypeError):
        return None
    if plain(data.versioned_symbols) != plain(r.D.vs):
        return f"judging policies changed the evidence: {plain(data.versioned_symbols)}, expected {plain(r.D.vs)}"
    return None
