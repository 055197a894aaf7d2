"""deny-listed symbols per policy and file, their union and the verdict"""
from rac.base import SKIP
from rac import an
RULE = an.RULE


def cases(rng, tier):
    while True:
        yield an.rand_case(rng, knobs=dict(black=0.6))


def check(case, tmp):
    r = an.analyse(case, tmp)
    if r is SKIP or r.expect or r.err:
        return SKIP
    got = an.cmp_full_refs(r, r.win.full_external_refs)
    if isinstance(got, str):
        return SKIP
    for fn, pols in r.D.refs.items():
        for p, (_, bl) in pols.items():
            if got[fn][p][1] != bl:
                return f"{fn}: deny-listed symbols under {p} are {got[fn][p][1]}, expected {bl}"
    m = an.refs_of(r, r.win.external_refs)
    for p, (_, bl) in r.V.merged.items():
        if m[p][1] != bl:
            return f"deny-listed symbols of the wheel under {p} are {m[p][1]}, expected {bl}"
    if r.win.blacklist_policy.name != r.V.black.name:
        return f"deny-list verdict {r.win.blacklist_policy.name}, expected {r.V.black.name}"
    return None
