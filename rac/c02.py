"""external libraries per policy, end to end and on the contract of is_subdir"""
from rac.base import SKIP
from rac import an
RULE = an.RULE


def cases(rng, tier):
    yield from an.cases(rng, tier)


def check(case, tmp):
    r = an.analyse(case, tmp, data_only=True)
    if r is SKIP or r.expect or r.err:
        return SKIP
    full = r.data.full_external_refs
    got = an.cmp_full_refs(r, full)
    if isinstance(got, str):
        return SKIP
    for fn, pols in r.D.refs.items():
        for p, (libs, _) in pols.items():
            if got[fn][p][0] != libs:
                return f"{fn}: external libraries under {p} are {got[fn][p][0]}, expected {libs}"
    return None
