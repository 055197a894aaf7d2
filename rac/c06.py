"""instruction-set verdict"""
from rac.base import SKIP
from rac import an
RULE = an.RULE


def cases(rng, tier):
    while True:
        yield an.rand_case(rng, arch="x86_64", varch=0.35, knobs=dict(isa=rng.choice([0.05, 0.2, 0.4]), black=0.02))


def check(case, tmp):
    r = an.analyse(case, tmp)
    if r is SKIP or r.expect or r.err:
        return SKIP
    if r.win.machine_policy.name != r.V.machine.name:
        return f"instruction-set verdict {r.win.machine_policy.name}, expected {r.V.machine.name} (target {r.D.arch})"
    return None
