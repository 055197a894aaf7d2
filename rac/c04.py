"""overall, external-reference, graft, UCS2 and PyFPE verdicts"""
from rac.base import SKIP
from rac import an, syn
RULE = an.RULE + "; and the verdicts derived from synthetic evidence under synthetic catalogues"


def cases(rng, tier):
    while True:
        for _ in range(5):
            yield syn.rand_evidence(rng)
        yield an.rand_case(rng, knobs=dict(ucs=0.15, fpe=0.15, hard=0.1))


def check(case, tmp):
    if case.get("syn"):
        return syn.check_evidence(case)
    r = an.analyse(case, tmp)
    if r is SKIP or r.expect or r.err:
        return SKIP
    v = r.win
    ps = list(v.policies)
    linux = ps[0]
    if v.ucs_policy.name != r.V.ucs.name:
        return f"UCS2 verdict {v.ucs_policy.name}, expected {r.V.ucs.name}"
    if v.pyfpe_policy.name != r.V.pyfpe.name:
        return f"PyFPE verdict {v.pyfpe_policy.name}, expected {r.V.pyfpe.name}"
    if v.ref_policy.name != r.V.ref.name:
        return f"external-reference verdict {v.ref_policy.name}, expected {r.V.ref.name}"
    if v.graft_policy.name != r.V.graft.name:
        return f"graft verdict {v.graft_policy.name}, expected {r.V.graft.name}"
    cand = [v.sym_policy, v.ucs_policy, v.pyfpe_policy, v.blacklist_policy, v.machine_policy]
    if case["req"] is not None:
        cand.append(v.graft_policy)
    if not case["graft"]:
        cand.append(v.ref_policy)
    want = min(cand, key=lambda p: p.priority)
    if v.overall_policy.name != want.name:
        return f"overall verdict {v.overall_policy.name}, the lowest individual verdict is {want.name} (symbols {v.sym_policy.name}, ucs2 {v.ucs_policy.name}, pyfpe {v.pyfpe_policy.name}, deny-list {v.blacklist_policy.name}, isa {v.machine_policy.name}, graft {v.graft_policy.name}, refs {v.ref_policy.name})"
    return None
