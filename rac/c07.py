"""which repairs go ahead, and with which tags"""
import os
from rac.base import SKIP
from rac import rep, syn, world as W
RULE = rep.RULE + "; and the decisions taken on synthetic analysis results under synthetic catalogues"


def cases(rng, tier):
    while True:
        for _ in range(10):
            yield syn.rand_verdicts(rng)
        yield rep.rand_case(rng, knobs=dict(hard=rng.choice([0.05, 0.4]), fpe=0.15, ucs=0.15, isa=0.1, black=rng.choice([0.05, 0.3])))


def check(case, tmp):
    if case.get("syn"):
        return syn.check_verdicts(case, tmp)
    r = rep.run(case, tmp)
    if r is SKIP or r.expect:
        return SKIP
    if r.too_high:
        if r.wheels:
            return f"a wheel was written for {r.chosen.name} although its {', '.join(r.too_high)} verdict ranks lower ({[getattr(r.V, n).name for n in ('sym', 'ucs', 'pyfpe', 'black', 'machine')]})"
        if r.error is None:
            return f"repair for {r.chosen.name} ended without an error although its {', '.join(r.too_high)} verdict ranks lower"
        return None
    if isinstance(r.error, SystemExit):
        return f"repair for {r.chosen.name} refused ({r.text.strip()[-200:]}) although no verdict ranks lower"
    if r.missing or r.error is not None:
        return None
    if not r.wheels or not case["update"]:
        return None
    got = r.wheels[0].name.rsplit("-", 1)[1][:-4].split(".")
    want = {t for t in r.w["plat"].split(".") if t != f"linux_{r.D.arch}"} | set(r.abis)
    want.discard("any")
    if set(got) != want:
        return f"tags written {got}, expected {sorted(want)} (requested {r.chosen.name}, overall {r.V.overall.name}, only-plat {case['only']})"
    return None
