"""auditwheel show --json compared with the analysis of the specification"""
import argparse, json, os, pathlib
from rac.base import SKIP, quiet
from rac import an, world as W
RULE = an.RULE + "; the JSON printed by 'auditwheel show --json' is compared"


def cases(rng, tier):
    while True:
        c = an.rand_case(rng, exclude=0, knobs=dict(hard=0.3, black=0.35, isa=0.2, ucs=0.2, fpe=0.1))
        a = c["w"]["arch"]
        c["libc"], c["arch"] = None, a
        c["exclude"] = []
        c["graft"], c["req"] = False, None
        yield c


def check(case, tmp):
    from auditwheel import main_show
    r = an.analyse(case, tmp)
    if r is SKIP or r.expect or r.err:
        return SKIP
    p = argparse.ArgumentParser(prog="auditwheel")
    p.add_argument("-v", dest="verbose", action="count", default=0)
    sub = p.add_subparsers()
    main_show.configure_parser(sub)
    args = p.parse_args(["show", str(r.whl), "--json", "--ldpaths", r.ld] + (["--disable-isa-ext-check"] if case["disable"] else []))
    with quiet() as (so, se):
        rc = args.func(args, p)
    out = json.loads(so.getvalue())
    V, D = r.V, r.D
    cat = D.cat
    if rc not in (0, None):
        return f"exit status {rc}"
    if (out["overall_tag"], out["sym_tag"]) != (V.overall.name, V.sym.name):
        return f"tags {out['overall_tag']}, {out['sym_tag']}; expected {V.overall.name}, {V.sym.name}"
    for k, v in (("ucs2", V.ucs), ("pyfpe", V.pyfpe), ("unsupported_isa", V.machine)):
        if out[k] is not (v is cat[0]):
            return f"{k} is {out[k]}, verdict {v.name}"
    got = {k: list(v) for k, v in out["versioned_symbols"].items() if v}
    if got not in [{k: sorted(v) for k, v in x.items() if v} for x in V.vs]:
        return f"versioned symbols {got}, expected {V.vs}"
    if any(list(v) != sorted(v) for v in out["versioned_symbols"].values()) or list(out["versioned_symbols"]) != sorted(out["versioned_symbols"]):
        return "versioned symbols are not sorted"
    libs = {k: an.norm(r, v) for k, v in out["external_libs"].items()}
    if libs != V.merged[cat[-1].name][0]:
        return f"external libraries {libs}, expected {V.merged[cat[-1].name][0]}"
    want = {}
    for q in cat:
        if q.prio > V.overall.prio:
            l, b = V.merged[q.name]
            e = {}
            if l:
                e["libs_to_eliminate"] = sorted(l)
            if b:
                e["blacklisted_symbols"] = b
            if e:
                want[q.name] = e
    if out["policy_upgrades"] != want:
        return f"upgrades {out['policy_upgrades']}, expected {want}"
    if out["wheel"] != r.whl.name or out["pure"] is not False:
        return f"wheel {out['wheel']}, pure {out['pure']}"
    return None
