"""wheel-wide evidence: files judged, files left out, flags, errors"""
from rac.base import SKIP
from rac import an
RULE = an.RULE


def cases(rng, tier):
    while True:
        yield an.rand_case(rng, pure=0.1, knobs=dict(ucs=0.1, fpe=0.1))


def check(case, tmp):
    r = an.analyse(case, tmp, data_only=True)
    if r is SKIP:
        return SKIP
    e = an.errors(r)
    if e is not False:
        return e
    d = r.data
    got = {k: set(v) for k, v in d.versioned_symbols.items() if v}
    if got != {k: v for k, v in r.D.vs.items() if v}:
        return f"versioned symbols {got}, expected {r.D.vs}"
    if bool(d.uses_ucs2_symbols) != r.D.ucs2:
        return f"UCS2 use reported {d.uses_ucs2_symbols}, expected {r.D.ucs2}"
    if bool(d.uses_pyfpe_jbuf) != r.D.pyfpe:
        return f"PyFPE use reported {d.uses_pyfpe_jbuf}, expected {r.D.pyfpe}"
    if {str(k) for k in d.full_elftree} != set(r.D.full):
        return f"files judged {sorted(map(str, d.full_elftree))}, expected {sorted(r.D.full)}"
    if {str(k) for k in d.full_external_refs} != set(r.D.refs):
        return f"files with external references {sorted(map(str, d.full_external_refs))}, expected {sorted(r.D.refs)}"
    if [p.name for p in d.policies] != [p.name for p in r.D.cat]:
        return f"catalogue {[p.name for p in d.policies]}, expected {[p.name for p in r.D.cat]}"
    return None
