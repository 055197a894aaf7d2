"""C21: the JSON report agrees with the analysis."""
from __future__ import annotations


# ---------------------------------------------------------------- assumptions about the analysis result
def well_formed(winfo):
    """the analysis has a report for every policy of the catalogue (C02, C04); the catalogue is not empty"""
    return (any(True for p in winfo.policies._policies) and all(i == j or p.name != q.name for i, p in enumerate(winfo.policies._policies)
                                                                for j, q in enumerate(winfo.policies._policies))
            and all(p.name in winfo.external_refs for p in winfo.policies._policies))


def printed():
    """the text produced by the JSON encoder for the report"""
    return "?"


OPAQUE = {"printed": "str"}


def dumped():
    return printed()


# ---------------------------------------------------------------- the report
def eliminate(winfo, p):
    return sorted(winfo.external_refs[p.name].libs.keys())


def blocked(winfo, p):
    return {k: sorted(v) for k, v in sorted(winfo.external_refs[p.name].blacklist.items())}


def needs_libs(winfo, p):
    return any(True for k in winfo.external_refs[p.name].libs)


def needs_symbols(winfo, p):
    return any(True for k in winfo.external_refs[p.name].blacklist)


def is_upgrade(winfo, p):
    return p.priority > winfo.overall_policy.priority and (needs_libs(winfo, p) or needs_symbols(winfo, p))


def linux(winfo):
    return winfo.policies._policies[0]


def one_report_printed(effects):
    return len(effects) == 2 and effects[0][0] == "dumps" and effects[1] == ("print", printed())


def tags(fn, winfo, effects):
    r = effects[0][1]
    return (r["version"] == 1 and r["wheel"] == fn and not r["pure"]
            and r["overall_tag"] == winfo.overall_policy.name and r["sym_tag"] == winfo.sym_policy.name)


def flags(winfo, effects):
    r = effects[0][1]
    return (r["pyfpe"] == (winfo.pyfpe_policy == linux(winfo)) and r["ucs2"] == (winfo.ucs_policy == linux(winfo))
            and r["unsupported_isa"] == (winfo.machine_policy == linux(winfo)))


def symbols(winfo, effects):
    return effects[0][1]["versioned_symbols"] == {k: sorted(v) for k, v in sorted(winfo.versioned_symbols.items())}


def libraries(winfo, effects):
    ref = winfo.external_refs[winfo.policies._policies[-1].name]
    return effects[0][1]["external_libs"] == {str(k): None if v is None else str(v) for k, v in sorted(ref.libs.items())}


def upgrades_complete(winfo, effects):
    u = effects[0][1]["policy_upgrades"]
    return all(p.name in u for p in winfo.policies._policies if is_upgrade(winfo, p))


def upgrades_only(winfo, effects):
    u = effects[0][1]["policy_upgrades"]
    return all(any(p.name == n and is_upgrade(winfo, p) for p in winfo.policies._policies) for n in u)


def upgrade_entries(winfo, effects):
    u = effects[0][1]["policy_upgrades"]
    return all(u[p.name] == entry(winfo, p) for p in winfo.policies._policies if p.name in u)


def entry(winfo, p):
    e = {}
    if needs_libs(winfo, p):
        e["libs_to_eliminate"] = eliminate(winfo, p)
    if needs_symbols(winfo, p):
        e["blacklisted_symbols"] = blocked(winfo, p)
    return e


CONTRACTS = [
    dict(fn="auditwheel.json:dumps", props=[], effect="dumps", returns="dumped", types={"result": "str"},
         assumed="the JSON encoder writes the value it is given (json of the standard library; strings, numbers, lists, dicts)"),
    dict(fn="auditwheel.main_show:_output_json", props=["C21"], join=1, requires=["well_formed"],
         ensures={"one-report": "one_report_printed", "tags": "tags", "flags": "flags", "versioned-symbols": "symbols", "libraries": "libraries",
                  "upgrades-complete": "upgrades_complete", "upgrades-only": "upgrades_only", "upgrade-entries": "upgrade_entries"}),
]
