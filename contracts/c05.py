"""C05: what symbol versions are considered when judging a policy."""
from __future__ import annotations
from contracts.c01 import policy_permits


# ---------------------------------------------------------------- preconditions
def refs_in_catalogue(policies, external_refs):
    """update(): one report per policy of the catalogue"""
    return all(any(r.policy == p for p in policies._policies) for r in external_refs.values())


def catalogue(policies):
    """class invariant (C15)"""
    return len(policies._policies) > 0 and not any(True for n in policies._policies[0].symbol_versions) and all(
        policies._policies[i].priority < policies._policies[j].priority
        for i in range(len(policies._policies)) for j in range(i + 1, len(policies._policies)))


# ---------------------------------------------------------------- get_symbol_policies
def considered(versioned_symbols, external_versioned_symbols, libs, lib, v):
    """version v of library lib is needed by the wheel or by a library grafted under the policy"""
    return (lib in versioned_symbols and v in versioned_symbols[lib]) or any(
        so in external_versioned_symbols and lib in external_versioned_symbols[so] and v in external_versioned_symbols[so][lib] for so in libs)


def evidence_sound(versioned_symbols, external_versioned_symbols, external_refs, result):
    return all(any(r.policy.priority != 0 and e[0].priority <= r.policy.priority and all(
        considered(versioned_symbols, external_versioned_symbols, r.libs, lib, v) for lib in e[1] for v in e[1][lib])
        for r in external_refs.values()) for e in result)


def per_policy(versioned_symbols, external_versioned_symbols, external_refs, result):
    """each policy but generic linux has its verdict, on all the evidence that counts"""
    return all(any(e[0].priority <= r.policy.priority
                   and all(lib in e[1] and v in e[1][lib] for lib in versioned_symbols for v in versioned_symbols[lib])
                   and all(lib in e[1] and v in e[1][lib] for so in r.libs if so in external_versioned_symbols
                           for lib in external_versioned_symbols[so] for v in external_versioned_symbols[so][lib])
                   for e in result) for r in external_refs.values() if r.policy.priority != 0)


def verdicts(policies, result):
    return all(any(policy_permits(p, e[1]) and e[0].priority <= p.priority and all(
        implies(policy_permits(q, e[1]), q.priority <= p.priority) for q in policies._policies) for p in policies._policies) for e in result)


# ---------------------------------------------------------------- get_external_libs
def libs_sound(external_refs, result):
    """only located libraries some policy other than generic linux would graft, under their own name"""
    return all(any(r.policy.priority != 0 and any(r.libs[n] is not None and r.libs[n] == path and n == result[path] for n in r.libs)
                   for r in external_refs.values()) for path in result)


def libs_complete(external_refs, result):
    return all(r.libs[n] in result for r in external_refs.values() if r.policy.priority != 0 for n in r.libs if r.libs[n] is not None)


CONTRACTS = [
    dict(fn="auditwheel.wheel_abi:get_symbol_policies", props=["C05"],
         types={"versioned_symbols": "defaultdict[str, set[str]]", "external_versioned_symbols": "dict[str, dict[str, set[str]]]"},
         requires=["catalogue", "refs_in_catalogue"],
         ensures={"evidence-sound": "evidence_sound", "per-policy": "per_policy", "verdicts": "verdicts"}),
    dict(fn="auditwheel.wheel_abi:get_external_libs", props=["C05"],
         ensures={"sound": "libs_sound", "complete": "libs_complete"}),
]


def t1(external_refs, result):
    return all(any(r.policy.priority != 0 for r in external_refs.values()) for path in result)
def t2(external_refs, result):
    return all(any(r.policy.priority != 0 and any(r.libs[n] is not None and r.libs[n] == path for n in r.libs)
                   for r in external_refs.values()) for path in result)
def t3(external_refs, result):
    return all(any(n == result[path] for r in external_refs.values() for n in r.libs) for path in result)
CONTRACTS[1]["ensures"] = {"sound": "libs_sound", "complete": "libs_complete"}
