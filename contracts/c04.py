"""C04: the overall verdict is the minimum of the individual verdicts."""
from __future__ import annotations
from auditwheel.policy import ExternalReference


# ---------------------------------------------------------------- get_wheel_elfdata (contract proved under C23, C02)
def catalogue(result):
    """class invariant of the catalogue (C15)"""
    return len(result.policies._policies) > 0 and not any(True for n in result.policies._policies[0].symbol_versions) and all(
        result.policies._policies[i].priority < result.policies._policies[j].priority and result.policies._policies[i].name != result.policies._policies[j].name
        for i in range(len(result.policies._policies)) for j in range(i + 1, len(result.policies._policies))) and result.policies._policies[0].priority == 0


def located_have_platform(result):
    """ldd: a located library has its platform recorded"""
    return all(lib.platform is not None for t in result.full_elftree.values() for lib in t.libraries.values() if lib.realpath is not None)


def judged_recorded(result):
    return all(fn in result.full_external_refs for fn in result.full_elftree)


# ---------------------------------------------------------------- specification vocabulary
def member(policies, p):
    return any(p == q for q in policies._policies)


def top(policies):
    return policies._policies[len(policies._policies) - 1]


def bottom(policies):
    return policies._policies[0]


# ---------------------------------------------------------------- postconditions
def overall_bound(result, requested_policy_base_name, allow_graft):
    o = result.overall_policy.priority
    return (o <= result.sym_policy.priority and o <= result.ucs_policy.priority and o <= result.pyfpe_policy.priority
            and o <= result.blacklist_policy.priority and o <= result.machine_policy.priority
            and implies(requested_policy_base_name is not None, o <= result.graft_policy.priority)
            and implies(not allow_graft, o <= result.ref_policy.priority))


def overall_is_one(result, requested_policy_base_name, allow_graft):
    o = result.overall_policy
    return (o == result.sym_policy or o == result.ucs_policy or o == result.pyfpe_policy or o == result.blacklist_policy
            or o == result.machine_policy or (requested_policy_base_name is not None and o == result.graft_policy)
            or (not allow_graft and o == result.ref_policy))


def isa_disabled(result, disable_isa_ext_check):
    return implies(disable_isa_ext_check, result.machine_policy == top(result.policies))


def ref_verdict(result):
    return all(implies(not any(True for n in e.libs), e.policy.priority <= result.ref_policy.priority) for e in result.external_refs.values()) and (
        result.ref_policy == bottom(result.policies) or any(result.ref_policy == e.policy and not any(True for n in e.libs) for e in result.external_refs.values()))


def denylist_verdict(result):
    return all(implies(not any(True for n in e.blacklist), e.policy.priority <= result.blacklist_policy.priority) for e in result.external_refs.values()) and (
        result.blacklist_policy == bottom(result.policies) or any(result.blacklist_policy == e.policy and not any(True for n in e.blacklist) for e in result.external_refs.values()))


def of_requested(e, base):
    """the policy goes by the requested base name, itself or by an alias"""
    return e.policy.name.startswith(base + "_") or any(a.startswith(base + "_") for a in e.policy.aliases)


def candidate(e, result, base):
    return (e.policy != bottom(result.policies)) if base is None or base == "auto" else of_requested(e, base)


def few_enough(e, result, base):
    """no more libraries to graft than the requested policy needs"""
    return all(len(e.libs) <= len(f.libs) for f in result.external_refs.values() if candidate(f, result, base)) and (
        len(e.libs) == 0 or any(candidate(f, result, base) for f in result.external_refs.values()))


def graft_verdict(result, requested_policy_base_name):
    return all(implies(few_enough(e, result, requested_policy_base_name), e.policy.priority <= result.graft_policy.priority)
               for e in result.external_refs.values())


def graft_verdict_is_one(result, requested_policy_base_name):
    return result.graft_policy == bottom(result.policies) or any(
        result.graft_policy == e.policy and few_enough(e, result, requested_policy_base_name) for e in result.external_refs.values())


def elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths):
    """the evidence of one wheel (a function of the wheel and the options: the result is cached)"""
    from auditwheel.wheel_abi import get_wheel_elfdata
    return get_wheel_elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths)


OPAQUE = {"elfdata": "WheelElfData"}


def evidence(libc, architecture, wheel_fn, exclude, args_ldpaths):
    return elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths)


def flag_verdicts(libc, architecture, wheel_fn, exclude, args_ldpaths, result):
    """UCS2 / PyFPE use caps the wheel at generic linux, otherwise nothing"""
    d = elfdata(libc, architecture, wheel_fn, exclude, args_ldpaths)
    return (result.policies == d.policies and result.ucs_policy == (bottom(result.policies) if d.uses_ucs2_symbols else top(result.policies))
            and result.pyfpe_policy == (bottom(result.policies) if d.uses_pyfpe_jbuf else top(result.policies)))


# ---------------------------------------------------------------- update
def same_reports(old_d, d):
    """reports stay attached to their policies (a preorder: reflexive and transitive)"""
    return all(k in d and d[k].policy == old_d[k].policy for k in old_d) and all(k in old_d for k in d)


def lemma_preorder(a: dict[str, ExternalReference], b: dict[str, ExternalReference], c: dict[str, ExternalReference]) -> bool:
    return True


def pre_refl(a):
    return same_reports(a, a)


def pre_trans(a, b, c):
    return implies(same_reports(a, b) and same_reports(b, c), same_reports(a, c))


CONTRACTS = [
    dict(fn="auditwheel.wheel_abi:update", props=[], types={"d": "dict[str, ExternalReference]"}, modifies={"d": None}, relation="same_reports",
         assumed="merges the reports of one file into the reports per policy; union checked by run-time contracts under C03"),
    dict(fn="contracts.c04:lemma_preorder", props=["C04"], ensures={"reflexive": "pre_refl", "transitive": "pre_trans"}),
    dict(fn="auditwheel.wheel_abi:get_wheel_elfdata", props=[], returns="evidence", ensures={"catalogue": "catalogue", "judged-recorded": "judged_recorded", "located-have-platform": "located_have_platform"},
         raises={"RuntimeError": None, "NonPlatformWheelError": None, "InvalidLibcError": None},
         assumed="the judged files, their references and the catalogue; proved in part under C23 and C15"),
    dict(fn="auditwheel.wheel_abi:get_versioned_symbols", props=[], assumed="extraction of versions from located libraries (C19); RAC under C05"),
    dict(fn="auditwheel.wheel_abi:analyze_wheel_abi", props=["C04"],
         use={"auditwheel.wheel_abi:get_symbol_policies": [], "auditwheel.wheel_abi:get_external_libs": [],
              "auditwheel.wheel_abi:_get_machine_policy": ["in-catalogue"], "auditwheel.policy:WheelPolicies.versioned_symbols_policy": ["in-catalogue"]},
         ensures={"graft-verdict": "graft_verdict", "graft-verdict-is-one": "graft_verdict_is_one", "flag-verdicts": "flag_verdicts", "bound": "overall_bound", "is-one": "overall_is_one", "isa-disabled": "isa_disabled", "ref-verdict": "ref_verdict",
                  "denylist-verdict": "denylist_verdict"},
         raises={"RuntimeError": None, "NonPlatformWheelError": None, "InvalidLibcError": None, "ValueError": None}),
]
