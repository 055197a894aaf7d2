"""C06: instruction-set verdict."""
from __future__ import annotations


def superset(a, b):
    """architecture a guarantees at least level b (C16)"""
    from contracts.c16 import subset
    return subset(b, a)


def exceeds(policies, platform):
    """the file needs a level the target does not guarantee"""
    return platform._ext_arch is not None and not superset(policies._architecture, platform._ext_arch)


def external(elftree, so_names, n):
    """entry n of the tree is a located external library"""
    return elftree.libraries[n].soname in so_names and elftree.libraries[n].realpath is not None


# ---------------------------------------------------------------- preconditions
def catalogue_ordered(policies):
    return len(policies._policies) > 0 and all(
        policies._policies[i].priority < policies._policies[j].priority
        for i in range(len(policies._policies)) for j in range(i + 1, len(policies._policies)))


def located_have_platform(elftree_by_fn):
    """ldd: a located library has its platform recorded"""
    return all(lib.platform is not None for t in elftree_by_fn.values() for lib in t.libraries.values() if lib.realpath is not None)


def one_file_one_identity(elftree_by_fn, external_so_names):
    """one file on disk has one soname and one machine; a located external library is not itself an analysed file"""
    return all(a.soname == b.soname and a.platform == b.platform
               for t in elftree_by_fn.values() for a in t.libraries.values() if a.soname in external_so_names and a.realpath is not None
               for u in elftree_by_fn.values() for b in u.libraries.values() if b.soname in external_so_names and b.realpath is not None and a.realpath == b.realpath) and all(
        a.realpath not in elftree_by_fn
        for t in elftree_by_fn.values() for a in t.libraries.values() if a.soname in external_so_names and a.realpath is not None)


# ---------------------------------------------------------------- postconditions
def in_catalogue(policies, result):
    return any(result == p for p in policies._policies)


def own_files(policies, elftree_by_fn, result):
    return all(result == policies._policies[0] for t in elftree_by_fn.values() if exceeds(policies, t.platform))


def libraries(policies, elftree_by_fn, external_so_names, result):
    """an exceeding library limits the verdict to generic linux or a policy allow-listing it"""
    return all(result == policies._policies[0] or any(lib.soname in p.whitelist and result.priority <= p.priority for p in policies._policies)
               for t in elftree_by_fn.values() for lib in t.libraries.values()
               if lib.soname in external_so_names and lib.realpath is not None and exceeds(policies, lib.platform))


def nothing_exceeds(policies, elftree_by_fn, external_so_names, result):
    return implies(
        all(not exceeds(policies, t.platform) for t in elftree_by_fn.values()) and all(
            not exceeds(policies, lib.platform) for t in elftree_by_fn.values() for lib in t.libraries.values()
            if lib.soname in external_so_names and lib.realpath is not None),
        result == policies._policies[len(policies._policies) - 1])


def unknown_isa(elftree_by_fn, external_so_names):
    return any(t.platform._error_msg is not None for t in elftree_by_fn.values()) or any(
        lib.platform._error_msg is not None for t in elftree_by_fn.values() for lib in t.libraries.values()
        if lib.soname in external_so_names and lib.realpath is not None)


CONTRACTS = [
    dict(fn="auditwheel.wheel_abi:_get_machine_policy", props=["C06"],
         requires=["catalogue_ordered", "located_have_platform"], hypotheses=["one_file_one_identity"],
         ensures={"in-catalogue": "in_catalogue", "nothing-exceeds": "nothing_exceeds"},
         raises={"ValueError": None}),
]
