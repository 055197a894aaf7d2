"""C02: classification of external libraries per policy."""
from __future__ import annotations
from pathlib import Path
from auditwheel.libc import Libc
from auditwheel.lddtree import LIBPYTHON_RE
from pyvc_spec import is_elf

POLICIES = "auditwheel.policy:WheelPolicies"


# ---------------------------------------------------------------- specification vocabulary
def counts(libc, whitelist, name):
    """the library is one policy p does not allow-list (loader always, libpython on Android excluded)"""
    return not ("ld-linux" in name or name in ("ld64.so.2", "ld64.so.1")) and name not in whitelist and not (
        libc == Libc.ANDROID and is_libpython(name))


def base(libc, lddtree, whitelist, x):
    return x in lddtree.needed and counts(libc, whitelist, x)


def step(libc, lddtree, whitelist, x, y):
    return x in lddtree.libraries and y in lddtree.libraries[x].needed and counts(libc, whitelist, y)


def reach(libc, lddtree, whitelist, x: str):
    """x is reachable from the direct dependencies through libraries policy p does not allow-list (least such predicate;
    symbolically an inductive predicate, natively a search)"""
    seen, todo = set(), [n for n in lddtree.needed if counts(libc, whitelist, n)]
    while todo:
        n = todo.pop()
        if n == x:
            return True
        if n in seen or n not in lddtree.libraries:
            continue
        seen.add(n)
        todo += [d for d in lddtree.libraries[n].needed if counts(libc, whitelist, d)]
    return False


INDUCTIVE = {"reach": ("base", "step")}


def in_wheel(path, wheel_path):
    return path is not None and path.resolve().is_relative_to(wheel_path.resolve())


# ---------------------------------------------------------------- preconditions
def tree_closed(lddtree):
    """every dependency named anywhere in the tree has its entry (guaranteed by ldd and _fixup_elf_trees)"""
    return all(n in lddtree.libraries for n in lddtree.needed) and all(
        d in lddtree.libraries for n in lddtree.libraries for d in lddtree.libraries[n].needed)


def catalogue_names(self):
    """class invariant of the catalogue (C15): generic linux first, names unique"""
    return len(self._policies) > 0 and all(self._policies[i].name != self._policies[j].name
                                           for i in range(len(self._policies)) for j in range(len(self._policies)) if i != j)


def resolved_to_elf(lddtree):
    """the dependency tree was read from an ELF file that has not been replaced since"""
    return is_elf(lddtree.realpath.open("rb"))


# ---------------------------------------------------------------- postconditions
def one_report_per_policy(self, result):
    return all(p.name in result and result[p.name].policy == p for p in self._policies) and all(
        any(p.name == n for p in self._policies) for n in result)


def linux_has_none(self, result):
    return all(not any(True for x in r.libs) for r in result.values() if r.policy == self._policies[0])


def sound(self, lddtree, wheel_path, result):
    return all(reach(self._libc_variant, lddtree, r.policy.whitelist, x) and not in_wheel(lddtree.libraries[x].realpath, wheel_path)
               and r.libs[x] == lddtree.libraries[x].realpath for r in result.values() for x in r.libs)


def complete(self, lddtree, wheel_path, result):
    return all(x in r.libs for r in result.values() if r.policy != self._policies[0] for x in lddtree.libraries
               if reach(self._libc_variant, lddtree, r.policy.whitelist, x) and not in_wheel(lddtree.libraries[x].realpath, wheel_path))


# ---------------------------------------------------------------- get_req_external (closure of the wheel's direct dependencies)
def starts_reachable(self, lddtree, libs, whitelist):
    return all(reach(self._libc_variant, lddtree, whitelist, x) and x in lddtree.libraries for x in libs)


def req_sound(self, lddtree, whitelist, result):
    return all(reach(self._libc_variant, lddtree, whitelist, x) and x in lddtree.libraries for x in result)


def req_starts(libs, result):
    return all(x in result for x in libs)


def req_closed(self, lddtree, whitelist, result):
    return all(d in result for n in result for d in lddtree.libraries[n].needed if counts(self._libc_variant, whitelist, d))


# loop invariants (templates)
def inv_reach(self, lddtree, whitelist, todo: set):
    return all(reach(self._libc_variant, lddtree, whitelist, x) and x in lddtree.libraries for x in todo)


def inv_starts(libs, todo: set, done: set):
    return all(n in todo or n in done for n in libs)


def inv_closed(self, lddtree, whitelist, todo: set, done: set):
    return all(d in todo or d in done for n in done for d in lddtree.libraries[n].needed if counts(self._libc_variant, whitelist, d))


CONTRACTS = [
    dict(
        fn=POLICIES + ".lddtree_external_references",
        props=["C02"],
        requires=["tree_closed", "catalogue_names"],
        hypotheses=["resolved_to_elf"],
        ensures={"one-report-per-policy": "one_report_per_policy", "linux-none": "linux_has_none", "sound": "sound", "complete": "complete"},
    ),
    dict(
        fn=POLICIES + ".lddtree_external_references.<locals>.get_req_external",
        props=["C02"],
        captures={"self": "WheelPolicies", "lddtree": "DynamicExecutable"},
        requires=["tree_closed", "starts_reachable"],
        ensures={"sound": "req_sound", "starts": "req_starts", "closed": "req_closed"},
        loops=["inv_reach", "inv_starts", "inv_closed"],
        induct=True,
    ),
    dict(
        fn="auditwheel.tools:is_subdir",
        props=["C02"],
        returns="subdir",
    ),
]


def subdir(path, root):
    return path is not None and Path(path).resolve().is_relative_to(Path(root).resolve())



def is_libpython(name):
    return LIBPYTHON_RE.match(name) is not None
