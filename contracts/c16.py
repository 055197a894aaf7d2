"""C16: architecture order; architecture and C library named by a wheel file name."""
from __future__ import annotations
from auditwheel.architecture import Architecture
from auditwheel.libc import Libc


# ---------------------------------------------------------------- specification vocabulary
def base_of(a):
    """the architecture a level belongs to, by name"""
    if a.value in ("x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4"):
        return Architecture.x86_64
    if a.value in ("aarch64", "arm64_v8a"):
        return Architecture.aarch64
    return a


def rank(a):
    """position of a level above its baseline"""
    return 1 if a.value in ("x86_64_v2", "arm64_v8a") else 2 if a.value == "x86_64_v3" else 3 if a.value == "x86_64_v4" else 0


def subset(self, other):
    return base_of(self) == base_of(other) and rank(self) <= rank(other)


def superset(self, other):
    return subset(other, self)


def base(self):
    return base_of(self)


# ---------------------------------------------------------------- lemma: the order claimed by the property
def lemma_order(a: Architecture, b: Architecture, c: Architecture) -> bool:
    return True


def l_reflexive(a):
    return subset(a, a)


def l_antisymmetric(a, b):
    return implies(subset(a, b) and subset(b, a), a == b)


def l_transitive(a, b, c):
    return implies(subset(a, b) and subset(b, c), subset(a, c))


def l_incomparable(a, b):
    return implies(base_of(a) != base_of(b), not subset(a, b) and not subset(b, a))


def l_levels():
    return (subset(Architecture.x86_64, Architecture.x86_64_v2) and subset(Architecture.x86_64_v2, Architecture.x86_64_v3)
            and subset(Architecture.x86_64_v3, Architecture.x86_64_v4) and not subset(Architecture.x86_64_v4, Architecture.x86_64_v3)
            and not subset(Architecture.x86_64_v3, Architecture.x86_64_v2) and not subset(Architecture.x86_64_v2, Architecture.x86_64))


# ---------------------------------------------------------------- names
def platform_names(filename):
    """platform tags of a wheel file name (parsed by packaging)"""
    from packaging.utils import parse_wheel_filename
    return {t.platform for t in parse_wheel_filename(filename)[3]}


OPAQUE = {"platform_names": "set[str]", "base_of": "Architecture", "rank": "int"}


def platforms(filename):
    return sorted(platform_names(filename))


def names(tag, a):
    return tag.endswith("_" + a.value)


def one_arch(filename, result):
    """every tag names an architecture, all of them of baseline `result`"""
    return (any(True for t in platform_names(filename))
            and all(t != "any" and any(names(t, a) for a in Architecture) for t in platform_names(filename))
            and all(base_of(a) == result for t in platform_names(filename) for a in Architecture if names(t, a)))


def only_any(filename):
    return all(t == "any" for t in platform_names(filename))


def no_arch(filename):
    """some tag is 'any' or names no architecture, or two tags name architectures of different baselines"""
    return not only_any(filename) and not (
        all(t != "any" and any(names(t, a) for a in Architecture) for t in platform_names(filename))
        and all(base_of(a) == base_of(b) for t in platform_names(filename) for a in Architecture if names(t, a)
                for u in platform_names(filename) for b in Architecture if names(u, b)))


def one_libc(filename, result):
    return (any(t.startswith(prefix(result)) for t in platform_names(filename))
            and all(b == result for t in platform_names(filename) for b in Libc if t.startswith(prefix(b))))


def no_libc(filename):
    return not any(one_libc(filename, b) for b in Libc)


def prefix(b):
    return "manylinux" if b == Libc.GLIBC else "musllinux" if b == Libc.MUSL else "android"


def prefix_of(self):
    return prefix(self)


CONTRACTS = [
    dict(fn="auditwheel.architecture:Architecture.baseline", props=["C16"], returns="base", reveal=["base_of", "rank"]),
    dict(fn="auditwheel.architecture:Architecture.is_subset", props=["C16"], returns="subset", reveal=["base_of", "rank"]),
    dict(fn="auditwheel.architecture:Architecture.is_superset", props=["C16"], returns="superset", reveal=["base_of", "rank"]),
    dict(fn="contracts.c16:lemma_order", props=["C16"], reveal=["base_of", "rank"], ensures={"reflexive": "l_reflexive", "antisymmetric": "l_antisymmetric",
         "transitive": "l_transitive", "incomparable": "l_incomparable", "levels": "l_levels"}),
    dict(fn="auditwheel.libc:Libc.tag_prefix", props=["C16"], returns="prefix_of"),
    dict(fn="auditwheel.wheeltools:get_wheel_platforms", props=["C16", "C12"], returns="platforms", reveal=["platform_names"],
         raises={"InvalidWheelFilename": None}),
    dict(fn="auditwheel.wheeltools:get_wheel_architecture", join=40, props=["C16"], ensures={"every-tag-same-baseline": "one_arch"},
         raises={"InvalidWheelFilename": None, "NonPlatformWheelError": "only_any", "WheelToolsError": "no_arch"}),
    dict(fn="auditwheel.wheeltools:get_wheel_libc", props=["C16"], ensures={"exactly-one": "one_libc"},
         raises={"InvalidWheelFilename": None, "WheelToolsError": "no_libc"}),
]
