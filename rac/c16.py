"""architecture order and inference from wheel names: exhaustive over architectures, random tags"""
import itertools
from rac.base import SKIP
RULE = "all pairs and triples of architectures; wheel names with one to three random platform tags (every architecture, suffix look-alikes, any, macosx/win tags)"
ARCHS = ["aarch64", "arm64_v8a", "armv7l", "i686", "loongarch64", "ppc64", "ppc64le", "riscv64", "s390x", "x86_64", "x86_64_v2", "x86_64_v3", "x86_64_v4"]
BASE = {"arm64_v8a": "aarch64", "x86_64_v2": "x86_64", "x86_64_v3": "x86_64", "x86_64_v4": "x86_64"}
PRE = ["linux_", "manylinux_2_17_", "manylinux2014_", "musllinux_1_1_", "android_24_", "macosx_10_9_", "manylinux1_", "foo_"]
ODD = ["any", "win_amd64", "macosx_11_0_universal2", "linux", "linux_xx86_64", "linux_ppc64lex", "manylinux", "musllinux_1_1", "linux_armv6l", "x86_64", "aarch64", "macosx_11_0_arm64", "manylinuxmusllinux_x86_64"]


def cases(rng, tier):
    yield dict(kind="order")
    for a in ARCHS:
        for p in PRE:
            yield dict(kind="name", plats=[p + a])
    for o in ODD:
        yield dict(kind="name", plats=[o])
    while True:
        k = rng.choice([1, 2, 2, 3])
        if rng.random() < 0.5:
            a = rng.choice(ARCHS)
            same = [x for x in ARCHS if BASE.get(x, x) == BASE.get(a, a)]
            pl = [rng.choice(PRE) + rng.choice(same) for _ in range(k)]
        else:
            pl = [rng.choice(PRE) + rng.choice(ARCHS) if rng.random() < 0.7 else rng.choice(ODD) for _ in range(k)]
        if rng.random() < 0.1:
            pl.append("any")
        yield dict(kind="name", plats=pl)


def names_arch(tag):
    for a in sorted(ARCHS, key=len, reverse=True):
        if tag.endswith("_" + a):
            return BASE.get(a, a)
    return None


def check(case, tmp):
    from auditwheel.architecture import Architecture as A
    from auditwheel.wheeltools import get_wheel_architecture, get_wheel_libc
    from auditwheel.error import NonPlatformWheelError, WheelToolsError
    if case["kind"] == "order":
        if sorted(a.value for a in A) != sorted(ARCHS):
            return SKIP
        sub = {(a.value, b.value): a.is_subset(b) for a in A for b in A}
        sup = {(a.value, b.value): a.is_superset(b) for a in A for b in A}
        lvl = {"x86_64": 0, "x86_64_v2": 1, "x86_64_v3": 2, "x86_64_v4": 3}
        for a, b in itertools.product(ARCHS, ARCHS):
            ba, bb = BASE.get(a, a), BASE.get(b, b)
            if A(a).baseline.value != ba:
                return f"baseline of {a} is {A(a).baseline.value}"
            if ba != bb and (sub[a, b] or sup[a, b]):
                return f"{a} and {b} are comparable"
            if sub[a, b] != sup[b, a]:
                return f"is_subset({a},{b})={sub[a, b]} but is_superset({b},{a})={sup[b, a]}"
            if a == b and not sub[a, b]:
                return f"{a} is not a subset of itself"
            if a != b and sub[a, b] and sub[b, a]:
                return f"{a} and {b} are subsets of each other"
            if a in lvl and b in lvl and sub[a, b] != (lvl[a] <= lvl[b]):
                return f"is_subset({a},{b}) is {sub[a, b]}"
            for c in ARCHS:
                if sub[a, b] and sub[b, c] and not sub[a, c]:
                    return f"not transitive: {a} <= {b} <= {c}"
        return None
    fn = f"pkg-1.0-cp39-cp39-{'.'.join(case['plats'])}.whl"
    tags = {t.lower() for t in case["plats"]}
    bases = {names_arch(t) for t in tags}
    try:
        got = get_wheel_architecture(fn).value
    except NonPlatformWheelError:
        got = "pure"
    except WheelToolsError:
        got = "error"
    want = "pure" if tags == {"any"} else "error" if None in bases or len(bases) != 1 else next(iter(bases))
    if got != want:
        return f"architecture of {fn} is {got}, expected {want}"
    lcs = {l for t in tags for l, p in (("glibc", "manylinux"), ("musl", "musllinux"), ("android", "android")) if t.startswith(p)}
    try:
        got = get_wheel_libc(fn).value
    except WheelToolsError:
        got = "error"
    want = next(iter(lcs)) if len(lcs) == 1 else "error"
    if got != want:
        return f"C library of {fn} is {got}, expected {want}"
    return None
