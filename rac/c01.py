"""run-time contract check of WheelPolicies.versioned_symbols_policy"""
from rac.base import run_contract, SKIP
RULE = ("mappings library -> version strings drawn from the catalogue's own versions (every namespace, versions of every policy, "
        "unknown versions and unknown namespaces), over every libc/architecture catalogue and over small synthetic catalogues")

_cat = {}


def catalogue(libc, arch, musl=None):
    from auditwheel.policy import WheelPolicies
    from auditwheel.libc import Libc
    from auditwheel.architecture import Architecture
    k = (libc, arch, musl)
    if k not in _cat:
        _cat[k] = WheelPolicies(libc=Libc[libc], arch=Architecture(arch), musl_policy=musl)
    return _cat[k]


COMBOS = [("GLIBC", a, None) for a in ("x86_64", "i686", "aarch64", "armv7l", "ppc64le", "s390x", "riscv64", "loongarch64")] + \
    [("MUSL", "x86_64", "musllinux_1_1"), ("MUSL", "aarch64", "musllinux_1_2")]


def synthetic(spec):
    from auditwheel.policy import WheelPolicies, Policy
    wp = WheelPolicies.__new__(WheelPolicies)
    base = catalogue("GLIBC", "x86_64")
    wp.__dict__.update(base.__dict__)
    wp._policies = [Policy("linux", (), 0, {}, frozenset(), {})] + [
        Policy(f"p{i}", (), i + 1, {k: frozenset(v) for k, v in s.items()}, frozenset(), {}) for i, s in enumerate(spec)]
    return wp


def cases(rng, tier):
    # targeted: each single version of each policy, alone
    for libc, arch, m in COMBOS:
        cat = catalogue(libc, arch, m)
        allv = sorted({f"{n}_{v}" for p in cat for n, vs in p.symbol_versions.items() for v in vs})
        step = 1 if tier == "thorough" else 7
        for v in allv[:: step]:
            yield dict(cat=[libc, arch, m], req={"lib": [v]})
    while True:
        if rng.random() < 0.5:
            libc, arch, m = rng.choice(COMBOS)
            cat = catalogue(libc, arch, m)
            allv = sorted({f"{n}_{v}" for p in cat for n, vs in p.symbol_versions.items() for v in vs})
            top = rng.randrange(1, len(list(cat)) + 1)
            pol = list(cat)[top - 1]
            okv = sorted(f"{n}_{v}" for n, vs in pol.symbol_versions.items() for v in vs)
            req = {}
            for lib in ("libc.so.6", "libm.so.6", "libstdc++.so.6", "x")[: rng.randrange(0, 5)]:
                pool = okv if okv and rng.random() < 0.7 else allv
                vs = [rng.choice(pool) for _ in range(rng.randrange(0, 4))] if pool else []
                if rng.random() < 0.15:
                    vs.append(rng.choice(["GLIBC_99", "FOO_1", "FOO", "GLIBC", "GLIBC_PRIVATE", "_x", "CXXABI_LDBL_1.3", "ZLIB_1.2.0_a", "GLIBCXX_9"]))
                req[lib] = vs
            yield dict(cat=[libc, arch, m], req=req)
        else:
            names = ["A", "B", "AB", ""]
            vers = ["1", "2", "2_3", "", "x"]
            spec = [{n: sorted({rng.choice(vers) for _ in range(rng.randrange(0, 4))}) for n in names if rng.random() < 0.6}
                    for _ in range(rng.randrange(0, 4))]
            req = {f"l{i}": [rng.choice(names + ["C"]) + rng.choice(["_", "_", "_", ""]) + rng.choice(vers) for _ in range(rng.randrange(0, 4))]
                   for i in range(rng.randrange(0, 4))}
            yield dict(syn=spec, req=req)


def nontrivial(c):
    return any(c["req"].values())


def check(case, tmp):
    wp = synthetic(case["syn"]) if "syn" in case else catalogue(*case["cat"])
    req = {k: set(v) for k, v in case["req"].items()}
    env = dict(self=wp, versioned_symbols=req)
    return run_contract("c01", "auditwheel.policy:WheelPolicies.versioned_symbols_policy",
                        lambda: wp.versioned_symbols_policy(req), env)
