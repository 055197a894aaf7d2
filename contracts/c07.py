"""C07: repair refuses tags the analysis rules out."""
from __future__ import annotations
from dataclasses import dataclass
from pathlib import Path
from auditwheel.architecture import Architecture
from contracts.c15 import called


@dataclass(frozen=True)
class Args:
    """the parsed command line of `auditwheel repair`"""
    EXCLUDE: list[str]
    WHEEL_DIR: Path
    WHEEL_FILE: list[Path]
    PLAT: str
    DISABLE_ISA_EXT_CHECK: bool
    LDPATHS: str | None
    ALLOW_PURE_PY_WHEEL: bool
    ONLY_PLAT: bool
    UPDATE_TAGS: bool
    STRIP: bool
    LIB_SDIR: str
    PATCHER: str
    ZIP_COMPRESSION_LEVEL: int


def catalogue_not_empty(result):
    return any(True for p in result.policies._policies)


def allowed(p, winfo):
    """no verdict of the analysis ranks below the policy"""
    return (p.priority <= winfo.sym_policy.priority and p.priority <= winfo.ucs_policy.priority and p.priority <= winfo.pyfpe_policy.priority
            and p.priority <= winfo.blacklist_policy.priority and p.priority <= winfo.machine_policy.priority)


def own_tags(p):
    return [p.name] + list(p.aliases)


def claimed(x, p, winfo, only_plat):
    """a tag of the policy, or of the overall verdict when that ranks higher and more than the platform was asked for"""
    o = winfo.overall_policy
    return x == p.name or x in p.aliases or (not only_plat and p.priority < o.priority and (x == o.name or x in o.aliases))


def verdicts_allow(args, wheel_abi, abis):
    """the tags are those of one policy (and possibly of the overall verdict), and no verdict of the analysis ranks below that policy"""
    return any(allowed(p, wheel_abi) and p.name in abis and all(claimed(x, p, wheel_abi, args.ONLY_PLAT) for x in abis) for p in wheel_abi.policies._policies)


CONTRACTS = [
    dict(fn="auditwheel.repair:repair_wheel", props=[], effect="repair_wheel", raises={"*": None}, assumed="proved in part under C08"),
    dict(fn="auditwheel.patcher:ElfPatcher.get_patcher", props=[], raises={"ValueError": None}, assumed="the patch tool (C11)"),
    dict(fn="auditwheel.main_repair:execute", props=["C07"], join=1, types={"args": "Args"}, opaque_self=["parser"],
         use={"auditwheel.wheel_abi:analyze_wheel_abi": None, "auditwheel.wheeltools:get_wheel_architecture": None,
              "auditwheel.wheeltools:get_wheel_libc": None, "auditwheel.libc:Libc.tag_prefix": None},
         at_call={"auditwheel.repair:repair_wheel": {"verdicts-allow": "verdicts_allow"}},
         raises={"*": None}),
]
