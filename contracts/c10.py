"""C10: RPATH rewriting keeps exactly the in-wheel entries."""
from __future__ import annotations
from contracts.c11 import current_rpath
import platform
from pathlib import Path
from pyvc_spec import dedupe
from contracts.c02 import subdir


def first_occurrences(sequence):
    return dedupe(sequence)


def lib_token():
    return "lib64" if platform.architecture()[0] == "64bit" else "lib"


def expand(rpath, lib_base_dir):
    """ORIGIN, LIB and PLATFORM tokens, with or without braces"""
    o, l, p = str(lib_base_dir), lib_token(), platform.machine()
    return (rpath.replace("$ORIGIN", o).replace("${ORIGIN}", o).replace("$LIB", l).replace("${LIB}", l)
            .replace("$PLATFORM", p).replace("${PLATFORM}", p))


def expanded(rpath, lib_base_dir):
    return expand(rpath, lib_base_dir)


def kept(rpath, lib_dir, wheel_base_dir):
    """expands to an absolute location inside the wheel"""
    return Path(expand(rpath, lib_dir)).is_absolute() and subdir(expand(rpath, lib_dir), wheel_base_dir)


def is_kept(rpath, lib_dir, wheel_base_dir):
    return kept(rpath, lib_dir, wheel_base_dir)


OPAQUE = {"expand": "str", "kept": "bool"}


def rewritten(lib_name, rpath, wheel_base_dir, patcher, effects):
    lib = lib_name if lib_name.is_absolute() else lib_name.absolute()
    base = wheel_base_dir if wheel_base_dir.is_absolute() else wheel_base_dir.absolute()
    return effects == [("set_rpath", patcher, lib, ":".join(entries(current_rpath(patcher, lib), rpath, lib.parent, base)))]


def entries(old, rpath, lib_dir, base):
    """the entries of the new RPATH: the previous in-wheel ones, then the new one, each once"""
    parts = old.split(":")
    before = [r for i, r in enumerate(parts) if kept(r, lib_dir, base) and all(parts[j] != r for j in range(i))]
    return before + [x for x in [rpath] if all(r != rpath for r in before)]


CONTRACTS = [
    dict(fn="auditwheel.tools:unique_by_index", props=["C10"], types={"sequence": "list[str]", "result": "list[str]"}, returns="first_occurrences"),
    dict(fn="auditwheel.repair:_resolve_rpath_tokens", props=["C10"], returns="expanded", reveal=["expand"]),
    dict(fn="auditwheel.repair:_is_valid_rpath", props=["C10"], returns="is_kept", reveal=["kept"]),
    dict(fn="auditwheel.repair:append_rpath_within_wheel", props=["C10"], opaque_self=["patcher"], use={"auditwheel.patcher:ElfPatcher.set_rpath": []}, hide=["auditwheel.tools:unique_by_index"], ensures={"rewritten": "rewritten"}, raises={"ValueError": None}),
]
