"""C24: ELF executables in scripts become working shims."""
from __future__ import annotations
from pathlib import Path
from pyvc_spec import stat_after


def is_script(path):
    """directly in the scripts directory of a data directory at the top of the wheel"""
    c = path.parts
    return len(c) == 3 and c[0].endswith(".data") and c[1] == "scripts"


def shim_text(binary_path):
    """the launcher (its behaviour is run under the run-time contracts)"""
    return "?"


OPAQUE = {"shim_text": "str"}


def shim(binary_path):
    return shim_text(binary_path)


def target(package_name, orig_path):
    return Path(package_name + ".scripts") / orig_path.name


def moved_to(package_name, orig_path, result):
    return result == target(package_name, orig_path)


def moved_and_replaced(package_name, orig_path, effects):
    new = target(package_name, orig_path)
    return (len(effects) == 5 and effects[0] == ("path_mkdir", Path(package_name + ".scripts"), True) and effects[1] == ("path_rename", orig_path, new)
            and effects[2] == ("open_write", orig_path) and effects[3] == ("write_file", orig_path, shim_text(new)))


def mode_kept(package_name, orig_path, effects):
    return effects[4] == ("path_chmod", orig_path, stat_after(target(package_name, orig_path), 4).st_mode)


CONTRACTS = [
    dict(fn="auditwheel.repair:_path_is_script", props=["C24"], returns="is_script"),
    dict(fn="auditwheel.repair:_script_shim", props=[], returns="shim", assumed="the text of the launcher: run under the run-time contracts of C24"),
    dict(fn="auditwheel.repair:_replace_elf_script_with_shim", props=["C24"],
         ensures={"moved-to": "moved_to", "moved-and-replaced": "moved_and_replaced", "mode-kept": "mode_kept"}),
]
