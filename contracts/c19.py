"""C19: ELF evidence extraction."""
from __future__ import annotations
from elftools.elf.elffile import ELFFile
from elftools.elf.dynamic import DynamicSection
from elftools.elf.gnuversions import GNUVerNeedSection
from elftools.elf.sections import SymbolTableSection
from pyvc_spec import is_elf


# ---------------------------------------------------------------- specification vocabulary (the tables as pyelftools presents them)
def dynsym(elf):
    """symbols of the dynamic symbol table"""
    s = elf.get_section_by_name(".dynsym")
    return [] if s is None else list(s.iter_symbols())


def undefined_symbol(s):
    return s["st_shndx"] == "SHN_UNDEF"


def loader(name):
    return name.startswith("ld-linux") or name == "ld64.so.2" or name == "ld64.so.1"


# ---------------------------------------------------------------- postconditions
def versioned(elf):
    s = elf.get_section_by_name(".gnu.version_r")
    return [(need.name, aux.name) for need, auxes in ([] if s is None else list(s.iter_versions())) if not loader(need.name) for aux in auxes]


def ucs2(elf):
    return [s.name for s in dynsym(elf) if "PyUnicodeUCS2_" in s.name and undefined_symbol(s) and s["st_info"]["type"] == "STT_FUNC"]


def pyfpe(elf):
    return any((s.name == "PyFPE_jbuf" or s.name == "PyFPE_dummy" or s.name == "PyFPE_counter") and undefined_symbol(s)
               and (s["st_info"]["type"] == "STT_FUNC" or s["st_info"]["type"] == "STT_NOTYPE") for s in dynsym(elf))


def undefined_of(path):
    e = elf_of(path)
    return {s.name for s in dynsym(e) if undefined_symbol(s) and s["st_info"]["bind"] != "STB_WEAK"}


def elf_of(path):
    return ELFFile(path.open("rb"))


def modname(fn):
    return fn.name.split(".", 1)[0]


def init_symbol(fn, s):
    return (s.name == "init" + modname(fn) or s.name == "PyInit_" + modname(fn) or s.name == "_cffi_pypyinit_" + modname(fn)) and (
        not undefined_symbol(s)) and s["st_info"]["type"] == "STT_FUNC"


def is_extension(fn, elf, result):
    return result[0] == any(init_symbol(fn, s) for s in dynsym(elf))


def version_of_init(fn, elf, result):
    """the reported Python major version belongs to a defined init symbol"""
    return implies(result[0], any(init_symbol(fn, s) and result[1] == (3 if s.name == "PyInit_" + modname(fn) else 2) for s in dynsym(elf))) and (
        implies(not result[0], result[1] is None))


def dt_needed(fn):
    """values of the DT_NEEDED entries, in order"""
    s = elf_of(fn).get_section_by_name(".dynamic")
    return [] if s is None else [t.needed for t in s.iter_tags() if t.entry.d_tag == "DT_NEEDED"]


def elf_files(paths):
    return [(p, elf_of(p)) for p in paths if not p.name.endswith(".py") and is_elf(p.open("rb"))]


CONTRACTS = [
    dict(fn="auditwheel.elfutils:elf_file_filter", props=["C19"], returns="elf_files"),
    dict(fn="auditwheel.elfutils:elf_read_dt_needed", props=["C19", "C08"], returns="dt_needed", raises={"ELFError": None, "ValueError": None}),
    dict(fn="auditwheel.elfutils:elf_find_versioned_symbols", props=["C19"], returns="versioned"),
    dict(fn="auditwheel.elfutils:elf_find_ucs2_symbols", props=["C19"], returns="ucs2"),
    dict(fn="auditwheel.elfutils:elf_references_pyfpe_jbuf", props=["C19"], returns="pyfpe"),
    dict(fn="auditwheel.elfutils:elf_is_python_extension", props=["C19"], ensures={"is-extension": "is_extension", "version": "version_of_init"}),
]
