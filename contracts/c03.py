"""C03: deny-listed symbols."""
from __future__ import annotations
from contracts.c19 import undefined_of
from pyvc_spec import is_elf


def undefined_names(path):
    """undefined non-weak dynamic symbol names of an ELF file (what get_undefined_symbols extracts, C19)"""
    return undefined_of(path)


OPAQUE = {"undefined_names": "set[str]"}


def undefined(path):
    return undefined_names(path)


def hits(path, symbols):
    """library -> sorted deny-listed names it is hit on, libraries without a hit left out"""
    return {lib: sorted(hit_set(path, symbols[lib])) for lib in symbols if any(True for s in hit_set(path, symbols[lib]))}


def hit_set(path, names):
    return {n for n in names if n == "*" or n in undefined_names(path)}


def not_elf(path):
    return not is_elf(path.open("rb"))


def some(symbols):
    return any(True for k in symbols)


def hits_or_none(path, symbols):
    return {lib: sorted(hit_set(path, symbols[lib])) for lib in symbols if any(True for s in hit_set(path, symbols[lib]))}


CONTRACTS = [
    dict(fn="auditwheel.elfutils:get_undefined_symbols", props=["C03", "C19"], returns="undefined", raises={"ELFError": "not_elf"}, reveal=["undefined_names"]),
    dict(fn="auditwheel.elfutils:filter_undefined_symbols", props=["C03"], returns="hits", raises={"ELFError": "not_elf"}, may=["ELFError"]),
]
