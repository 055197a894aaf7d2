"""independent reading of ELF symbol tables, for specifications evaluated natively"""
import struct


def undefined_nonweak(path):
    from elftools.elf.elffile import ELFFile
    with open(path, "rb") as f:
        s = ELFFile(f).get_section_by_name(".dynsym")
        return set() if s is None else {x.name for x in s.iter_symbols() if x["st_shndx"] == "SHN_UNDEF" and x["st_info"]["bind"] != "STB_WEAK"}
