"""C09: grafted library copies are content-addressed and faithful."""
from __future__ import annotations
import hashlib
from pathlib import Path
from pyvc_spec import absorbed, existed, opened, stat_after, unread, whole


def file_hash(afile):
    """the SHA-256 of the whole file, in hexadecimal"""
    return hashlib.sha256(whole(afile)).hexdigest()


def positive(blocksize):
    return blocksize > 0


# loop invariants (templates) of hashfile: what was absorbed, then the block in hand, then the rest is the whole file
def inv_all(afile, h: Hash, block: bytes):
    return absorbed(absorbed(h, block), unread(afile)) == hashlib.sha256(whole(afile))


def inv_rest(afile, h: Hash):
    """the same for loops that hold no block between iterations"""
    return absorbed(h, unread(afile)) == hashlib.sha256(whole(afile))


def inv_end(afile, block: bytes):
    return len(block) > 0 or len(unread(afile)) == 0


def grafted_name(src_path):
    """the file name with '-' and the first eight digits of the hash inserted before the first dot (kept if it has them)"""
    short = file_hash(opened(src_path))[:8]
    base, ext = src_path.name.split(".", 1)
    return src_path.name if base.endswith("-" + short) else base + "-" + short + "." + ext


def named(src_path, dest_dir, result):
    return result == (grafted_name(src_path), dest_dir / grafted_name(src_path))


def copied_once(src_path, dest_dir, patcher, effects):
    """an existing copy is used as it is; otherwise one copy is made, made writable if need be, and its SONAME is set to its name"""
    dest = dest_dir / grafted_name(src_path)
    if existed(dest):
        return effects == []
    mode = stat_after(dest, 1).st_mode
    return effects == [("shutil_copy2", src_path, dest)] + ([] if mode & 0o200 else [("path_chmod", dest, mode | 0o200)]) + [("set_soname", patcher, dest, grafted_name(src_path))]


def no_dot(src_path):
    return "." not in src_path.name


CONTRACTS = [
    dict(fn="auditwheel.hashfile:hashfile", props=["C09"], requires=["positive"], returns="file_hash", loops=["inv_all", "inv_rest", "inv_end"]),
    dict(fn="auditwheel.repair:copylib", props=["C09"], opaque_self=["patcher"], use={"auditwheel.patcher:ElfPatcher.set_soname": []}, ensures={"named": "named", "copied-once": "copied_once"}, raises={"ValueError": "no_dot"}),
]
