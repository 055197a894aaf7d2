"""C14: packing is lossless and reproducible."""
from __future__ import annotations
import zipfile
from datetime import datetime, timezone
from pathlib import Path
from contracts.c13 import tree
from pyvc_spec import extracted_to, stat_after


class ZipInfo:
    """entry of an archive to be written: the mode comes from the file it is made from"""
    source: Path
    filename: str
    date_time: tuple[int, int, int, int, int, int]
    compress_type: int

    def __init__(self, source, filename):
        self.source = source
        self.filename = filename
        self.date_time = None
        self.compress_type = 0


def stamp(root, date_time):
    """the given time stamp, or that of the directory, never before 1980"""
    if date_time is None:
        date_time = datetime.fromtimestamp(stat_after(root, 0).st_mtime, tz=timezone.utc)
    t = date_time.timetuple()[:6]
    return (1980, 1, 1, 0, 0, 0) if t < (1980, 1, 1, 0, 0, 0) else t


def directory_entry(zip_fname, root, d, t):
    return ("zip_write", zip_fname, d, f"{d.relative_to(root)}/", t, 0, b"", None)


def file_entry(zip_fname, root, path, t, level):
    return ("zip_write", zip_fname, path, path.relative_to(root), t, zipfile.ZIP_DEFLATED, path.read_bytes(), level)


def packed(in_dir, zip_fname, zip_compression_level, date_time, effects):
    """one entry for every directory below the root and for every file, in the order of walk, with the file's content and one time stamp"""
    root = in_dir.resolve(strict=True)
    t = stamp(root, date_time)
    return effects == [("zip_create", zip_fname)] + [e for d, dirs, files in tree(root)
                                                     for e in ([directory_entry(zip_fname, root, d, t)] if d != root else [])
                                                     + [file_entry(zip_fname, root, d / f, t, zip_compression_level) for f in files]]


def mode(member):
    return 0o755 if member.is_dir() else ((member.external_attr >> 16) & 511) | (6 << 6)


def unpacked(zip_fname, out_dir, effects):
    """every member is extracted, and gets its permission bits (owner read/write granted)"""
    with zipfile.ZipFile(zip_fname, "r") as z:
        return effects == [e for name in z.namelist() for e in [("zip_extract", z, z.getinfo(name), out_dir)]
                           + ([("path_chmod", extracted_to(z, z.getinfo(name), out_dir), mode(z.getinfo(name)))]
                              if z.getinfo(name).is_dir() or z.getinfo(name).external_attr >> 16 != 0 else [])]


CONTRACTS = [
    dict(fn="auditwheel.tools:dir2zip", props=["C14"], effect="dir2zip", ensures={"packed": "packed"}, raises={"*": None}),
    dict(fn="auditwheel.tools:zip2dir", props=["C14"], effect="zip2dir", ensures={"unpacked": "unpacked"}, raises={"*": None}),
]
