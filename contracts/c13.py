"""C13: RECORD lists every file of the wheel with its digest and size."""
from __future__ import annotations
import hashlib
import os
from base64 import urlsafe_b64encode
from pathlib import Path
from pyvc_spec import existed


def tree(topdir):
    """the directories below a directory, with the names of their subdirectories and files, in packing order: what walk yields"""
    return [(Path(topdir), ["?"], ["?"])]


def walked(topdir):
    return tree(topdir)


OPAQUE = {"tree": "list[tuple[Path, list[str], list[str]]]"}


def listing(topdir):
    """what os.walk presents: every directory with the names of its subdirectories and of its files, in any order"""
    return [(Path(d), dirs, files) for d, dirs, files in os.walk(topdir.resolve(strict=True))]


def same_tree(topdir, result):
    """the directories os.walk presents, in its order"""
    return [d for d, dirs, files in result] == [d for d, dirs, files in listing(topdir)]


def record_last(topdir, result):
    """files in sorted order, but RECORD of the top-level dist-info directory comes last"""
    root = topdir.resolve(strict=True)
    return [files for d, dirs, files in result] == [
        ([f for f in sorted(files) if f != "RECORD"] + ["RECORD"]) if d.name.endswith(".dist-info") and d.parent == root and "RECORD" in files else sorted(files)
        for d, dirs, files in listing(topdir)]


def dist_info_last(topdir, result):
    """directories are visited in sorted order, dist-info directories at the top last"""
    root = topdir.resolve(strict=True)
    return [dirs for d, dirs, files in result] == [
        ([x for x in sorted(dirs) if not x.endswith(".dist-info")] + [x for x in sorted(dirs) if x.endswith(".dist-info")]) if d == root else sorted(dirs)
        for d, dirs, files in listing(topdir)]


def candidates(root):
    return list(root.glob("*.dist-info"))


def the_one(bdist_dir):
    return candidates(bdist_dir)[0]


def not_one(bdist_dir):
    return len(candidates(bdist_dir)) != 1


def digest(path):
    return "sha256=" + urlsafe_b64encode(hashlib.sha256(path.read_bytes()).digest()).rstrip(b"=").decode("ascii")


def row(root, record, path):
    """name, digest and size of a file; RECORD itself has neither digest nor size"""
    rel = path.relative_to(root)
    itself = rel == record.relative_to(root)
    return ("writerow", record, (rel.as_posix(), "" if itself else digest(path), "" if itself else str(len(path.read_bytes()))))


def rows(bdist_dir):
    record = the_one(bdist_dir) / "RECORD"
    return [row(bdist_dir, record, d / f) for d, dirs, files in tree(bdist_dir) for f in files]


def record_written(bdist_dir, effects):
    """the signature is removed, then RECORD is written afresh: one row for each file of the tree"""
    record = the_one(bdist_dir) / "RECORD"
    unsigned = [("path_unlink", the_one(bdist_dir) / "RECORD.jws")] if existed(the_one(bdist_dir) / "RECORD.jws") else []
    return effects == unsigned + [("open_write", record)] + rows(bdist_dir)


CONTRACTS = [
    dict(fn="auditwheel.tools:walk", props=["C13", "C14"], names="walked", ensures={"same-tree": "same_tree", "record-last": "record_last", "dist-info-last": "dist_info_last"}),
    dict(fn="auditwheel.wheeltools:_dist_info_dir", props=["C13"], returns="the_one", raises={"WheelToolsError": "not_one"}),
    dict(fn="auditwheel.wheeltools:rewrite_record", props=["C13"], effect="rewrite_record", ensures={"record-written": "record_written"}, raises={"*": None}),
]
