"""C12: retagging updates the file name and the metadata consistently."""
from __future__ import annotations
from pathlib import Path
from contracts.c13 import the_one
from contracts.c10 import first_occurrences
from contracts.c16 import platforms as platforms_of


class Message:
    """the header list of an email.message.Message (names spelled canonically)"""
    headers: list[tuple[str, str]]

    def __init__(self, headers):
        self.headers = [(n, v) for n, v in headers]

    def items(self):
        return [(n, v) for n, v in self.headers]

    def __delitem__(self, name):
        self.headers = [(n, v) for n, v in self.headers if n != name]

    def __setitem__(self, name, value):
        self.headers = self.headers + [(name, value)]

    def add_header(self, name, value):
        self.headers.append((name, value))


def headers_in(path):
    return [("", "")]


def info_dir(root):
    return the_one(root)


OPAQUE = {"headers_in": "list[tuple[str, str]]"}


def parsed(path):
    return Message(headers_in(path))


def interpreter(tag):
    """the Python version and ABI part of a tag"""
    return "-".join(tag.split("-")[:2])


def source(ctx):
    return ctx.in_wheel if ctx.out_wheel is None else ctx.out_wheel


def directory(ctx):
    return Path.cwd() if ctx.out_wheel is None else ctx.out_wheel.parent


def wanted(ctx, platforms, removed):
    """previous platforms minus the removed ones plus the added ones"""
    before = platforms_of(source(ctx).name)
    return [t for t in before if t not in removed] + platforms


def drops_any(ctx, platforms, removed):
    m = wanted(ctx, platforms, removed)
    return "any" in m and any(t != "any" for t in m)


def new_name(old_wheel_ctx, platforms, remove_platforms, result):
    name = source(old_wheel_ctx).name
    if drops_any(old_wheel_ctx, platforms, remove_platforms):
        tags = sorted({t for t in wanted(old_wheel_ctx, platforms, remove_platforms) if t != "any"})
    else:
        tags = sorted(set(wanted(old_wheel_ctx, platforms, remove_platforms)))
    return result == directory(old_wheel_ctx) / (name.rsplit("-", maxsplit=1)[0] + "-" + ".".join(tags) + Path(name).suffix)


def recorded(wheel_ctx, result):
    return wheel_ctx.out_wheel == result


def wheel_file(ctx):
    return info_dir(ctx.path) / "WHEEL"


def unwanted_tags(ctx, platforms, removed):
    before = headers_in(wheel_file(ctx))
    old = [v for n, v in before if n == "Tag"]
    combinations = first_occurrences([interpreter(t) for t in old])
    if drops_any(ctx, platforms, removed):
        return [c + "-" + p for c in combinations for p in removed + ["any"]]
    return [c + "-" + p for c in combinations for p in removed]


def added_tags(ctx, platforms):
    before = headers_in(wheel_file(ctx))
    old = [v for n, v in before if n == "Tag"]
    combinations = first_occurrences([interpreter(t) for t in old])
    return [c + "-" + p for c in combinations for p in platforms if c + "-" + p not in old]


def written_once(old_wheel_ctx, effects):
    """nothing but the WHEEL file is written, once at most"""
    return all(e[0] == "write_pkg_info" and e[1] == wheel_file(old_wheel_ctx) for e in effects) and len(effects) <= 1


def unchanged(old_wheel_ctx, platforms, remove_platforms, effects):
    """nothing is written exactly if there is no tag to remove or to add"""
    old = [v for n, v in headers_in(wheel_file(old_wheel_ctx)) if n == "Tag"]
    unwanted = unwanted_tags(old_wheel_ctx, platforms, remove_platforms)
    return (len(effects) == 0) == (len(added_tags(old_wheel_ctx, platforms)) == 0 and not any(t in unwanted for t in old))


def tags(old_wheel_ctx, platforms, remove_platforms, effects):
    """every tag whose platform is not removed stays, then each added platform comes for every combination that lacks it"""
    old = [v for n, v in headers_in(wheel_file(old_wheel_ctx)) if n == "Tag"]
    unwanted = unwanted_tags(old_wheel_ctx, platforms, remove_platforms)
    after = [t for t in old if t not in unwanted] + added_tags(old_wheel_ctx, platforms)
    return all([v for n, v in e[2].headers if n == "Tag"] == after for e in effects)


def others(old_wheel_ctx, platforms, remove_platforms, effects):
    """the other headers are untouched, except that a wheel that was 'any' and no longer is becomes a platform wheel"""
    before = headers_in(wheel_file(old_wheel_ctx))
    if drops_any(old_wheel_ctx, platforms, remove_platforms):
        return all([(n, v) for n, v in e[2].headers if n != "Tag"]
                   == [(n, v) for n, v in before if n != "Tag" and n != "Root-Is-Purelib"] + [("Root-Is-Purelib", "False")] for e in effects)
    return all([(n, v) for n, v in e[2].headers if n != "Tag"] == [(n, v) for n, v in before if n != "Tag"] for e in effects)


def entered(wheel_ctx):
    return wheel_ctx.path is not None


def not_entered(wheel_ctx):
    return wheel_ctx.path is None


CTX = {"InWheelCtx.path": "Path | None", "InWheelCtx.out_wheel": "Path | None", "InWheelCtx.in_wheel": "Path"}

CONTRACTS = [
    dict(fn="auditwheel._vendor.wheel.pkginfo:read_pkg_info", props=[], returns="parsed", assumed="email parser: the headers of the file in order"),
    dict(fn="auditwheel._vendor.wheel.pkginfo:write_pkg_info", props=[], effect="write_pkg_info", assumed="email generator: writes the headers in order"),
    dict(fn="auditwheel.wheeltools:add_platforms", props=["C12"], types={"remove_platforms": "list[str]"}, self_fields=CTX,
         modifies={"wheel_ctx": None}, ensures={"name": "new_name", "recorded": "recorded", "written-once": "written_once", "unchanged": "unchanged", "tags": "tags", "others": "others"},
         lazy=True, raises={"ValueError": "not_entered", "WheelToolsError": None, "InvalidWheelFilename": None}),
]
