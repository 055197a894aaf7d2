"""C18: the working directory is restored, the scratch directory removed, and failed work leaves no output."""
from __future__ import annotations
from pyvc_spec import initial_cwd


def entered(self, effects, result):
    """goes to the scratch directory and remembers where it came from"""
    return self._pwd == initial_cwd() and effects == [("chdir", self._name)] and result == self._name


def left(self, effects):
    return effects == [("chdir", self._pwd), ("remove_temporary_directory", self._tmpdir)]


def given_entered(self, effects, result):
    """goes to the given directory, creating it if need be, and remembers where it came from"""
    return self._pwd == initial_cwd() and effects[len(effects) - 1] == ("chdir", self.name) and len(effects) <= 2 and result == self.name


def given_left(self, effects):
    return effects == [("chdir", self._pwd)]


def last_two(self, effects):
    """whatever happened before, the last actions restore the working directory and remove the scratch directory"""
    n = len(effects)
    return n >= 2 and effects[n - 2] == ("chdir", self._pwd) and effects[n - 1] == ("remove_temporary_directory", self._tmpdir)


def failed_leaves_nothing(self, effects):
    return not any(e[0] == "path_replace" for e in effects)


def written_only_on_success(self, exc, effects):
    """at most one file appears outside the scratch directory, the output asked for, and only if the work went well"""
    return all(exc is None and self.out_wheel is not None and e[2] == self.out_wheel for e in effects if e[0] == "path_replace")


def written(self, exc, effects):
    return (exc is not None or self.out_wheel is None) or any(e[0] == "path_replace" and e[2] == self.out_wheel for e in effects)


TMP = {"InTemporaryDirectory._tmpdir": "TemporaryDirectory", "InTemporaryDirectory._name": "Path", "InTemporaryDirectory._pwd": "Path"}
WHEEL = {**TMP, "InWheel.in_wheel": "Path", "InWheel.out_wheel": "Path | None", "InWheel.zip_compression_level": "int"}
GIVEN = {"InGivenDirectory.name": "Path", "InGivenDirectory._pwd": "Path"}

CONTRACTS = [
    dict(fn="auditwheel.tmpdirs:InTemporaryDirectory.__enter__", props=["C18"], self_fields=TMP, ensures={"entered": "entered"}),
    dict(fn="auditwheel.tmpdirs:InTemporaryDirectory.__exit__", props=["C18"], self_fields=TMP, ensures={"always-left": "left"}, inline=True),
    dict(fn="auditwheel.tmpdirs:InGivenDirectory.__enter__", props=["C18"], self_fields=GIVEN, ensures={"entered": "given_entered"}),
    dict(fn="auditwheel.tmpdirs:InGivenDirectory.__exit__", props=["C18"], self_fields=GIVEN, ensures={"always-left": "given_left"}),
    dict(fn="auditwheel.wheeltools:InWheel.__exit__", props=["C18"], self_fields=WHEEL,
         ensures={"always-back": "last_two", "always-written-only-on-success": "written_only_on_success", "written": "written", "exc-failed-leaves-nothing": "failed_leaves_nothing"},
         raises={"*": None}),
]
