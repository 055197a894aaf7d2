"""C11: queued ELF patches are applied faithfully."""
from __future__ import annotations

P = "auditwheel.patcher:"


# ---------------------------------------------------------------- the queue
def resolved(file_name):
    return file_name.resolve(strict=True)


def others_kept(self, old_self, file_name):
    """the requests for other files stay as they are"""
    return (all(k == resolved(file_name) or (k in self._updates and self._updates[k] == old_self._updates[k]) for k in old_self._updates)
            and all(k == resolved(file_name) or k in old_self._updates for k in self._updates))


def pending(self, file_name):
    return resolved(file_name) in self._updates


def rpath_set(self, file_name, rpath):
    return pending(self, file_name) and self._updates[resolved(file_name)].rpath == rpath


def rpath_only(self, old_self, file_name):
    """the rest of the request for the file stays as it is"""
    k = resolved(file_name)
    u = self._updates[k]
    if k in old_self._updates:
        o = old_self._updates[k]
        return u.soname == o.soname and u.remove_needed == o.remove_needed and u.replace_needed == o.replace_needed and u.clear_rpath == o.clear_rpath
    return u.soname is None and u.remove_needed == [] and u.replace_needed == [] and not u.clear_rpath


def soname_set(self, file_name, new_so_name):
    return pending(self, file_name) and self._updates[resolved(file_name)].soname == new_so_name


def soname_only(self, old_self, file_name):
    k = resolved(file_name)
    u = self._updates[k]
    if k in old_self._updates:
        o = old_self._updates[k]
        return u.rpath == o.rpath and u.remove_needed == o.remove_needed and u.replace_needed == o.replace_needed and u.clear_rpath == o.clear_rpath
    return u.rpath is None and u.remove_needed == [] and u.replace_needed == [] and not u.clear_rpath


def cleared(self, file_name):
    return pending(self, file_name) and self._updates[resolved(file_name)].clear_rpath


def cleared_only(self, old_self, file_name):
    k = resolved(file_name)
    u = self._updates[k]
    if k in old_self._updates:
        o = old_self._updates[k]
        return u.rpath == o.rpath and u.remove_needed == o.remove_needed and u.replace_needed == o.replace_needed and u.soname == o.soname
    return u.rpath is None and u.remove_needed == [] and u.replace_needed == [] and u.soname is None


def names_not_empty(self):
    """no request names the empty string"""
    return all(r != "" for k in self._updates for r in self._updates[k].remove_needed) and all(o != "" and n != "" for k in self._updates for o, n in self._updates[k].replace_needed)


def sonames_not_empty(sonames):
    return all(r != "" for r in sonames)


def renaming_conflict(old_self, file_name, old_new_pairs):
    """one of the names is to be removed"""
    k = resolved(file_name)
    return k in old_self._updates and any(r == o or r == n for r in old_self._updates[k].remove_needed for o, n in old_new_pairs)


def removal_conflict(old_self, file_name, sonames):
    k = resolved(file_name)
    return k in old_self._updates and any(r == o or r == n for r in sonames for o, n in old_self._updates[k].replace_needed)


def renamed(self, old_self, file_name, old_new_pairs):
    k = resolved(file_name)
    before = old_self._updates[k].replace_needed if k in old_self._updates else []
    return k in self._updates and self._updates[k].replace_needed == [p for p in before] + [p for p in old_new_pairs]


def renamed_only(self, old_self, file_name):
    k = resolved(file_name)
    u = self._updates[k]
    if k in old_self._updates:
        o = old_self._updates[k]
        return u.rpath == o.rpath and u.remove_needed == o.remove_needed and u.clear_rpath == o.clear_rpath and u.soname == o.soname
    return u.rpath is None and u.remove_needed == [] and not u.clear_rpath and u.soname is None


def removed(self, old_self, file_name, sonames):
    k = resolved(file_name)
    before = old_self._updates[k].remove_needed if k in old_self._updates else []
    return k in self._updates and self._updates[k].remove_needed == [p for p in before] + [p for p in sonames]


def removed_only(self, old_self, file_name):
    k = resolved(file_name)
    u = self._updates[k]
    if k in old_self._updates:
        o = old_self._updates[k]
        return u.rpath == o.rpath and u.replace_needed == o.replace_needed and u.clear_rpath == o.clear_rpath and u.soname == o.soname
    return u.rpath is None and u.replace_needed == [] and not u.clear_rpath and u.soname is None


def recorded(self, file_name):
    """the RPATH the patch tool reports"""
    return "?"


def api_level(tag):
    return 0


OPAQUE = {"recorded": "str", "current_rpath": "str", "api_level": "int"}


def recorded_rpath(self, file_name):
    return recorded(self, file_name)


def level(tag):
    return api_level(tag)


def too_old(self):
    return self.platform.startswith("android") and api_level(self.platform) < 24


def current_rpath(self, file_name):
    """the pending request, or what the file has"""
    if pending(self, file_name):
        u = self._updates[resolved(file_name)]
        if u.rpath is not None:
            return u.rpath
        if u.clear_rpath:
            return ""
    return recorded(self, file_name)


def rpath_now(self, file_name):
    return current_rpath(self, file_name)


def followed(self, old_self, old_file_name, new_file_name):
    """the request moves to the new name"""
    o, n = resolved(old_file_name), resolved(new_file_name)
    if o in old_self._updates:
        return n in self._updates and self._updates[n] == old_self._updates[o] and (o == n or o not in self._updates)
    return True


def unrelated_kept(self, old_self, old_file_name, new_file_name):
    o, n = resolved(old_file_name), resolved(new_file_name)
    return (all(k == o or k == n or (k in self._updates and self._updates[k] == old_self._updates[k]) for k in old_self._updates)
            and all(k == o or k == n or k in old_self._updates for k in self._updates))


def untouched(self, old_self, old_file_name):
    return resolved(old_file_name) in old_self._updates or all(k in old_self._updates for k in self._updates)


# ---------------------------------------------------------------- applying
def commands(self, old_self):
    """one run of the tool per file with something to do, in the order the files were first mentioned"""
    return [("check_call", [old_self._patchelf_path] + arguments(self.platform, old_self._updates[f]) + [f])
            for f in old_self._updates if something(old_self._updates[f])]


def something(u):
    return u.soname is not None or any(True for x in u.remove_needed) or any(True for x in u.replace_needed) or u.clear_rpath or u.rpath is not None


def arguments(platform, u):
    force = [] if platform.startswith("android") else ["--force-rpath"]
    return (([] if u.soname is None else ["--set-soname", u.soname])
            + [a for s in u.remove_needed for a in ("--remove-needed", s)]
            + [a for o, n in u.replace_needed for a in ("--replace-needed", o, n)]
            + (["--remove-rpath"] if u.clear_rpath and u.rpath is None else [])
            + ([] if u.rpath is None else force + ["--set-rpath", u.rpath]))


def applied(self, old_self, effects):
    return effects == commands(self, old_self)


def nothing_to_do(old_self):
    return all(not something(old_self._updates[f]) for f in old_self._updates)


def something_to_do(old_self):
    return any(something(old_self._updates[f]) for f in old_self._updates)


def no_commands(effects):
    return effects == []


def queue_empty(self):
    return all(False for k in self._updates)


CONTRACTS = [
    dict(fn="auditwheel.wheeltools:android_api_level", props=[], returns="level", raises={"ValueError": None}, assumed="the number in the platform tag"),
    dict(fn=P + "ElfPatcher.get_rpath_direct", props=[], returns="recorded_rpath", assumed="the patch tool reports the RPATH of the file"),
    dict(fn=P + "ElfPatcher.set_rpath", props=["C11"], effect="set_rpath", ensures={"rpath-set": "rpath_set", "rpath-only": "rpath_only", "others-kept": "others_kept"},
         raises={"ValueError": None}),
    dict(fn=P + "ElfPatcher.set_soname", props=["C11"], effect="set_soname", ensures={"soname-set": "soname_set", "soname-only": "soname_only", "others-kept": "others_kept"}),
    dict(fn=P + "ElfPatcher.clear_rpath", props=["C11"], ensures={"cleared": "cleared", "cleared-only": "cleared_only", "others-kept": "others_kept"}),
    dict(fn=P + "ElfPatcher.get_rpath", props=["C11"], returns="rpath_now", opaque_self=True, reveal=["current_rpath"]),
    dict(fn=P + "ElfPatcher.update_elf_path", props=["C11", "C24"], ensures={"followed": "followed", "unrelated-kept": "unrelated_kept", "untouched": "untouched"}),
    dict(fn=P + "ElfPatcher.replace_needed", props=["C11"], ensures={"renamed": "renamed", "renamed-only": "renamed_only", "others-kept": "others_kept"},
         raises={"ValueError": "renaming_conflict"}, hypotheses=["names_not_empty"]),
    dict(fn=P + "ElfPatcher.remove_needed", props=["C11"], ensures={"removed": "removed", "removed-only": "removed_only", "others-kept": "others_kept"},
         raises={"ValueError": "removal_conflict"}, hypotheses=["names_not_empty", "sonames_not_empty"]),
    dict(fn=P + "_NonePatcher.apply_updates", props=["C11"], ensures={"nothing-to-do": "nothing_to_do", "queue-empty": "queue_empty", "always-no-commands": "no_commands"},
         raises={"NotImplementedError": "something_to_do"}),
    dict(fn=P + "_Patchelf.apply_updates", props=["C11"], join=1000, self_fields={"_Patchelf._patchelf_path": "str"}, ensures={"applied": "applied", "queue-empty": "queue_empty"}, raises={"CalledProcessError": None}),
]
