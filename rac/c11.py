"""queued patches: random request sequences on the real patcher with a recording patch tool, against a simple queue model"""
import os, pathlib
from rac.base import SKIP
from rac import fake
RULE = "random sequences of patch requests, queries, file moves and apply calls on up to three files, patchelf and none variants, android and other platforms"
OPS = ["soname", "remove", "remove", "replace", "replace", "rpath", "clear", "get", "move", "apply"]
NAMES = ["liba.so", "libb.so.1", "libc.so.6", "a-1.so", "b-2.so"]
CASE_LIMIT = 60


def cases(rng, tier):
    while True:
        seq = []
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            op = rng.choice(OPS)
            f = rng.choice(["f0", "f1", "sub/f2"])
            if op == "soname":
                seq.append([op, f, rng.choice(NAMES)])
            elif op == "remove":
                seq.append([op, f, *[rng.choice(NAMES) for _ in range(rng.choice([1, 1, 2]))]])
            elif op == "replace":
                seq.append([op, f, *[[rng.choice(NAMES), rng.choice(NAMES)] for _ in range(rng.choice([1, 1, 2, 0]))]])
            elif op == "rpath":
                seq.append([op, f, rng.choice(["$ORIGIN", "$ORIGIN/../x:$ORIGIN", ""])])
            elif op == "move":
                seq.append([op, f, rng.choice(["g0", "sub/g1"])])
            else:
                seq.append([op, f])
        seq.append(["apply", ""])
        yield dict(seq=seq, plat=rng.choice(["manylinux_2_17_x86_64"] * 3 + ["", "android_23_x86_64", "android_24_aarch64", "android_21_aarch64"]), via=rng.choice(["rel", "abs", "link"]))


def verdict(removed, pairs):
    """must the requests coexist?  None: a removed name is only the new name of a renaming, which the property leaves open"""
    if any(n == old for n in removed for old, _ in pairs):
        return False
    return None if any(n == nw for n in removed for _, nw in pairs) else True


def check(case, tmp):
    from auditwheel.patcher import ElfPatcher
    from rac.elfgen import elf
    tmp = os.path.realpath(tmp)
    os.chdir(tmp)
    os.mkdir("sub")
    os.symlink("sub", "sublink")
    old_rpath = {"f0": "$ORIGIN/old", "f1": None, "sub/f2": "/x"}
    for f, rp in old_rpath.items():
        pathlib.Path(f).write_bytes(elf(rpath=rp, needed=["liba.so"]))
    name = {"rel": lambda f: pathlib.Path(f), "abs": lambda f: pathlib.Path(tmp) / f, "link": lambda f: pathlib.Path(f.replace("sub/", "sublink/"))}[case["via"]]
    where = {f: f for f in old_rpath}        # original -> current path
    q, done = {}, 0
    new = lambda: dict(soname=None, remove=[], replace=[], rpath=None, clear=False)
    with fake.fake_patchelf(tmp) as calls:
        try:
            p = ElfPatcher.get_patcher("patchelf", case["plat"])
        except TypeError:
            return SKIP
        for op, f, *a in case["seq"]:
            cur = where.get(f)
            ok, exc, got = True, None, None
            if op == "remove":
                ok = verdict(a, q.get(cur, new())["replace"])
            elif op == "replace":
                ok = verdict(q.get(cur, new())["remove"], a)
            elif op == "rpath" and case["plat"].startswith("android_2"):
                ok = int(case["plat"].split("_")[1]) >= 24
            try:
                if op == "soname":
                    p.set_soname(name(cur), a[0])
                elif op == "remove":
                    p.remove_needed(name(cur), *a)
                elif op == "replace":
                    p.replace_needed(name(cur), *[tuple(x) for x in a])
                elif op == "rpath":
                    p.set_rpath(name(cur), a[0])
                elif op == "clear":
                    p.clear_rpath(name(cur))
                elif op == "get":
                    got = p.get_rpath(name(cur))
                elif op == "move":
                    if os.path.exists(a[0]):
                        continue
                    os.rename(cur, a[0])
                    pathlib.Path(cur).write_text("shim")
                    p.update_elf_path(name(cur), name(a[0]))
                    os.unlink(cur)
                elif op == "apply":
                    p.apply_updates()
            except ValueError as e:
                exc = e
            if ok is not None and ok != (exc is None):
                return f"{op} {f} {a}: " + (f"rejected with {exc}" if exc else "accepted") + f" after {case['seq']}"
            if exc is not None:
                continue
            if op in ("soname", "remove", "replace", "rpath", "clear"):
                u = q.setdefault(cur, new())
                if op == "soname":
                    u["soname"] = a[0]
                elif op in ("remove",):
                    u["remove"] += a
                elif op == "replace":
                    u["replace"] += [tuple(x) for x in a]
                elif op == "rpath":
                    u["rpath"] = a[0]
                else:
                    u["clear"] = True
            elif op == "get":
                u = q.get(cur, new())
                want = u["rpath"] if u["rpath"] is not None else "" if u["clear"] else (old_rpath[f] or "")
                if got != want:
                    return f"get_rpath({f}) is {got!r}, expected {want!r}"
            elif op == "move":
                where[f] = a[0]
                if cur in q:
                    q[a[0]] = q.pop(cur)
            elif op == "apply":
                log = calls()[done:]
                done += len(log)
                seen = {}
                for c in log:
                    c = fake.parse(c)
                    if c["other"]:
                        return f"patch tool called with {c['other']}"
                    if c["file"] in seen:
                        return f"patch tool called twice for {c['file']}"
                    seen[c["file"]] = c
                want = {}
                for k, u in q.items():
                    if any((u["soname"] is not None, u["remove"], u["replace"], u["rpath"] is not None, u["clear"])):
                        want[os.path.join(tmp, k)] = u
                if set(seen) != set(want):
                    return f"patch tool called for {sorted(seen)}, requests pending for {sorted(want)}"
                for k, u in want.items():
                    c = seen[k]
                    exp = ([u["soname"]] if u["soname"] is not None else [], u["remove"], u["replace"], [u["rpath"]] if u["rpath"] is not None else [], int(u["clear"] and u["rpath"] is None))
                    g = (c["soname"], c["remove"], c["replace"], c["rpath"], c["clear"])
                    if exp != g:
                        return f"{k}: patch tool called with {g}, requested {exp}"
                    if c["force"] != (1 if u["rpath"] is not None and not case["plat"].startswith("android") else 0):
                        return f"{k}: --force-rpath passed {c['force']} times"
                q = {}
    return None
