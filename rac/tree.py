"""random directory trees"""
import os, pathlib
NAMES = ["a.py", "b", "RECORD", "ünï.txt", "c,d.txt", 'q"x', "z z", "A", ".hidden", "e\u00e9", "x.so", "RECORD.jws", "WHEEL", "METADATA", "B.dist-info", "aa.dist-info-x", "file.dist-info"]
DIRS = ["pkg", "pkg/sub", "pkg/sub/RECORD.d", "zz", "Z", "a.data/scripts", "pkg.libs", "pkg/inner.dist-info", "pkg/inner.dist-info/s", "pkg-x", "empty", "pkg/empty2", "zzz.dist-infos"]
DI = "pkg-1.0.dist-info"


def rand_tree(rng, n_di=1):
    t = {}
    dirs = [d for d in DIRS if rng.random() < 0.4]
    for d in [""] + dirs:
        for n in NAMES:
            if rng.random() < 0.2 and not (d == "" and n.endswith(".dist-info")):
                t[os.path.join(d, n)] = [rng.choice(["", "x", "hello\n", "\u00fc" * 10, "d" * rng.choice([10, 70000])]), rng.choice([0o644, 0o755, 0o600, 0o664, 0o775, 0o711])]
    di = [DI, "other-2.dist-info", "a-0.dist-info"][:n_di]
    for d in di:
        for n in ("METADATA", "WHEEL", "RECORD", "sboms/x.json", "licenses/RECORD", "top_level.txt", "ZZ", "RECORD.jws"):
            if n in ("METADATA", "WHEEL") or rng.random() < 0.5:
                t[f"{d}/{n}"] = [f"{n} content\n", 0o644]
    if rng.random() < 0.2:
        t.pop(f"{DI}/METADATA", None)
    return dict(files=t, dirs=[d for d in dirs if rng.random() < 0.9])


def write(tree, root):
    root = pathlib.Path(root)
    root.mkdir(parents=True, exist_ok=True)
    for d in tree["dirs"]:
        (root / d).mkdir(parents=True, exist_ok=True)
    for f, (c, m) in tree["files"].items():
        p = root / f
        p.parent.mkdir(parents=True, exist_ok=True)
        if p.is_dir():
            continue
        p.write_bytes(c.encode())
        p.chmod(m)


def listing(root):
    fs, ds = {}, set()
    for d, dn, fn in os.walk(root):
        rel = os.path.relpath(d, root)
        for x in dn:
            ds.add(os.path.normpath(os.path.join(rel, x)))
        for x in fn:
            p = os.path.join(d, x)
            fs[os.path.normpath(os.path.join(rel, x))] = (open(p, "rb").read(), os.stat(p).st_mode & 0o777)
    return fs, ds
