"""packing and unpacking"""
import datetime, os, pathlib, time, zipfile
from rac.base import SKIP
from rac import tree as T
RULE = "random trees packed, unpacked and packed again with random timestamps (before 1980 too), compression levels and file times; archives with odd member attributes"


def cases(rng, tier):
    while True:
        r = rng.random()
        if r < 0.7:
            yield dict(kind="rt", t=T.rand_tree(rng, rng.choice([1, 1, 1, 2, 0])), ts=rng.choice([0, 1, 315532799, 315532800, 315532801, 1000000000, 1700000001, 4354819198, None]), lvl=rng.choice([-1, 0, 1, 9]), mt=rng.choice([0, 1, 10**9]))
        else:
            yield dict(kind="attr", members=[[n, rng.choice([0, 0o644, 0o755, 0o444, 0o555, 0o000, 0o200, 0o4755, 0o600, 0o777]), rng.random() < 0.2] for n in rng.sample(["a", "d/b", "d/e/c", "x y", "\u00fc"], 4)])


def expected_order(names, di_tops):
    """directory-wise: a directory's files first (RECORD of a top-level dist-info last), then its subdirectories sorted, top-level dist-info last"""
    tree = {}
    for n in names:
        tree.setdefault(os.path.dirname(n.rstrip("/")), []).append(n)
    out = []

    def rec(d, top):
        if d:
            out.append(d + "/")
        fs = sorted(os.path.basename(n) for n in tree.get(d, []) if not n.endswith("/"))
        if top is False and os.path.dirname(d) == "" and d.endswith(".dist-info") and "RECORD" in fs:
            fs.remove("RECORD")
            fs.append("RECORD")
        out.extend(os.path.join(d, f) for f in fs)
        ds = sorted(os.path.basename(n.rstrip("/")) for n in tree.get(d, []) if n.endswith("/"))
        if d == "":
            ds = [x for x in ds if not x.endswith(".dist-info")] + [x for x in ds if x.endswith(".dist-info")]
        for x in ds:
            rec(os.path.join(d, x), False)
    rec("", True)
    return out


def check(case, tmp):
    from auditwheel.tools import dir2zip, zip2dir
    tmp = pathlib.Path(os.path.realpath(tmp))
    if case["kind"] == "attr":
        z = tmp / "a.zip"
        with zipfile.ZipFile(z, "w") as f:
            for n, m, isdir in case["members"]:
                i = zipfile.ZipInfo(n + ("/" if isdir else ""), (2020, 1, 1, 0, 0, 0))
                i.external_attr = m << 16 | (0x10 if isdir else 0)
                f.writestr(i, b"" if isdir else n.encode())
        out = tmp / "o"
        out.mkdir()
        os.umask(0o022)
        zip2dir(z, out)
        for n, m, isdir in case["members"]:
            p = out / n
            if isdir:
                if not p.is_dir() or p.stat().st_mode & 0o777 != 0o755:
                    return f"directory member {n} unpacked as {oct(p.stat().st_mode) if p.exists() else None}"
                continue
            if p.read_bytes() != n.encode():
                return f"member {n} has wrong content"
            want = (m & 0o777) | 0o600 if m else None
            got = p.stat().st_mode & 0o777
            if (want is not None and got != want) or got & 0o600 != 0o600:
                return f"member {n} with mode {m:o} unpacked with mode {got:o}"
        return None
    src = tmp / "src"
    T.write(case["t"], src)
    for d, dn, fn in os.walk(src):
        for x in fn:
            os.utime(os.path.join(d, x), (case["mt"], case["mt"]))
    fs, ds = T.listing(src)
    dt = None if case["ts"] is None else datetime.datetime.fromtimestamp(case["ts"], tz=datetime.timezone.utc)
    if dt is None:
        os.utime(src, (1600000000, 1600000000))
        exp = (2020, 9, 13, 12, 26, 40)
    else:
        exp = max(dt.timetuple()[:6], (1980, 1, 1, 0, 0, 0))
    exp = (*exp[:5], exp[5] // 2 * 2)
    a = tmp / "a.whl"
    dir2zip(src, a, case["lvl"], dt)
    with zipfile.ZipFile(a) as z:
        infos = z.infolist()
        names = [i.filename for i in infos]
        for i in infos:
            if i.date_time != tuple(exp):
                return f"entry {i.filename} carries timestamp {i.date_time}, expected {exp}"
            if not i.is_dir():
                if z.read(i) != fs[i.filename][0]:
                    return f"entry {i.filename} has different content"
                if (i.external_attr >> 16) & 0o777 != fs[i.filename][1]:
                    return f"entry {i.filename} has mode {(i.external_attr >> 16) & 0o777:o}, file has {fs[i.filename][1]:o}"
    want = set(fs) | {d + "/" for d in ds}
    if len(set(names)) != len(names) or set(names) != want:
        return f"archive entries differ from the tree: {set(names) ^ want}"
    eo = expected_order(want, None)
    if names != eo:
        return f"entries are ordered {names}, expected {eo}"
    b = tmp / "b.whl"
    for d, dn, fn in os.walk(src):
        for x in fn + dn:
            os.utime(os.path.join(d, x), (1234567890, 1234567890))
    if dt is None:
        os.utime(src, (1600000000, 1600000000))
    dir2zip(src, b, case["lvl"], dt)
    if a.read_bytes() != b.read_bytes():
        return "packing the same tree twice with the same timestamp gives different archives"
    src2 = tmp / "other" / "place"
    T.write(dict(files=dict(reversed(list(case["t"]["files"].items()))), dirs=case["t"]["dirs"][::-1]), src2)
    if dt is not None:
        dir2zip(src2, b, case["lvl"], dt)
        if a.read_bytes() != b.read_bytes():
            return "packing an equal tree made in another order gives a different archive"
    back = tmp / "back"
    back.mkdir()
    zip2dir(a, back)
    f2, d2 = T.listing(back)
    if {k: (v, m | 0o600) for k, (v, m) in fs.items()} != f2 or d2 != ds:
        return "unpacking does not restore the tree: " + str({k: (oct(f2[k][1]) if k in f2 else None) for k in set(fs) | set(f2) if fs.get(k) != f2.get(k)} or d2 ^ ds)
    c = tmp / "c.whl"
    if dt is not None:
        dir2zip(back, c, case["lvl"], dt)
        if a.read_bytes() != c.read_bytes():
            return "packing the unpacked tree again gives a different archive"
    return None
