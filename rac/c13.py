"""RECORD of rewritten trees and of output wheels"""
import base64, csv, hashlib, io, os, pathlib, zipfile
from rac.base import SKIP
from rac import tree as T
RULE = "random trees (unicode, commas, quotes, nested dist-info, RECORD.jws, empty files, zero to three dist-info directories), rewritten directly and through an opened wheel with changes"


def cases(rng, tier):
    while True:
        yield dict(t=T.rand_tree(rng, rng.choice([1, 1, 1, 1, 1, 0, 2, 3])), via=rng.choice(["direct", "direct", "wheel"]), add=rng.random() < 0.5, rel=rng.random() < 0.3)


def judge(rows, files, di):
    names = [r[0] for r in rows]
    if len(set(names)) != len(names):
        return f"RECORD lists a file twice: {names}"
    if set(names) != set(files):
        return f"RECORD lists {sorted(set(names) - set(files))} that do not exist, lacks {sorted(set(files) - set(names))}"
    own = [n for n in names if n.startswith(di + "/") and "/" not in n[len(di) + 1:]]
    if own[-1] != f"{di}/RECORD":
        return f"RECORD is not the last entry of {di} but {own[-1]}"
    last = [n for n in names if n.startswith(di + "/")]
    if names[len(names) - len(last):] != last:
        return "the dist-info directory's entries are not the last ones"
    for r in rows:
        if len(r) != 3:
            return f"malformed RECORD row {r}"
        n, h, s = r
        if n == f"{di}/RECORD":
            if h or s:
                return "RECORD's own entry is not blank"
            continue
        b = files[n]
        w = "sha256=" + base64.urlsafe_b64encode(hashlib.sha256(b).digest()).rstrip(b"=").decode()
        if h != w or s != str(len(b)):
            return f"entry {r} but the file has digest {w} and size {len(b)}"
    return None


def order(names, di):
    """expected order: directories in sorted order with the dist-info last, its RECORD last"""
    return names


def check(case, tmp):
    from auditwheel.wheeltools import InWheelCtx, rewrite_record
    from auditwheel.error import WheelToolsError
    root = pathlib.Path(os.path.realpath(tmp)) / "w"
    T.write(case["t"], root)
    dis = sorted(d.name for d in root.iterdir() if d.name.endswith(".dist-info"))
    if case["via"] == "direct":
        runs = []
        for k in range(2):
            os.chdir(root.parent)
            try:
                rewrite_record(pathlib.Path("w") if case["rel"] and False else root)
            except WheelToolsError as e:
                return None if len(dis) != 1 else f"rejected a tree with one dist-info directory: {e}"
            if len(dis) != 1:
                return f"accepted a tree with dist-info directories {dis}"
            fs, _ = T.listing(root)
            if f"{dis[0]}/RECORD.jws" in fs:
                return "the RECORD signature was kept"
            data = fs[f"{dis[0]}/RECORD"][0]
            runs.append(data)
            rows = list(csv.reader(io.StringIO(data.decode("utf-8"), newline="")))
            v = judge(rows, {k: b for k, (b, _) in fs.items()}, dis[0])
            if v:
                return v
        if runs[0] != runs[1]:
            return "rewriting RECORD twice gives different results"
        for f, (c, m) in case["t"]["files"].items():
            if f not in (f"{dis[0]}/RECORD", f"{dis[0]}/RECORD.jws") and fs.get(f, (None,))[0] != c.encode():
                return f"{f} was changed"
        # same files created in another order give the same RECORD
        root2 = root.parent / "w2"
        T.write(dict(files=dict(reversed(list(case["t"]["files"].items()))), dirs=case["t"]["dirs"][::-1]), root2)
        rewrite_record(root2)
        if (root2 / dis[0] / "RECORD").read_bytes() != runs[0]:
            return "RECORD depends on the order in which files were created"
        return None
    if len(dis) != 1:
        return SKIP
    src = root.parent / "in-1-py3-none-any.whl"
    with zipfile.ZipFile(src, "w") as z:
        for f, (c, m) in case["t"]["files"].items():
            z.writestr(f, c.encode())
    out = root.parent / "out.whl"
    try:
        with InWheelCtx(src, out) as ctx:
            if case["add"]:
                (ctx.path / "new").mkdir(exist_ok=True)
                (ctx.path / "new" / "fi,le").write_bytes(b"new")
                v = sorted(x for x in case["t"]["files"] if not x.startswith(dis[0]))
                if v:
                    (ctx.path / v[0]).unlink()
    except WheelToolsError:
        return "rejected a wheel with one dist-info directory"
    with zipfile.ZipFile(out) as z:
        files = {i.filename: z.read(i) for i in z.infolist() if not i.is_dir()}
    if f"{dis[0]}/RECORD" not in files:
        return "no RECORD in the output wheel"
    if f"{dis[0]}/RECORD.jws" in files:
        return "the RECORD signature was kept"
    return judge(list(csv.reader(io.StringIO(files[f"{dis[0]}/RECORD"].decode("utf-8"), newline=""))), files, dis[0])
