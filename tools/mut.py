"""deliberately broken bodies: every mutant must fail an obligation (or be undecided); used while building contracts.
usage: run(fns, file, [(old, new), ...])  -- fns: contracts to re-prove"""
import sys, shutil, pathlib, tempfile, concurrent.futures as cf
sys.path.insert(0, "/verif"); sys.setrecursionlimit(20000)
from pyvc import contracts as C, prove as P


def one(a):
    fns, file, old, new, root = a
    sys.setrecursionlimit(20000)
    cons, extra = C.load("/verif/contracts")
    d = pathlib.Path(tempfile.mkdtemp(prefix="mut"))
    try:
        shutil.copytree(root + "/src", d / "src")
        f = d / "src/auditwheel" / file
        t = f.read_text()
        if t.count(old) < 1:
            return f"NOTFOUND {old!r}"
        f.write_text(t.replace(old, new, 1))
        ok, out, secs = True, [], 0
        for fn in fns:
            r = P.prove_contract(cons[[k for k in cons if k.endswith(fn)][0]], cons, str(d), extra)
            ok &= bool(r.ok())
            secs += r.secs
            if not r.ok():
                out.append(r.unsupported or r.vacuous or [o["name"].split("#")[1] + ":" + o["status"] for o in r.obligations if o["status"] != "proved"])
        return f"{'MISSED ' if ok else 'ok     '} {old[:40]!r} -> {new[:50]!r} {out} {secs:.1f}s"
    finally:
        shutil.rmtree(d)


def run(fns, file, pairs, root="/repo"):
    if isinstance(fns, str):
        fns = [fns]
    with cf.ProcessPoolExecutor(8) as ex:
        for r in ex.map(one, [(fns, file, o, n, root) for o, n in pairs]):
            print(r, flush=True)
