import os, sys, time
if os.environ.get("PYTHONHASHSEED") is None:
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
from pyvc import contracts as C, prove as P
root = "/repo"
args = sys.argv[1:]
if args and args[0].startswith("--root="):
    root = args.pop(0)[7:]
cons, extra = C.load("/verif/contracts")
for fn, con in cons.items():
    if con.assumed or (args and not any(a in fn or a in con.props for a in args)):
        continue
    print("==", fn, flush=True)
    r = P.prove_contract(con, cons, root, extra, verbose=True)
    print("  ", "OK" if r.ok() else "FAIL", r.unsupported or "", r.vacuous or "", f"paths={r.paths} {r.secs:.1f}s", "inlined", sorted(r.inlined), "called", sorted(r.called))
