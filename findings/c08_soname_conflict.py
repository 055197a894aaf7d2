"""Known finding of C08: two extensions resolve the same SONAME to different external files.
Run:  /opt/venv/bin/python findings/c08_soname_conflict.py      (prints what is wrong; exits 1 while the defect is there)"""
import pathlib, sys, tempfile
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from rac import rep  # noqa: E402
from rac import world as W  # noqa: E402


def so(needed, **kw):
    return dict(arch="x86_64", needed=needed, **kw)


CASE = dict(
    w=dict(name="pkg", plat="linux_x86_64", arch="x86_64", libc="glibc", py="cp39-cp39", tags=["cp39-cp39-linux_x86_64"],
           files=[dict(path="pkg/a.so", elf=so(["libfoo.so.1", "libc.so.6"], rpath="{EXT}/d0", symbols=[["PyInit_a", "global", "func", True]]), mode=0o755),
                  dict(path="pkg/b.so", elf=so(["libfoo.so.1", "libc.so.6"], rpath="{EXT}/d1", symbols=[["PyInit_b", "global", "func", True]]), mode=0o755)],
           ext=[dict(path="d0/libfoo.so.1", elf=so(["libdep.so.1"], soname="libfoo.so.1", rpath="{EXT}/d0", payload="first")),
                dict(path="d0/libdep.so.1", elf=so([], soname="libdep.so.1", payload="dep")),
                dict(path="d1/libfoo.so.1", elf=so(["libdep.so.1"], soname="libfoo.so.1", rpath="{EXT}/d0", payload="second"))],
           env=[], cache=[]),
    plat="auto", only=False, sdir=".libs", update=True, exclude=[], disable=True)


def main():
    with tempfile.TemporaryDirectory() as tmp:
        import argparse, os
        from auditwheel import main_repair
        from rac.base import quiet
        whl, ld = W.build(CASE["w"], pathlib.Path(tmp))
        out = pathlib.Path(tmp) / "out"
        p = argparse.ArgumentParser(prog="auditwheel")
        main_repair.configure_parser(p.add_subparsers())
        args = p.parse_args(["repair", str(whl), "-w", str(out), "--ldpaths", ld, "--patcher", "patchelf"])
        args.PLAT = "auto"
        os.chdir(tmp)
        with quiet():
            args.func(args, p)
        files, _ = rep.unpack(next(out.glob("*.whl")), None)
    bad = 0
    for n, (b, _) in sorted(files.items()):
        if n.startswith("pkg.libs/"):
            i = rep.elf_info(b)
            print(n, i)
            if "libdep.so.1" in i["needed"]:
                print(f"DEFECT: {n} still names libdep.so.1, which is grafted under another name")
                bad = 1
    return bad


sys.exit(main())
