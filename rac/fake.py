"""use of the recording stand-in for patchelf"""
import contextlib, os, pathlib
HERE = pathlib.Path(__file__).resolve().parent / "fakebin"


@contextlib.contextmanager
def fake_patchelf(tmp, fail=False):
    log = pathlib.Path(tmp) / "patchelf.log"
    old = {k: os.environ.get(k) for k in ("PATH", "FAKE_PATCHELF_LOG", "FAKE_PATCHELF_FAIL")}
    os.environ["PATH"] = f"{HERE}:{old['PATH']}"
    os.environ["FAKE_PATCHELF_LOG"] = str(log)
    if fail:
        os.environ["FAKE_PATCHELF_FAIL"] = "1"

    def calls():
        if not log.exists():
            return []
        toks, out, i = [os.fsdecode(x) for x in log.read_bytes().split(b"\0")[:-1]], [], 0
        while i < len(toks):
            n = int(toks[i])
            out.append(toks[i + 1:i + 1 + n])
            i += 1 + n
        return out
    try:
        yield calls
    finally:
        for k, v in old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def parse(args):
    """one recorded invocation -> dict(file, soname, remove, replace, rpath, clear, force, other)"""
    r = dict(soname=[], remove=[], replace=[], rpath=[], clear=0, force=0, other=[])
    it = list(args[:-1])
    i = 0
    while i < len(it):
        a = it[i]
        if a == "--set-soname":
            r["soname"].append(it[i + 1]); i += 2
        elif a == "--remove-needed":
            r["remove"].append(it[i + 1]); i += 2
        elif a == "--replace-needed":
            r["replace"].append((it[i + 1], it[i + 2])); i += 3
        elif a == "--set-rpath":
            r["rpath"].append(it[i + 1]); i += 2
        elif a == "--remove-rpath":
            r["clear"] += 1; i += 1
        elif a == "--force-rpath":
            r["force"] += 1; i += 1
        else:
            r["other"].append(a); i += 1
    r["file"] = args[-1]
    return r
