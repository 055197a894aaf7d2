"""working directory, scratch directory, output and input files after successes and failures of every kind"""
import gc, os, pathlib, tempfile, zipfile
from rac.base import SKIP, quiet
from rac import rep, fake, c12
RULE = "opened wheels whose body succeeds, raises or deletes files; unreadable inputs, invalid timestamps, missing dist-info; full repairs that fail at the analysis, at the lookup, in the patch tool or while packing"
BODY = ["ok", "ValueError", "KeyboardInterrupt", "SystemExit", "nodistinfo", "chdir", "badts", "lateTS", "badzip", "nooutdir"]


def cases(rng, tier):
    for c in ("InWheel", "InWheelCtx", "InTemporaryDirectory", "InGivenDirectory"):
        for b in BODY:
            for o in (True, False):
                for late in (False, True):
                    yield dict(kind="ctx", cls=c, body=b, out=o, nested=rng.random() < 0.3, late=late)
    while True:
        c = rep.rand_case(rng, libpython=0.05, script=0.1, missing=rng.choice([0.0, 0.6]), pure=0.1, knobs=dict(hard=rng.choice([0.0, 0.4]), black=0.05, noversion=0.7))
        yield dict(kind="repair", c=c, fail=rng.choice(["none", "none", "tool", "ts", "late"]), samedir=rng.random() < 0.3)


class Scratch:
    """all temporary directories made inside go below our own directory"""

    def __init__(self, tmp):
        self.d = pathlib.Path(tmp) / "scratch"
        self.d.mkdir()

    def __enter__(self):
        self.old = tempfile.tempdir
        tempfile.tempdir = str(self.d)
        return self

    def __exit__(self, *a):
        tempfile.tempdir = self.old

    def left(self):
        gc.collect()
        return sorted(os.listdir(self.d))


def check(case, tmp):
    tmp = pathlib.Path(os.path.realpath(tmp))
    os.environ.pop("SOURCE_DATE_EPOCH", None)
    try:
        return repair(case, tmp) if case["kind"] == "repair" else ctx(case, tmp)
    finally:
        os.environ.pop("SOURCE_DATE_EPOCH", None)


def ctx(case, tmp):
    import warnings
    warnings.simplefilter("ignore")
    from auditwheel import wheeltools, tmpdirs
    cls = getattr(wheeltools, case["cls"], None) or getattr(tmpdirs, case["cls"])
    wheel = case["cls"].startswith("InWheel")
    b = case["body"]
    src, _ = c12.make(dict(name="pkg-1.0", py="cp39-cp39", fplats=["linux_x86_64"], purelib="false", extra=[], tags=["cp39-cp39-linux_x86_64"]), tmp)
    if b == "badzip":
        src.write_bytes(b"not a zip")
    before = src.read_bytes()
    (tmp / "cwd").mkdir()
    os.chdir(tmp / "cwd")
    out = tmp / ("missing/dir/o.whl" if b == "nooutdir" else "o.whl")
    args = [src, out] if wheel and case["out"] else [src] if wheel else [tmp / "given"] if case["cls"] == "InGivenDirectory" else []
    scratch = Scratch(tmp)
    failed = None
    inside = None
    with scratch:
        try:
            c = cls(*args)
            if case.get("late"):
                # created in one working directory, entered in another
                (tmp / "other").mkdir()
                os.chdir(tmp / "other")
            with c:
                inside = os.getcwd()
                if b == "ValueError":
                    raise ValueError("body")
                if b == "KeyboardInterrupt":
                    raise KeyboardInterrupt
                if b == "SystemExit":
                    raise SystemExit(2)
                if b == "nodistinfo" and wheel:
                    import shutil
                    for d in list(pathlib.Path.cwd().glob("*.dist-info")):
                        shutil.rmtree(d)
                if b == "chdir":
                    os.chdir(tmp)
                if b == "badts":
                    os.environ["SOURCE_DATE_EPOCH"] = "xyz"
                if b == "lateTS":
                    os.environ["SOURCE_DATE_EPOCH"] = "4400000000"
        except BaseException as e:  # noqa: BLE001
            failed = type(e).__name__
            e.__traceback__ = None
            del e
        c = None
        left = scratch.left()
    if os.getcwd() != str(tmp / ("other" if case.get("late") and (tmp / "other").is_dir() else "cwd")):
        return f"{case['cls']}/{b}: the working directory afterwards is {os.getcwd()} ({failed})"
    if left:
        return f"{case['cls']}/{b}: scratch directories left behind: {left} ({failed})"
    if b in ("ValueError", "KeyboardInterrupt", "SystemExit") and failed != b:
        return f"{case['cls']}/{b}: the error did not come through ({failed})"
    if inside is not None and case["cls"] != "InGivenDirectory" and not inside.startswith(str(tmp / "scratch")):
        return f"{case['cls']}: worked in {inside}"
    if wheel:
        if failed and out.exists():
            return f"{case['cls']}/{b}: an output wheel was written although the work failed with {failed}"
        if not failed and case["out"] and not out.exists():
            return f"{case['cls']}/{b}: no output wheel was written"
        if not failed and case["out"]:
            with zipfile.ZipFile(out) as z:
                if z.testzip() or "pkg/x.py" not in z.namelist():
                    return "output wheel damaged"
        if src.read_bytes() != before:
            return f"{case['cls']}/{b}: the input wheel changed"
    return None


def repair(case, tmp):
    import warnings
    warnings.simplefilter("ignore")
    scratch = Scratch(tmp)
    if case["fail"] == "ts":
        os.environ["SOURCE_DATE_EPOCH"] = "bad"
    if case["fail"] == "late":
        os.environ["SOURCE_DATE_EPOCH"] = "4400000000"
    with scratch:
        cm = fake.fake_patchelf(tmp, fail=True) if case["fail"] == "tool" else fake.fake_patchelf(tmp)
        with cm:
            r = rep.run(case["c"], tmp)
        if r is SKIP:
            return SKIP
        failed = type(r.error).__name__ if r.error is not None else f"exit {r.rc}" if r.rc else None
        if r.error is not None:
            r.error.__traceback__ = None
            r.error = None
        left = scratch.left()
    if os.getcwd() != r.cwd:
        return f"the working directory after the repair is {os.getcwd()} ({failed})"
    if left:
        return f"scratch directories left behind: {left} ({failed})"
    if r.whl.read_bytes() != r.in_before:
        return f"the repair changed its input wheel ({failed})"
    if failed and r.wheels:
        return f"the repair failed with {failed} but wrote {[w.name for w in r.wheels]}"
    return None
