"""Run-time contract checking on the real code (bounded, never counted as proved).

Every rac module c<NN>.py offers
    cases(rng, tier)  -> iterator of JSON-serialisable cases
    check(case, tmp)  -> None (contract held), SKIP (precondition not met) or a string describing the violation
    nontrivial(case)  -> bool                                             (optional)
    RULE              -> how cases are made
It runs under the interpreter that has auditwheel installed, importing the code from REPO/src.
"""
from __future__ import annotations
import builtins, contextlib, copy, importlib, importlib.util, io, json, os, pathlib, random, signal, sys, tempfile, time, traceback

SKIP = object()
VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))

builtins.implies = lambda a, b: (not a) or bool(b)
builtins.iff = lambda a, b: bool(a) == bool(b)


def setup_path():
    src = str(REPO / "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)
    import auditwheel
    got = pathlib.Path(auditwheel.__file__).resolve()
    if not str(got).startswith(str(REPO.resolve())):
        raise RuntimeError(f"auditwheel imported from {got}, not from {REPO}")


def _spec_module():
    """native meaning of the specification-only predicates"""
    import types
    m = types.ModuleType("pyvc_spec")

    def is_elf(path):
        with (path if hasattr(path, "read") else open(path, "rb")) as f:
            return f.read(4) == b"\x7fELF"
    m.is_elf = is_elf
    m.dedupe = lambda xs: list(dict.fromkeys(xs))
    m.initial_cwd = m.stat_after = m.existed = m.opened = m.whole = m.absorbed = m.unread = m.extracted_to = None  # prover only
    sys.modules["pyvc_spec"] = m


_spec_module()
_cons = {}


def contracts(stem):
    """the contract module contracts/<stem>.py, loaded natively"""
    if stem not in _cons:
        spec = importlib.util.spec_from_file_location("contracts." + stem, VERIF / "contracts" / f"{stem}.py")
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _cons[stem] = m
    return _cons[stem]


def call_spec(m, fn, env):
    f = getattr(m, fn)
    names = f.__code__.co_varnames[:f.__code__.co_argcount]
    return f(*[env[n] for n in names])


def contract_of(stem, qual):
    m = contracts(stem)
    for c in m.CONTRACTS:
        if c["fn"] == qual:
            return m, c
    raise KeyError(qual)


def run_contract(stem, qual, fn, env, skip_ensures=()):
    """call fn(**env) (self included in env when needed by the spec) under its contract.
    fn is a thunk.  returns None / SKIP / violation text"""
    m, c = contract_of(stem, qual)
    for r in c.get("requires", []):
        if not call_spec(m, r, env):
            return SKIP
    old = {"old_" + k: _copy(v) for k, v in env.items()}
    raised, result = None, None
    try:
        result = fn()
    except Exception as e:  # noqa: BLE001
        raised = e
    e2 = {**env, **old, "result": result, "raised": type(raised).__name__ if raised else None}
    raises = c.get("raises", {})
    if raised is not None:
        names = [t.__name__ for t in type(raised).__mro__]
        hit = next((n for n in names if n in raises), None)
        if hit is None:
            return f"{qual}: unexpected {type(raised).__name__}: {raised}"
        cond = raises[hit]
        if cond is not None and not call_spec(m, cond, e2):
            return f"{qual}: raised {type(raised).__name__} although its condition {cond} is false"
        return None
    for exc, cond in raises.items():
        if cond is not None and exc not in c.get("may", ()) and call_spec(m, cond, e2):
            return f"{qual}: did not raise {exc} although {cond} holds; result {result!r}"
    for n, e in c.get("ensures", {}).items():
        if n in skip_ensures:
            continue
        try:
            ok = call_spec(m, e, e2)
        except Exception as ex:  # noqa: BLE001
            return f"{qual}#{n}: postcondition not evaluable on result {result!r}: {type(ex).__name__}: {ex}"
        if not ok:
            return f"{qual}#{n} fails: result {result!r}"
    if c.get("returns"):
        want = call_spec(m, c["returns"], {**env, **old})
        if want != result:
            return f"{qual}#returns fails: result {result!r}, contract value {want!r}"
    return None


def _copy(v):
    try:
        return copy.deepcopy(v)
    except Exception:  # noqa: BLE001
        return v


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def alarm(secs):
    def h(*_):
        raise Timeout
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(io.StringIO()) as err:
        yield out, err


@contextlib.contextmanager
def patched(obj, **kw):
    """temporarily replace attributes"""
    miss = object()
    old = {k: getattr(obj, k, miss) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            if v is miss:
                delattr(obj, k)
            else:
                setattr(obj, k, v)


def subset(rng, xs, p=0.5):
    return [x for x in xs if rng.random() < p]


def one_case(mod, case, limit):
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="rac-") as tmp:
        try:
            with alarm(limit):
                return mod.check(case, pathlib.Path(tmp))
        except Timeout:
            return f"did not terminate within {limit} s"
        finally:
            os.chdir(cwd)


def judged(mod, case, limit):
    """one case; an assertion of the code under test that fails is a violation"""
    try:
        return one_case(mod, case, limit)
    except AssertionError as e:
        f = traceback.extract_tb(e.__traceback__)[-1]
        if pathlib.Path(f.filename).is_relative_to(REPO / "src"):
            return f"internal assertion of {f.name} failed: {f.line}"
        raise


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=10.0)
    ap.add_argument("--out", required=True)
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.environ["PATH"] = "/opt/venv/bin:" + os.environ.get("PATH", "")
    os.environ.pop("SOURCE_DATE_EPOCH", None)
    sys.setrecursionlimit(10000)
    import logging
    logging.disable(logging.CRITICAL)
    res = dict(evaluations=0, skipped=0, distinct_nontrivial=0, rule="", samples=[], violation=None, error=None, secs=0)
    t0 = time.time()
    out = pathlib.Path(a.out)
    try:
        setup_path()
        mod = importlib.import_module(f"rac.{a.prop.lower()}")
        res["rule"] = getattr(mod, "RULE", "")
        limit = getattr(mod, "CASE_LIMIT", 30)
        rng = random.Random(f"{a.prop}:{a.seed}")
        seen = set()
        if a.replay:
            it = iter([json.loads(pathlib.Path(a.replay).read_text())["case"]])
        else:
            it = mod.cases(rng, a.tier)
        known = {json.dumps(k["case"], sort_keys=True) for k in json.loads((VERIF / "known_findings.json").read_text()).get("findings", [])
                 if k["property"] == a.prop} if (VERIF / "known_findings.json").exists() and not a.replay else set()
        res["known_hit"] = 0
        for case in it:
            if time.time() - t0 > a.budget and not a.replay:
                break
            try:
                v = judged(mod, case, limit)
            except Exception:  # noqa: BLE001
                # the case could not be judged; go on with others
                res["error"] = traceback.format_exc()
                res["unjudged"] = res.get("unjudged", 0) + 1
                if res["unjudged"] > 20:
                    break
                continue
            if v is SKIP:
                res["skipped"] += 1
                continue
            res["evaluations"] += 1
            key = json.dumps(case, sort_keys=True)
            if key not in seen:
                seen.add(key)
                if getattr(mod, "nontrivial", lambda c: True)(case):
                    res["distinct_nontrivial"] += 1
            if len(res["samples"]) < 2 or (res["evaluations"] in (50, 500)):
                res["samples"].append(case if len(key) < 1500 else key[:1500])
            if v is not None:
                if judged(mod, case, limit) is None:      # must reproduce
                    continue
                if key in known:
                    res["known_hit"] += 1
                    continue
                res["violation"] = dict(case=case, what=str(v))
                break
    except Exception:  # noqa: BLE001
        res["error"] = traceback.format_exc()
    res["secs"] = round(time.time() - t0, 2)
    out.write_text(json.dumps(res))


if __name__ == "__main__":
    sys.path.insert(0, str(VERIF))
    sys.modules["rac.base"] = sys.modules["__main__"]
    main()
