"""Check one property:  python3-vt check.py C01
1. run-time contract checking of the real code (search for a failing input; bounded, never counted as proved)
2. deductive verification: obligations generated from /repo's current source for every contract serving the property
Exit 0: held on everything explored / proved.  Exit 1 + VIOLATION line otherwise."""
import concurrent.futures as cf
import hashlib, json, multiprocessing as mp, os, pathlib, re, subprocess, sys, time, traceback

if os.environ.get("PYTHONHASHSEED") != "0":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))
VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.setrecursionlimit(20000)
REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
PY = "/opt/venv/bin/python"


def prove_one(fn):
    """worker: prove one contract (own process)"""
    import resource
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    from pyvc import contracts as C, prove as P
    cons, extra = C.load(VERIF / "contracts")
    r = P.prove_contract(cons[fn], cons, str(REPO), extra)
    d = r.as_dict()
    d["ok"] = bool(r.ok())
    st = getattr(r, "stats", None)
    d["solver_secs"] = round(st.time, 2) if st else 0
    d["backends"] = dict(st.by_backend) if st else {}
    d["queries"] = (st.quick + st.full) if st else 0
    return d


def worker(fn, conn):
    try:
        conn.send(prove_one(fn))
    except BaseException as e:  # noqa: BLE001
        conn.send(dict(fn=fn, ok=False, obligations=[], unsupported=f"worker: {type(e).__name__}: {e}", vacuous=None, inlined=[], called=[],
                       paths=0, secs=0, solver_secs=0, backends={}, queries=0, src=None))


def prove_all(fns, timeout, jobs=8, stop=lambda: False):
    ctx = mp.get_context("fork")
    res, pending, running = {}, list(fns), {}
    while pending or running:
        while pending and len(running) < jobs:
            fn = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(fn, b), daemon=True)
            p.start()
            b.close()
            running[fn] = (p, a, time.time())
        stopped = stop()
        for fn, (p, a, t) in list(running.items()):
            got = None
            if a.poll(0.02):
                try:
                    got = a.recv()
                except EOFError:
                    got = dict(fn=fn, ok=False, obligations=[], unsupported="prover process died", vacuous=None, inlined=[], called=[], paths=0,
                               secs=time.time() - t, solver_secs=0, backends={}, queries=0, src=None)
            elif stopped or time.time() - t > timeout:
                p.kill()
                why = "stopped: a failing input was found" if stopped else f"prover time limit {timeout} s"
                got = dict(fn=fn, ok=False, obligations=[], unsupported=why, vacuous=None, inlined=[], called=[],
                           paths=0, secs=time.time() - t, solver_secs=0, backends={}, queries=0, src=None)
            if got is not None:
                res[fn] = got
                p.join(1)
                p.kill()
                del running[fn]
        time.sleep(0.01)
    return res


def found_failing(racs):
    """a shard of the run-time contract checking has ended with a failing input"""
    for p, out in racs:
        if p.poll() is not None and out.exists():
            try:
                if json.loads(out.read_text()).get("violation"):
                    return True
            except ValueError:
                pass
    return False


def start_rac(prop, tier, seed, budget, out):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 1000), VERIF_REPO=str(REPO), LC_ALL="C.UTF-8")
    for k in ("SOURCE_DATE_EPOCH", "AUDITWHEEL_PLAT", "LD_LIBRARY_PATH", "PYTHONPATH"):
        env.pop(k, None)
    return subprocess.Popen([PY, str(VERIF / "rac" / "base.py"), prop, "--tier", tier, "--seed", str(seed), "--budget", str(budget), "--out", str(out)],
                            cwd=str(VERIF), env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)


def finish_rac(p, out, timeout):
    err = b""
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        p.communicate()
        return dict(evaluations=0, skipped=0, distinct_nontrivial=0, rule="", samples=[], violation=None, error=f"time limit {timeout} s", secs=timeout)
    if out.exists():
        return json.loads(out.read_text())
    return dict(evaluations=0, skipped=0, distinct_nontrivial=0, rule="", samples=[], violation=None,
                error=f"exit {p.returncode}: {err.decode(errors='replace')[-2000:]}", secs=0)


def merge_rac(rs):
    """several shards (different seeds and hash seeds) as one result"""
    r = dict(rs[0])
    r["evaluations"] = sum(x["evaluations"] for x in rs)
    r["skipped"] = sum(x["skipped"] for x in rs)
    r["distinct_nontrivial"] = max(x["distinct_nontrivial"] for x in rs)
    r["rule"] = next((x["rule"] for x in rs if x["rule"]), "")
    r["violation"] = next((x["violation"] for x in rs if x["violation"]), None)
    r["error"] = next((x["error"] for x in rs if x["error"]), None)
    r["secs"] = max(x["secs"] for x in rs)
    r["shards"] = len(rs)
    return r


def load_baseline():
    f = VERIF / "baseline.json"
    return json.loads(f.read_text()) if f.exists() else {}


def lost(proofs, base):
    """obligations that were discharged on the committed baseline source, and that the prover, having read a different source, neither
    discharged nor refuted.  (A change outside the supported subset - nothing generated - is reported as undecided, not as an alarm.)"""
    res = []
    for p in proofs.values():
        b = base.get(p["fn"])
        if not b or p["unsupported"] or p["vacuous"] or p["src"] is None or p["src"] == b["src"]:
            continue
        for o in p["obligations"]:
            if o["status"] == "unknown" and o["name"].split("@")[0] in b["proved"]:
                res.append((p["fn"], dict(o, detail="discharged on the baseline source, not discharged on the changed source: " + o["detail"])))
    return res


def scan_assumptions():
    """mechanical scan: external models (trusted) and assumed contracts"""
    from pyvc import models
    return sorted(models.EXTERN)


def doc_of(con, name):
    m = sys.modules.get(con.mod)
    return (getattr(getattr(m, name, None), "__doc__", None) or "").strip()


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    meta = json.loads((VERIF / "checks.json").read_text())[prop]
    work = VERIF / "evidence"
    work.mkdir(exist_ok=True)
    budget = meta.get("rac_budget", 15) * (12 if tier == "thorough" else 1)
    shards = (8 if tier == "thorough" else meta.get("rac_shards", 4)) if (VERIF / "rac" / f"{prop.lower()}.py").exists() else 0
    racs = []
    for k in range(shards):
        out = work / f".rac-{prop}-{os.getpid()}-{k}.json"
        racs.append((start_rac(prop, tier, seed + 7919 * k, budget, out), out))
    from pyvc import contracts as C
    cons, extra = C.load(VERIF / "contracts")
    fns = [fn for fn, c in cons.items() if prop in c.props and not c.assumed]
    checked = [0.0, None, False]

    def stop():
        # give the prover a fair share of time once a failing input is known, not all of it
        if checked[1] is None and time.time() - checked[0] > 2:
            checked[0] = time.time()
            if found_failing(racs):
                checked[1] = time.time()
        return checked[1] is not None and time.time() - checked[1] > 20

    proofs = prove_all(fns, 780 if tier == "thorough" else 560, stop=stop)
    rs = [finish_rac(p, out, budget + meta.get("rac_slack", 120)) for p, out in racs]
    for _, out in racs:
        out.unlink(missing_ok=True)
    r = merge_rac(rs) if rs else None

    obligations = sum(len(p["obligations"]) for p in proofs.values())
    discharged = sum(o["status"] == "proved" for p in proofs.values() for o in p["obligations"])
    failed = [(p["fn"], o) for p in proofs.values() for o in p["obligations"] if o["status"] == "refuted"]
    undec = [(p["fn"], o["name"] + ": " + o["status"]) for p in proofs.values() for o in p["obligations"] if o["status"] == "unknown"]
    undec += [(p["fn"], p["unsupported"] or p["vacuous"]) for p in proofs.values() if p["unsupported"] or p["vacuous"]]
    base = load_baseline()
    if "--baseline" in sys.argv:
        for p in proofs.values():
            if p["src"]:
                names = {o["name"].split("@")[0] for o in p["obligations"]}
                base[p["fn"]] = dict(src=p["src"], proved=sorted(n for n in names if all(o["status"] == "proved" for o in p["obligations"]
                                                                                         if o["name"].split("@")[0] == n)))
        (VERIF / "baseline.json").write_text(json.dumps(base, indent=1, sort_keys=True) + "\n")
    failed += lost(proofs, base)
    backends = {}
    for p in proofs.values():
        for k, v in p["backends"].items():
            backends[k] = backends.get(k, 0) + v
    known = []
    kf = VERIF / "known_findings.json"
    if kf.exists():
        known = [k for k in json.loads(kf.read_text()).get("findings", []) if k["property"] == prop]

    lines, violation = [], None
    rdir = VERIF / "evidence" / "replay"
    rdir.mkdir(exist_ok=True)
    if r and r["violation"]:
        path = rdir / f"{prop}.json"
        path.write_text(json.dumps(dict(property=prop, kind="failing input on the real code", **r["violation"],
                                        replay=f"{PY} {VERIF}/rac/base.py {prop} --replay {path} --out /dev/stdout",
                                        failed_obligations=[o for _, o in failed]), indent=1))
        violation = f"VIOLATION property={prop} replay={path}"
        lines.append("failing input: " + json.dumps(r["violation"]["case"])[:600])
        lines.append("what: " + r["violation"]["what"][:600])
    elif failed:
        path = rdir / f"{prop}.json"
        path.write_text(json.dumps(dict(property=prop, kind="failed obligation", obligations=[dict(fn=f, **o) for f, o in failed],
                                        verifier_output=[o["detail"] for _, o in failed]), indent=1))
        violation = f"VIOLATION property={prop} replay={path} no-failing-input-found"
        for f, o in failed:
            lines.append(f"obligation {o['name']} no longer holds: {o['detail'][:300]}")

    external = sorted({q for p in proofs.values() for q in p["called"] if q in cons and cons[q].assumed})
    used_contracts = sorted({q for p in proofs.values() for q in p["called"] if not (q in cons and cons[q].assumed)})
    unproved_used = [q for q in used_contracts if q in cons and q not in proofs]
    coverage = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd=f"python3-vt check.py {prop}",
        trusted_base=["pyvc (this repository's verification-condition generator: Python semantics of the supported subset, loop summarisation)",
                      "z3 / cvc5", "CPython ast module",
                      "models of builtins and library functions in pyvc/models.py (str, path, os, elftools, zipfile ... as uninterpreted functions with the listed axioms)"]
        + [f"assumed contract: {q} ({cons[q].assumed})" for q in external]
        + [f"hypothesis on the environment of {q}: {h}: {doc_of(cons[q], h)}" for q in proofs if q in cons for h in cons[q].hypotheses] + meta.get("assumes", []),
        functions_under_contract=[dict(fn=p["fn"], source_hash=p["src"], obligations=len(p["obligations"]),
                                       discharged=sum(o["status"] == "proved" for o in p["obligations"]), paths=p["paths"], secs=p["secs"],
                                       inlined=p["inlined"], by_contract=p["called"], undecided=p["unsupported"] or p["vacuous"])
                                  for p in proofs.values()],
        obligation_names=[o["name"] + " " + o["status"] + " " + o["backend"] for p in proofs.values() for o in p["obligations"]],
        solver_seconds=round(sum(p["solver_secs"] for p in proofs.values()), 2), back_ends=backends,
        queries=sum(p["queries"] for p in proofs.values()),
        undecided=[f"{f}: {w}" for f, w in undec],
        contracts_used_but_proved_under_other_properties=unproved_used,
    )
    if r:
        coverage.update(evaluations=r["evaluations"], distinct_nontrivial=r["distinct_nontrivial"], rule=r["rule"], samples=r["samples"],
                        runtime_contract_checking=dict(label="bounded: run-time contract checking of the real code, not counted as proved",
                                                       seconds=r["secs"], skipped=r["skipped"], error=r["error"]))
    coverage["explanation"] = meta.get("explanation", meta["level_note"])
    ev = dict(property=prop, tier=tier, seed=seed, level=meta["level"], coverage=coverage,
              assumptions=meta.get("assumes", []) + meta.get("dropped", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    (work / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop}: {discharged}/{obligations} obligations discharged over {len(proofs)} functions, "
          f"{len(undec)} undecided; run-time contract checking: {r['evaluations'] if r else 0} evaluations" + (f" (harness: {r['error'].strip().splitlines()[-1]})" if r and r["error"] else ""))
    for f, w in undec:
        print(f"  undecided: {f}: {w}")
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for ln in lines:
        print("  " + ln)
    if violation:
        print(violation)
        sys.exit(1)
    sys.exit(0)


if __name__ == "__main__":
    main()
