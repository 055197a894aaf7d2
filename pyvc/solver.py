"""Query assembly and the back ends.  Deterministic: every z3 query is limited by rlimit (not by wall time) first."""
from __future__ import annotations
import os, subprocess, tempfile, time
import z3
from .terms import *


class Stats:
    def __init__(self):
        self.quick = 0
        self.full = 0
        self.time = 0.0
        self.by_backend = {}


class Solver:
    def __init__(self):
        self.stats = Stats()
        self.cache = {}
        self.keep = []
        self.global_axioms = []
        self.generation = 0      # of the definitional facts: those of one outcome are dropped before the next
        self.heavy = set()        # indices of definitional facts left out of cheap queries

    # ---- assembly
    def relevant(self, fs, defs, light=False):
        """fs plus the definitional facts, axioms and literal facts their symbols need"""
        out = list(fs)
        syms = set()
        for f in out:
            syms |= symbols(f)
        used = set()
        changed = True
        axdone = set()
        while changed:
            changed = False
            for i, (owners, f) in enumerate(defs):
                if i in used or light and i in self.heavy:
                    continue
                if owners & syms or not owners:
                    used.add(i)
                    out.append(f)
                    n = symbols(f)
                    if not n <= syms:
                        syms |= n
                    changed = True
            for s in list(syms):
                if s in AXIOMS and s not in axdone:
                    axdone.add(s)
                    for a in AXIOMS[s]:
                        out.append(a)
                        syms |= symbols(a)
                    changed = True
        for a in (order_axioms(out)):
            out.append(a)
        lf = literal_facts(out)
        if lf:
            lf2 = literal_facts(out + lf)
            out += lf2
        return out

    def quick_unsat(self, fs, defs, slow=False, brief=False):
        """cheap unsatisfiability test used to prune branches; False when unknown"""
        key = (tuple(f.get_id() for f in fs), len(defs), self.generation, slow, brief)
        if key in self.cache:
            return self.cache[key]
        self.keep.append(list(fs))
        self.stats.quick += 1
        t = time.time()
        # first without quantified facts: most pruning is propositional
        r = self._check([f for f in fs if not has_quant(f)], 400_000, literal=True)
        if r != z3.unsat and slow is not None:
            rel = self.relevant(fs, defs, light=not slow)
            r = self._check(rel, 4_000_000 if slow else 150_000 if brief else 800_000, timeout=8000 if slow else 1500)
        self.stats.time += time.time() - t
        res = r == z3.unsat
        self.cache[key] = res
        return res

    def _check(self, fs, rlimit, literal=False, timeout=1000, mbqi=False):
        s = z3.SimpleSolver() if False else z3.Solver()
        s.set("rlimit", rlimit)
        s.set("timeout", timeout)
        if not mbqi:
            s.set("smt.mbqi", False)
        s.set("smt.random_seed", 7)
        s.add(*fs)
        if literal:
            lf = literal_facts(fs)
            s.add(*lf)
        return s.check()

    # ---- full proof attempts
    def prove(self, hyps, goal, defs, budget=1.0):
        """-> (status, backend, seconds, detail) status in proved/refuted/unknown"""
        t0 = time.time()
        self.stats.full += 1
        fs = self.relevant(list(hyps) + [Not(goal)], defs)
        detail = ""
        if os.environ.get("PVC_DUMP"):
            z3.set_option(max_args=10000, max_lines=100000, max_depth=1000, max_visited=1000000)
            print("\n--DUMP", *fs, sep="\n  * ")
        attempts = [("z3", dict(mbqi=False), 6_000_000, 5000), ("z3", dict(mbqi=False, seed=1), 6_000_000, 5000),
                    ("z3", dict(mbqi=False, seed=23), 6_000_000, 5000), ("z3", dict(mbqi=False, seed=101), 20_000_000, 15000), ("z3-mbqi", dict(mbqi=True), 40_000_000, 20000),
                    ("z3-ho", dict(mbqi=False, case=3), 40_000_000, 20000)]
        status = "unknown"
        model = None
        for name, opt, rl, to in attempts:
            s = z3.Solver()
            s.set("rlimit", int(rl * budget))
            s.set("timeout", int(to * budget))
            s.set("smt.mbqi", opt["mbqi"])
            s.set("smt.random_seed", opt.get("seed", 7))
            if "case" in opt:
                s.set("smt.case_split", 3)
                s.set("smt.qi.eager_threshold", 100.0)
            s.add(*fs)
            r = s.check()
            if r == z3.unsat:
                dt = time.time() - t0
                self.stats.by_backend[name] = self.stats.by_backend.get(name, 0) + 1
                self.stats.time += dt
                return "proved", name, dt, ""
            if r == z3.sat and opt["mbqi"]:
                if any(n.startswith("eq?") for f in fs for n in symbols(f)):
                    detail += "refuted up to comparisons that are not modelled; "
                    break
                status = "refuted"
                model = s.model()
                detail = "z3 model: " + short(model)
                break
            detail += f"{name}: {r} {s.reason_unknown()}; "
        if status == "unknown":
            r = self.cvc5(fs, 20 * budget)
            detail += f"cvc5: {r}; "
            if r == "unsat":
                dt = time.time() - t0
                self.stats.by_backend["cvc5"] = self.stats.by_backend.get("cvc5", 0) + 1
                self.stats.time += dt
                return "proved", "cvc5", dt, ""
        dt = time.time() - t0
        self.stats.time += dt
        return status, "-", dt, detail

    def cvc5(self, fs, to):
        s = z3.Solver()
        s.add(*fs)
        txt = s.to_smt2()
        txt = "(set-logic ALL)\n" + txt
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        try:
            for opts in (["--full-saturate-quant"], ["--enum-inst"]):
                try:
                    r = subprocess.run(["cvc5", f"--tlimit={int(to * 500)}", *opts, f.name], capture_output=True, text=True, timeout=to + 10)
                except Exception:
                    continue
                o = r.stdout.strip().splitlines()
                if o and o[0] == "unsat":
                    return "unsat"
        finally:
            os.unlink(f.name)
        return "unknown"

    def consistent(self, fs, defs):
        """vacuity guard: the facts must not be contradictory (unsat => vacuous)"""
        rel = self.relevant(fs, defs)
        return self._check(rel, 20_000_000, timeout=10000, mbqi=False) != z3.unsat


def short(m, n=40):
    out = []
    for d in m.decls()[:n]:
        s = str(m[d]).replace("\n", " ")
        out.append(f"{d.name()}={s[:80]}")
    return "; ".join(out)


_hq = {}


def has_quant(f):
    k = f.get_id()
    if k in _hq:
        return _hq[k][1]
    st, seen, r = [f], set(), False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _hq[k] = (f, r)
    return r


def order_axioms(fs):
    """total order axioms for the iteration orders and string orders in use"""
    syms = set()
    for f in fs:
        syms |= symbols(f)
    out = []
    x, y, z = z3.Consts("ox oy oz", V)
    d = z3.Const("od", V)
    if "str_lt" in syms:
        f = uf("str_lt", "VV>B")
        out += [z3.ForAll([x], Not(f(x, x))), z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]),
                z3.ForAll([x, y, z], Imp(z3.And(f(x, y), f(y, z)), f(x, z)), patterns=[z3.MultiPattern(f(x, y), f(y, z))])]
    if "bef_pred" in syms:
        f = uf("bef_pred", "VV>B")
        out += [z3.ForAll([x], Not(f(x, x))), z3.ForAll([x, y], z3.Or(f(x, y), f(y, x), x == y), patterns=[f(x, y)]),
                z3.ForAll([x, y, z], Imp(z3.And(f(x, y), f(y, z)), f(x, z)), patterns=[z3.MultiPattern(f(x, y), f(y, z))])]
    for n in ("bef_set", "bef_keys"):
        if n in syms:
            f = uf(n, "VVV>B")
            out += [z3.ForAll([d, x], Not(f(d, x, x)), patterns=[f(d, x, x)]),
                    z3.ForAll([d, x, y], z3.Or(f(d, x, y), f(d, y, x), x == y), patterns=[f(d, x, y)]),
                    z3.ForAll([d, x, y, z], Imp(z3.And(f(d, x, y), f(d, y, z)), f(d, x, z)),
                              patterns=[z3.MultiPattern(f(d, x, y), f(d, y, z))])]
    if "len" in syms:
        f = uf("len", "V>I")
        out.append(z3.ForAll([x], f(x) >= 0, patterns=[f(x)]))
    return out
