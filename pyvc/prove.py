"""Generate and discharge the obligations of one contract from the current source of /repo."""
from __future__ import annotations
import ast, json, sys, time, traceback, hashlib
import z3
from .terms import *
from .values import *
from .interp import Interp, State, PyRaise, Infeasible, NORMAL, intern_uid, Undef
from .repo import Repo
from .solver import Solver
from . import contracts as C
from . import models


class Report:
    def __init__(self, fn):
        self.fn = fn
        self.obligations = []     # dict(name, status, backend, secs, detail)
        self.unsupported = None
        self.vacuous = None
        self.assumptions = []
        self.inlined, self.called = [], []
        self.paths = 0
        self.secs = 0.0
        self.src = None

    def ok(self):
        return self.unsupported is None and not self.vacuous and self.obligations and all(o["status"] == "proved" for o in self.obligations)

    def as_dict(self):
        return dict(fn=self.fn, obligations=self.obligations, unsupported=self.unsupported, vacuous=self.vacuous,
                    inlined=sorted(self.inlined), called=sorted(self.called), paths=self.paths, secs=round(self.secs, 2), src=self.src)


def init_param(I_, con, name, ty):
    t = z3.Const("p_" + name, V)
    if ty.n == "int":
        return I(z3.Int("p_" + name))
    if ty.n == "bool":
        return B(z3.Bool("p_" + name))
    if ty.n == "None":
        return NONE
    if ty.n == "BinaryIO":      # an open file: what is left to read changes as it is read
        left = z3.Function("bytes_in", V, V)(t)
        r = I_.alloc(S(left, ty))
        I_.readers[r.cid] = left
        return r
    if not is_optional(ty) and ty.n != "tuple":
        I_.st.pc.append(t != NONE_T)
    v = I_.wrap(t, ty)
    if isinstance(v, S) and v.ty.n in ("list", "set", "dict", "defaultdict"):
        return I_.alloc(v)
    cls = I_.cls_of_ty(strip_none(ty))
    if I_.is_enum(cls):
        I_.st.pc.append(Or([Eq(t, enum_term(e)) for e in I_.enum_members(cls)] + ([t == NONE_T] if is_optional(ty) else [])))
    cls = I_.cls_of_ty(ty)
    if cls is not None and cls.node is not None and not I_.repo.is_enum(cls) and not I_.repo.namedtuple_fields(cls) and name not in con.opaque:
        return init_object(I_, v, cls)
    return v


def init_object(I_, v, cls):
    """materialised object: its fields are symbolic values stored in a heap cell"""
    flds = I_.repo.fields(cls)
    if not flds:
        return v
    out = {}
    for n, t in flds.items():
        fv = I_.field_of(v, n, t)
        if isinstance(fv, S) and fv.ty.n in ("list", "set", "dict", "defaultdict") and not I_.spec:
            fv = I_.alloc(fv)
        out[n] = fv
    frozen = I_.repo.is_dataclass(cls) and I_.repo.is_frozen(cls)
    if frozen:
        return v
    return I_.alloc(O(cls, out))


def prove_contract(con, cons, root, extra, verbose=False):
    rep = Report(con.fn)
    t0 = time.time()
    repo = Repo(root, extra)
    solver = Solver()
    I_ = Interp(repo, solver, {k: v for k, v in cons.items() if k not in con.hide})
    I_.use = con.use
    I_.join_limit = con.join or 8
    I_.under = con.fn
    for k, t in (con.self_fields or {}).items():
        c, n = k.split(".")
        repo.field_override.setdefault(c, {})[n] = repo.parse_ty(t)
    I_.under_contract = con
    I_.ind_specs = C.Contract.inductive
    I_.opaque_fns = C.Contract.opaque_fns
    con.opaque = set(con.opaque_self if isinstance(con.opaque_self, (list, set, tuple)) else (["self"] if con.opaque_self else []))
    try:
        f = repo.function(con.fn)
        if f is None:
            rep.unsupported = f"function {con.fn} not found"
            return rep
        rep.src = hashlib.sha256(ast.dump(f.node).encode()).hexdigest()[:16]
        _prove(I_, con, f, rep, verbose)
    except Unsupported as e:
        rep.unsupported = f"{e} (line {getattr(e, 'line', '?')})"
        if verbose:
            traceback.print_exc()
    except (RecursionError, z3.Z3Exception, AssertionError, KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
        rep.unsupported = f"engine: {type(e).__name__}: {e}"
        if verbose:
            traceback.print_exc()
    finally:
        rep.inlined, rep.called = I_.inlined, I_.called
        if rep.src is not None:
            # the source the obligations come from: the function under contract and every function whose body was used
            hs = [rep.src]
            for q in sorted(rep.inlined):
                try:
                    g = repo.function(q)
                except Exception:  # noqa: BLE001
                    g = None
                if g is not None and getattr(g, "node", None) is not None and not q.startswith("contracts."):
                    hs.append(hashlib.sha256(ast.dump(g.node).encode()).hexdigest()[:16])
            rep.src = hashlib.sha256(" ".join(hs).encode()).hexdigest()[:16]
        rep.paths = I_.paths
        rep.secs = time.time() - t0
        rep.stats = solver.stats
    return rep


def _prove(I_, con, f, rep, verbose):
    st = State()
    I_.st = st
    a = f.node.args
    deco = getattr(f, "deco", [])
    params = [x for x in a.posonlyargs + a.args + a.kwonlyargs]
    env = {}
    from .interp import Decisions
    I_.dec = Decisions(())
    I_.dec.memo = {}
    st.frames["root"] = {"$parent": None, "$mod": f.mod}
    st.cur = "root"
    for p in params:
        if p.arg == "self" and f.cls is not None and "self" not in con.types and "staticmethod" not in deco:
            ty = Ty(f.owner.name)
        elif p.arg == "cls" and "classmethod" in deco:
            env["cls"] = f.owner
            continue
        elif p.arg in con.types:
            ty = I_.repo.parse_ty(con.types[p.arg])
        else:
            ty = I_.repo.parse_ty(p.annotation)
        env[p.arg] = init_param(I_, con, p.arg, ty)
    if a.vararg:
        env[a.vararg.arg] = I_.freeze(init_param(I_, con, a.vararg.arg, Ty("list", (I_.repo.parse_ty(a.vararg.annotation),))))
    outer = getattr(f, "outer", None)
    for n, tyname in con.captures.items():
        env[n] = init_param(I_, con, n, I_.repo.parse_ty(tyname))
    I_.root_env = env
    if a.kwarg:
        raise Unsupported("**kwargs in a function under contract")
    # closures / nested functions are not contracted
    for r in list(con.requires) + list(con.hypotheses):
        st_f = con.spec_formula(I_, r, env)
        for c in conj(st_f):
            I_.st.pc.append(c)
    st = I_.st
    st.ghost["base"] = len(st.pc)
    old = {f"old_{k}": I_.freeze_copy(v) for k, v in env.items()}
    if not I_.solver.consistent(st.pc, I_.defs):
        rep.vacuous = "requires are contradictory"
        return
    ofid = None
    if outer is not None:
        ofid = I_.new_frame(parent=None, mod=f.mod)
        st.frames[ofid].update({n: env[n] for n in con.captures})
        for n in outer.node.body:
            if isinstance(n, ast.FunctionDef):
                st.frames[ofid][n.name] = Fn(n, f.mod, n.name, parent=ofid)
    fid = I_.new_frame(parent=ofid, mod=f.mod)
    st.frames[fid].update({k: v for k, v in env.items() if k not in con.captures} if outer is not None else env)
    st.frames[fid]["$cls"] = f.cls
    st.frames[fid]["$self"] = env.get("self")
    st.cur = fid
    gen = I_.repo.is_generator(f.node)
    if gen:
        y = I_.alloc(L(()))
        st.frames[fid]["$yield"] = y
    outs = I_.exec_block(st, f.node.body)
    vcs = []
    normal_seen = False
    def outcome(k, s, o):
        nonlocal normal_seen
        if o[0] == "raise":
            res, raised = NONE, o[1]
            info = raised.cls
        else:
            res = o[1] if o[0] == "return" else NONE
            if gen:
                res = L(s.heap[y.cid].segs, "list")
            raised = None
            info = "return"
        s = s.copy()
        s.frames["spec"] = {"$parent": None, "$mod": f.mod}
        s.cur = "spec"
        e2 = {**env, **old, "result": res, "raised": pstr(raised.cls) if raised is not None else NONE,
              "effects": L(s.trace)}
        names = con.ensures
        if raised is not None:
            if raised.cls in con.raises or "*" in con.raises:
                cond = con.raises.get(raised.cls, con.raises.get("*"))
                if cond is None:
                    pass
                else:
                    collect(I_, con, s, cond, {**old_env(old), **e2}, f"{con.fn}#raises:{raised.cls}@{k}", vcs)
            else:
                why = f"{raised.cls}" + (f" ({raised.info})" if raised.info and not isinstance(raised.info, dict) else "")
                vcs.append((f"{con.fn}#no-exception:{why}@{k}", list(s.pc), FALSE))
            for n, e in con.ensures.items():
                if n.startswith("always") or n.startswith("exc"):
                    collect(I_, con, s, e, e2, f"{con.fn}#{n}@{k}", vcs)
            return
        normal_seen = True
        for exc, cond in con.raises.items():
            if cond is not None and con.must_raise(exc):
                collect(I_, con, s, cond, e2, f"{con.fn}#must-raise:{exc}@{k}", vcs, negate=True)
        for n, e in con.ensures.items():
            if n.startswith("exc"):
                continue
            collect(I_, con, s, e, e2, f"{con.fn}#{n}@{k}", vcs)
        if con.returns is not None:
            collect(I_, con, s, None, e2, f"{con.fn}#returns@{k}", vcs, ret=True)

    defs_of = {}
    for k, (s, o) in enumerate(outs):
        # what one outcome's clauses introduce is of no use to the next one's
        snap = (list(I_.defs), dict(I_.chosen), dict(I_.closed_ids), set(I_.heavy), dict(I_.inductive), dict(I_.ind_templates), list(I_.induction_sets), dict(I_.__dict__.get("lenmemo", {})))
        m, n = len(vcs), len(I_.obligations)
        outcome(k, s, o)
        for i in range(m, len(vcs)):
            defs_of[id(vcs[i])] = I_.defs
        for ob in I_.obligations[n:]:
            defs_of[id(ob)] = I_.defs
        I_.defs, I_.chosen, I_.closed_ids = snap[0], snap[1], snap[2]
        I_.heavy.clear()
        I_.heavy.update(snap[3])
        I_.inductive, I_.ind_templates, I_.induction_sets, I_.lenmemo = snap[4], snap[5], snap[6], snap[7]
        I_.solver.generation += 1
    rep.outcomes = len(outs)
    if not normal_seen and not con.raises:
        rep.vacuous = "no normal outcome"
    vcs.extend(I_.obligations)
    if not vcs:
        rep.vacuous = "no obligations"
    # reachability: at least one normal outcome must be consistent
    if normal_seen:
        if not any(o[0] != "raise" and I_.solver.consistent(s.pc, I_.defs) for s, o in outs):
            rep.vacuous = "no reachable normal outcome"
    for vc in vcs:
        name, hyps, goal = vc
        if z3.is_true(goal):
            rep.obligations.append(dict(name=name, status="proved", backend="simplifier", secs=0.0, detail=""))
            continue
        status, be, secs, detail = I_.solver.prove(hyps, goal, defs_of.get(id(vc), I_.defs), con.budget)
        rep.obligations.append(dict(name=name, status=status, backend=be, secs=round(secs, 2), detail=detail))
        if verbose:
            print("   ", name, status, be, f"{secs:.2f}s", detail[:200], flush=True)


def old_env(old):
    return {}


def collect(I_, con, s, fn, env, name, vcs, negate=False, ret=False):
    if __import__("os").environ.get("PVC_PROGRESS"):
        print(f"  {time.process_time():7.1f}s {name} pc={len(s.pc)} defs={len(I_.defs)}", flush=True)
    def go():
        if ret:
            v = con.spec_val(I_, con.returns, env)
            f = I_.eq(env["result"], v)
        else:
            f = I_.truth(con.spec_val(I_, fn, env))
        return ("f", f)
    saved = I_.dec
    for k, (t, o) in enumerate(I_.run(s, go)):
        if o[0] == "raise":
            vcs.append((f"{name}.{k}:spec-raises-{o[1].cls}", list(t.pc), FALSE))
            continue
        g = Not(o[1]) if negate else I_.strengthen(o[1])
        vcs.append((f"{name}.{k}" if k else name, list(t.pc), g))
