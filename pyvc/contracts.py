"""Contracts: loaded from /verif/contracts/*.py.  A contract module is plain Python; the same functions are interpreted
symbolically here (from their AST) and executed natively by the run-time contract checker (rac)."""
from __future__ import annotations
import ast, importlib.util, pathlib
import z3
from .terms import *
from .values import *
from .interp import PyRaise, Infeasible, NORMAL


class Contract:
    """one function contract
    fn        'module:Class.name'
    props     property ids this contract serves
    types     {param: type string} overriding the annotations (result: 'result')
    requires  [spec functions over the parameters]
    ensures   {name: spec function over parameters, old_<param>, result, raised}
    returns   spec function whose value *is* the result (functional contract, usable at call sites)
    raises    {exception: spec condition or None}: exceptions a caller must expect; condition None = may raise
    effect    name of the trace event a call performs (externally visible action)
    modifies  {param: spec function giving the new value | None (arbitrary)}
    pure      no effects, result depends on the arguments only
    inline    callers execute the body instead of the contract
    assumed   not proved here (external or out of reach): listed in the trusted base
    """
    def __init__(self, fn, mod, **kw):
        self.fn, self.mod = fn, mod
        self.props = kw.pop("props", [])
        self.types = kw.pop("types", {})
        self.requires = kw.pop("requires", [])
        self.ensures = kw.pop("ensures", {})
        self.returns = kw.pop("returns", None)
        self.raises = kw.pop("raises", {})
        self.effect = kw.pop("effect", None)
        self.modifies = kw.pop("modifies", {})
        self.inline = kw.pop("inline", False)
        self.assumed = kw.pop("assumed", None)
        self.opaque_self = kw.pop("opaque_self", False)
        self.self_fields = kw.pop("self_fields", None)
        self.budget = kw.pop("budget", 1.0)
        self.join = kw.pop("join", None)
        self.at_call = kw.pop("at_call", {})  # {callee: {name: condition over this function's parameters and the callee's}}: holds whenever the callee is called
        self.may = kw.pop("may", [])          # exceptions raised only if their condition holds (not: whenever it holds)
        self.hide = kw.pop("hide", [])        # contracts to be inlined instead while proving this one
        self.loops = kw.pop("loops", [])
        self.note = kw.pop("note", "")
        self.captures = kw.pop("captures", {})   # nested functions: types of the captured variables
        self.induct = kw.pop("induct", False)    # the result is a set to instantiate the leastness of inductive predicates with
        self.use = kw.pop("use", {})          # callee postconditions needed while proving this one (default: all)
        self.hypotheses = kw.pop("hypotheses", [])   # facts about the environment assumed in the proof, not checked at call sites (listed as assumptions)
        self.relation = kw.pop("relation", None)   # preorder between the old and the new value of the one havocked parameter
        self.names = kw.pop("names", None)    # opaque specification function that names the result at call sites (the function is deterministic)
        self.lazy = kw.pop("lazy", False)     # branches of comprehensions in specifications are pruned propositionally only
        self.reveal = kw.pop("reveal", [])    # opaque specification functions whose body is used while proving this one
        if kw:
            raise ValueError(f"{fn}: unknown contract keys {list(kw)}")

    # ---- spec evaluation
    def of_trace(self, I_, f):
        """does the clause speak of the callee's own effects? A caller sees the single event `effect` instead"""
        return "effects" in self.spec_fn(I_, f)[1]

    def spec_fn(self, I_, f):
        name = f if isinstance(f, str) else f.__name__
        m = I_.repo.module(self.mod)
        d = m.defs[name]
        return Fn(d[1], m, name), [a.arg for a in d[1].args.args]

    def spec_val(self, I_, f, env):
        fn, params = self.spec_fn(I_, f)
        missing = [p for p in params if p not in env]
        if missing:
            raise Unsupported(f"{self.fn}: contract function {fn.name} needs {missing}")
        old, I_.spec = I_.spec, True
        try:
            return I_.inline(fn, [env[p] for p in params], {})
        finally:
            I_.spec = old

    def spec_formula(self, I_, f, env):
        ok, v = I_.pure_merge(lambda: B(I_.truth(self.spec_val(I_, f, env))))
        if not ok or v is None:
            raise Unsupported(f"{self.fn}: contract function {f if isinstance(f, str) else f.__name__} is not pure on this path")
        return v.t

    # ---- use at a call site
    def bind_types(self, I_, f, env):
        return env

    def result_value(self, I_, f):
        ty = I_.repo.parse_ty(self.types["result"]) if "result" in self.types else I_.repo.parse_ty(f.node.returns)
        if ty.n == "None":
            return NONE
        if ty.n == "bool":
            return B(I_.fresh("r_" + f.name, BOOL))
        if ty.n == "int":
            return I(I_.fresh("r_" + f.name, INT))
        t = I_.fresh("r_" + f.name)
        if not is_optional(ty) and ty.n != "tuple":
            I_.define(t != NONE_T)
        v = I_.wrap(t, ty)
        if isinstance(v, S) and strip_none(v.ty).n in ("list", "set", "dict", "defaultdict"):
            return I_.alloc(v)
        return v

    def apply(self, I_, f, args, kw):
        env = I_.bind(f, args, kw)
        for c in self.captures:
            env[c] = I_.lookup_from(f.parent, c, f.mod)
        return self._apply(I_, f, env)

    def _apply(self, I_, f, env):
        old = {f"old_{k}": (I_.freeze_copy(v)) for k, v in env.items()} if self.modifies else {}
        for r in self.requires:
            g = self.spec_formula(I_, r, env)
            nm = r if isinstance(r, str) else r.__name__
            if not z3.is_true(g):
                I_.obligations.append((f"{I_.under or '?'}#call:{self.fn}.{nm}", list(I_.st.pc), g))
        uc = getattr(I_, "under_contract", None)
        if uc is not None and self.fn in uc.at_call and not I_.spec:
            for nm, cond in uc.at_call[self.fn].items():
                # the condition is evaluated for arbitrary values (case splits complete), without the path conditions: they only prune
                pcs, I_.st.pc = I_.st.pc, []
                try:
                    g = uc.spec_formula(I_, cond, {**I_.root_env, **env})
                finally:
                    I_.st.pc = pcs
                if not z3.is_true(g):
                    I_.obligations.append((f"{I_.under}#{nm}@call", list(I_.st.pc), g))
        if self.effect:
            I_.models.effect(I_, self.effect, *[I_.effect_arg(v) for v in env.values()])
        loose = self.fn in I_.use and I_.use[self.fn] is None      # nothing about the callee needed: any listed exception, any result
        for exc, cond in self.raises.items():
            if cond is None or loose:
                if I_.decide(I_.fresh("may_raise", BOOL)):
                    raise PyRaise(Exc(exc))
            else:
                c = self.spec_formula(I_, cond, env)
                if exc in self.may:
                    c = And([c, I_.fresh("may_raise", BOOL)])
                if I_.decide(c):
                    raise PyRaise(Exc(exc))
        for p, fn in self.modifies.items():
            tgt = env[p]
            if fn is None:
                if self.relation is None or not isinstance(tgt, Ref):
                    raise Unsupported("havoc of " + p)
                ty = I_.repo.parse_ty(self.types[p])
                I_.havoc_rel[tgt.cid] = (self, p, ty)
                self.havoc(I_, tgt.cid, p, ty, old[f"old_{p}"])
                continue
            newv = I_.content(self.spec_val(I_, fn, {**env, **old}))
            I_.write(tgt, newv)
        if self.names is not None and not loose:
            v = self.spec_val(I_, self.names, {**env, **old})
            return I_.alloc(v) if isinstance(v, S) and strip_none(v.ty).n in ("list", "set", "dict", "defaultdict") and not is_optional(v.ty) else v
        if self.returns is not None and not loose:
            v = self.spec_val(I_, self.returns, {**env, **old})
            if isinstance(v, S) and strip_none(v.ty).n in ("list", "set", "dict", "defaultdict") and not is_optional(v.ty):
                v = I_.alloc(v)
            env2 = {**env, **old, "result": v, "raised": NONE}
            wanted = [] if loose else I_.use.get(self.fn)
            for n, e in self.ensures.items():
                if (wanted is None or n in wanted) and not self.of_trace(I_, e):
                    I_.assume_def(self.spec_formula(I_, e, env2))
            return v
        res = self.result_value(I_, f)
        env2 = {**env, **old, "result": res, "raised": NONE}
        wanted = [] if loose else I_.use.get(self.fn)
        for n, e in self.ensures.items():
            if wanted is not None and n not in wanted or self.of_trace(I_, e):
                continue
            g = self.spec_formula(I_, e, env2)
            I_.assume_def(g)
        if self.induct:
            I_.induction_sets.append((I_.st.binders, I_.content(res)))
            I_.induct_on(I_.content(res))
        return res

    def havoc(self, I_, cid, p, ty, old):
        """the container becomes an arbitrary one related to its old value"""
        t = I_.fresh("havoc")
        I_.define(t != NONE_T)
        I_.st.heap[cid] = S(t, ty)
        I_.assume_def(self.spec_formula(I_, self.relation, {f"old_{p}": old, p: Ref(cid)}))

    def apply_ctor(self, I_, c, args, kw):
        raise Unsupported(f"constructor contract of {c.name}")


class _Dummy:
    def __getattr__(self, n):
        return _Dummy()

    def __call__(self, *a, **k):
        return _Dummy()


class _Stub:
    """contract modules import names of the verified code; the prover reads sources only, so those imports get placeholders"""
    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in ("auditwheel", "elftools", "packaging", "pyvc_spec"):
            return importlib.util.spec_from_loader(name, self)
        return None

    def create_module(self, spec):
        import types
        m = types.ModuleType(spec.name)
        m.__path__ = []
        m.__getattr__ = lambda n: _Dummy()
        return m

    def exec_module(self, m):
        pass


def load(root):
    """-> ({fn: Contract}, {modname: path}) for every file of the contracts directory"""
    cons, extra = {}, {}
    cons_ind, opq = {}, {}
    import sys
    if not any(isinstance(f, _Stub) for f in sys.meta_path):
        sys.meta_path.insert(0, _Stub())
    for p in sorted(pathlib.Path(root).glob("*.py")):
        if p.name.startswith("_"):
            continue
        modname = "contracts." + p.stem
        extra[modname] = p
        spec = importlib.util.spec_from_file_location(modname, p)
        m = importlib.util.module_from_spec(spec)
        sys.modules[modname] = m
        spec.loader.exec_module(m)
        for d in getattr(m, "CONTRACTS", []):
            d = dict(d)
            fn = d.pop("fn")
            if fn in cons:
                raise ValueError("duplicate contract for " + fn)
            cons[fn] = Contract(fn, modname, **d)
        for name, (base, step) in getattr(m, "INDUCTIVE", {}).items():
            cons_ind[f"{modname}:{name}"] = (Contract(f"{modname}:{name}", modname), base, step)
        for name, ty in getattr(m, "OPAQUE", {}).items():
            opq[f"{modname}:{name}"] = ty
    Contract.inductive = cons_ind
    Contract.opaque_fns = opq
    return cons, extra


def _must_raise(self, exc):
    return exc not in self.may


Contract.must_raise = _must_raise
