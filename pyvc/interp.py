"""Symbolic interpreter for the verified Python subset.

Works directly on the ASTs parsed from the tree under verification.  A statement is executed for one state by replaying
decisions (every feasible combination of branch outcomes is explored); loops over collections of unknown size are
summarised exactly when their body is homomorphic (each iteration only contributes to accumulators), first-match exits
and if-absent guards included; everything else raises Unsupported, which makes the obligation undecided.
"""
from __future__ import annotations
import ast, itertools, re
import z3
from .terms import *
from .values import *
from . import values as VV

BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "LookupError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "RuntimeError": "Exception",
    "NotImplementedError": "RuntimeError", "AttributeError": "Exception", "AssertionError": "Exception",
    "OSError": "Exception", "FileNotFoundError": "OSError", "SystemExit": "BaseException", "ELFError": "Exception",
    "StopIteration": "Exception", "UnicodeDecodeError": "ValueError", "CalledProcessError": "Exception",
    "ELFParseError": "ELFError", "ArgumentTypeError": "Exception", "FileExistsError": "OSError", "PermissionError": "OSError",
    "InvalidWheelFilename": "ValueError", "NameError": "Exception", "AnyException": "Exception", "ImportError": "Exception",
}


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Infeasible(Exception):
    pass


def ident_g(g):
    """binder segment yielding its own variable"""
    return len(g.body) == 1 and isinstance(g.body[0], U) and z3.is_true(g.body[0].g) and isinstance(g.body[0].v, S) and g.body[0].v.t.eq(g.var)


def literal(c):
    """(atom, truth value)"""
    v = True
    while z3.is_not(c):
        c, v = c.arg(0), not v
    if z3.is_le(c) or z3.is_lt(c):        # a <= b is not a > b
        a, b = c.arg(0), c.arg(1)
        return (a > b, not v) if z3.is_le(c) else (b > a, v)
    if z3.is_ge(c):
        return c.arg(1) > c.arg(0), not v
    return c, v


def facts_of(g):
    """truth values of the atoms a condition fixes (unit propagation)"""
    pairs, todo = [], conj(g)
    while True:
        rest, new = [], False
        for c in todo:
            if pairs:
                c = z3.simplify(z3.substitute(c, *pairs))
            for d in conj(c):
                if z3.is_not(d) and z3.is_or(d.arg(0)):
                    rest.extend(Not(e) for e in d.arg(0).children())
                    new = True
                elif z3.is_or(d) or z3.is_not(d) and z3.is_and(d.arg(0)):
                    rest.append(d)
                elif not z3.is_true(d):
                    a, v = literal(d)
                    pairs.append((a, z3.BoolVal(v)))
                    if z3.is_gt(a):
                        pairs.append((a.arg(0) <= a.arg(1), z3.BoolVal(not v)))
                    new = True
        todo = rest
        if not new or not todo:
            return pairs


def refine(v, g):
    """v (a value or a condition) where g holds: the atoms g decides replaced by their truth values"""
    pairs = facts_of(g)
    if not pairs:
        return v

    def go(x):
        if isinstance(x, z3.ExprRef):
            return z3.simplify(z3.substitute(x, *pairs)) if z3.is_bool(x) and not (z3.is_true(x) or z3.is_false(x)) else x
        if isinstance(x, U):
            return U(go(x.g), go(x.v))
        if isinstance(x, G):
            return G(x.var, x.dom, go(x.g), tuple(go(b) for b in x.body))
        if isinstance(x, L):
            return L(tuple(y for y in (go(s) for s in x.segs) if not z3.is_false(y.g)), x.kind)
        if isinstance(x, T):
            return T(tuple(go(y) for y in x.items))
        return x
    return go(v)


def common_prefix(ops):
    """length of the shared beginning of op sequences (the same op objects: executed before the paths part)"""
    n = 0
    while len(ops) > 1 and all(len(o) > n and o[n] is ops[0][n] for o in ops):
        n += 1
    return n


class Undef(Val):
    def __init__(self, why=""):
        self.why = why


class State:
    __slots__ = ("frames", "heap", "pc", "trace", "binders", "uid", "ctr", "cur", "moved", "skolems", "epoch", "ghost")

    def __init__(self):
        self.frames, self.heap, self.pc, self.trace = {}, {}, [], ()
        self.binders, self.uid, self.ctr, self.cur = (), "r", 0, None
        self.moved, self.skolems, self.epoch, self.ghost = frozenset(), (), 0, {}

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap, s.pc, s.trace = dict(self.heap), list(self.pc), self.trace
        s.binders, s.uid, s.ctr, s.cur = self.binders, self.uid, self.ctr, self.cur
        s.moved, s.skolems, s.epoch, s.ghost = self.moved, self.skolems, self.epoch, dict(self.ghost)
        return s

    def assign(self, o):
        o = o.copy()
        for k in State.__slots__:
            setattr(self, k, getattr(o, k))


class Decisions:
    def __init__(self, prefix):
        self.prefix, self.pos, self.taken, self.new = prefix, 0, [], []


def t_in(k, ts):
    return any(k.eq(t) for t in ts)


def t_union(a, b):
    return tuple(a) + tuple(k for k in b if not t_in(k, a))


def t_same(a, b):
    return len(a) == len(b) and all(x.eq(y) for x, y in zip(a, b))


NORMAL = ("normal",)
_uids: dict = {}


def intern_uid(uid, c):
    k = (uid, c)
    if k not in _uids:
        _uids[k] = f"u{len(_uids)}"
    return _uids[k]


TRACE = bool(__import__("os").environ.get("PVC_TRACE"))


class Interp:
    MAX_PATHS = 40000

    def __init__(self, repo, solver, contracts=None):
        self.own_keyed = set()
        self.repo, self.solver = repo, solver
        self.contracts = contracts or {}
        self.defs = []            # (owner symbol names, closed formula)
        self.dec = None
        self.st = None
        self.atoms = {}           # acc atom name -> loc
        self.depth = 0
        self.under = None         # function being verified
        self.notes = set()        # assumptions used (for the evidence)
        self.called = set()
        self.paths = 0
        self.inlined = set()
        self.spec = False
        self.obligations = []     # callee preconditions: (name, hyps, goal)
        self.modconst = {}
        self.raise_limit = None
        self.readers = {}
        self.under_contract, self.root_env, self.induction_sets, self.inductive, self.ind_specs = None, {}, [], {}, {}
        self._nested = None
        self.noraise = {}
        self.eq_suff = {}
        self.chosen = {}
        self.use = {}
        self.havoc_rel = {}
        self.join_limit = 8
        self.opaque_fns, self.ind_templates, self.heavy, self.closed_ids = {}, {}, set(), {}
        solver.heavy = self.heavy
        from . import models
        self.models = models

    # ------------------------------------------------------------ fresh symbols and definitional facts
    def fresh_name(self, hint):
        st = self.st
        st.ctr += 1
        return f"{hint}!{st.uid}.{st.ctr}"

    def fresh(self, hint, sort=V):
        n = self.fresh_name(hint)
        bs = self.st.binders
        if bs:
            return z3.Function(n, *[b.sort() for b in bs], sort)(*bs)
        return z3.Const(n, sort)

    def fresh_fn(self, hint, sig):
        """fresh function of explicit args plus the binders in scope"""
        n = self.fresh_name(hint)
        a, r = sig.split(">")
        bs = self.st.binders
        f = z3.Function(n, *[SORTS[c] for c in a], *[b.sort() for b in bs], SORTS[r])
        return (lambda *args: f(*args, *bs)), n

    def witnesses(self, rest, cond):
        """Skolem terms for the variables `rest` of cond, depending only on what cond mentions: ex rest. cond -> cond[terms]
        (the same formula gets the same witnesses)"""
        syms = symbols(cond)
        free = [b for b in self.st.binders if b.decl().name() in syms and not any(b.eq(r) for r in rest)]
        free.sort(key=lambda b: b.decl().name())
        known = {b.decl().name() for b in free + list(rest)} | {k.decl().name() for k in self.st.skolems}
        if any(n.startswith("$b") and n not in known for n in syms):
            raise Unsupported("choice under a variable that is not in scope")
        cs = [z3.Const(f"$cp{i}", b.sort()) for i, b in enumerate(free)]
        rs = [z3.Const(f"$cr{i}", b.sort()) for i, b in enumerate(rest)]
        canon = z3.substitute(cond, *(list(zip(free, cs)) + list(zip(rest, rs))))
        hit = self.chosen.get(canon.get_id())
        if hit is None:
            fns = [z3.Function(self.fresh_name("w"), *[c.sort() for c in cs], r.sort()) for r in rs]
            hit = (canon, fns)
            self.chosen[canon.get_id()] = hit
            w = z3.substitute(canon, *[(r, f(*cs)) for r, f in zip(rs, fns)])
            fact = Imp(z3.Exists(rs, canon), w)
            self.defs.append((frozenset(f.name() for f in fns), fa(cs, fact) if cs else fact))
        return [f(*free) for f in hit[1]]

    def define(self, fact, owner=None):
        """record a definitional fact about fresh symbols (valid whenever the current path is taken)"""
        if z3.is_true(fact):
            return
        st = self.st
        bs = [b for b in st.binders]
        syms = symbols(fact)
        pcs = [c for c in st.pc[st.ghost.get("base", 0):]]
        f = Imp(And(pcs), fact) if bs or st.skolems or pcs else fact
        bs = [b for b in bs if b.decl().name() in symbols(f)]
        owners = frozenset([owner] if owner else [n for n in syms if "!" in n])
        self.defs.append((owners, fa(bs, f) if bs else f))

    def assume(self, f):
        for c in conj(f):
            if z3.is_false(c):
                raise Infeasible
            self.st.pc.append(c)

    # ------------------------------------------------------------ decisions
    def run(self, st, fn):
        """all outcomes of fn executed on copies of st"""
        saved, saved_st = self.dec, self.st
        pending, res, memo = [()], [], {}
        try:
            while pending:
                pre = pending.pop()
                self.paths += 1
                if self.paths > self.MAX_PATHS:
                    raise Unsupported("path limit")
                self.dec = Decisions(pre)
                self.dec.memo = memo
                self.st = st.copy()
                try:
                    out = fn()
                    res.append((self.st, out))
                except PyRaise as e:
                    res.append((self.st, ("raise", e.exc)))
                except Infeasible:
                    pass
                pending.extend(self.dec.new)
        finally:
            self.dec, self.st = saved, saved_st
        return res

    def choose(self, n, key=None):
        d = self.dec
        if n == 0:
            raise Infeasible
        if d.pos < len(d.prefix):
            c = d.prefix[d.pos]
        else:
            c = 0
            if n > 1:
                for k in range(n - 1, 0, -1):
                    d.new.append(tuple(d.taken) + (k,))
        d.pos += 1
        d.taken.append(c)
        return c

    def decide(self, cond):
        cond = z3.simplify(cond) if False else cond
        if isinstance(cond, B):
            cond = cond.t
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        st = self.st
        d = self.dec
        if d.pos < len(d.prefix):
            c = d.prefix[d.pos]
            d.pos += 1
            d.taken.append(c)
            st.uid = intern_uid(st.uid, c)
            if c in (2, 3):
                return c == 2
            self.assume(cond if c == 0 else Not(cond))
            return c == 0
        can_t = not self.entails_not(cond)
        can_f = not self.entails_not(Not(cond)) if can_t else True
        if can_t and can_f:
            d.new.append(tuple(d.taken) + (1,))
            c = 0
        else:
            c = 2 if can_t else 3          # forced: no path condition needed
        d.pos += 1
        d.taken.append(c)
        st.uid = intern_uid(st.uid, c)
        if c == 0:
            self.assume(cond)
        return c in (0, 2)

    def entails_not(self, cond):
        lazy = self.spec and self.st.binders and self.under_contract is not None and self.under_contract.lazy
        return self.solver.quick_unsat(list(self.st.pc) + [cond], self.defs, slow=None if lazy else False, brief=self.spec)

    def sub_explore(self, fn, key):
        """run fn on the current state as a nested exploration, then pick one of its outcomes"""
        d = self.dec
        mk = (tuple(d.taken), key)
        if mk in d.memo:
            outs = d.memo[mk]
        else:
            outs = self.run(self.st, fn)
            d.memo[mk] = outs
        k = self.choose(len(outs))
        s, out = outs[k]
        n_base = len(self.st.pc)
        self.st.assign(s)
        if len(outs) > 1:
            self.st.uid = intern_uid(self.st.uid, ("c", k))
        return out

    # ------------------------------------------------------------ pure evaluation to a merged value
    def pure_merge(self, fn, extra=None):
        """evaluate fn in all its paths; if no path raises or changes state, merge into one value (no forking).
        returns (ok, value)"""
        st0 = self.st
        outs = self.run(st0 if extra is None else self._with(st0, extra), fn)
        n = len(st0.pc) + (1 if extra is not None else 0)
        if not outs:
            return True, None
        for s, o in outs:
            if isinstance(o, tuple) and o and o[0] == "raise":
                return False, None
            if s.trace is not st0.trace or s.epoch != st0.epoch:
                return False, None
            for cid in st0.heap:
                if s.heap.get(cid) is not st0.heap[cid]:
                    return False, None
            for fid, fr in st0.frames.items():
                f2 = s.frames.get(fid, fr)
                if len(f2) != len(fr) or any(f2.get(k) is not v for k, v in fr.items()):
                    if any(k in fr and f2.get(k) is not fr[k] for k in f2) or set(f2) - set(fr):
                        return False, None
        # adopt new cells (they are uniquely named)
        for s, o in outs:
            for cid, c in s.heap.items():
                if cid not in self.st.heap:
                    self.st.heap[cid] = c
            self.st.skolems = t_union(self.st.skolems, s.skolems)
            self.st.ctr = max(self.st.ctr, s.ctr)
        v = outs[-1][1]
        for s, o in reversed(outs[:-1]):
            c = And(s.pc[n:])
            try:
                v = self.vite(c, o, v)
            except Unsupported:
                return False, None
        if len(outs) > 1:
            self.st.uid = intern_uid(self.st.uid, "m")
        return True, v

    def _with(self, st, c):
        s = st.copy()
        s.pc.append(c)
        return s

    # ------------------------------------------------------------ heap
    def alloc(self, content):
        st = self.st
        st.ctr += 1
        cid = f"c{st.uid}.{st.ctr}"
        st.heap[cid] = content
        return Ref(cid)

    def content(self, v):
        """current content of a reference; other values unchanged"""
        if isinstance(v, Ref):
            c = self.st.heap[v.cid]
            if isinstance(c, (Ref, PRef)):
                return self.content(c)
            return c
        if isinstance(v, PRef):
            c = self.st.heap[v.cid]
            for kind, k in v.path:
                if isinstance(c, (Ref, PRef)):
                    c = self.content(c)
                if isinstance(c, Acc):
                    c = self.acc_nested(c, kind, k)
                elif kind == "key":
                    c = self.dict_get(c, k)
                else:
                    c = self.obj_field(c, k)
            if isinstance(c, (Ref, PRef)):
                return self.content(c)
            return c
        return v

    def freeze(self, v):
        """deep immutable snapshot; the cells it came from may not be mutated afterwards"""
        if isinstance(v, (Ref, PRef)):
            c = self.content(v)
            if isinstance(v, Ref):
                if isinstance(c, O) and not self.is_valuelike(c.cls):
                    return v
                self.st.moved = self.st.moved | {v.cid}
            return self.freeze(c)
        if isinstance(v, O):
            return O(v.cls, {k: self.freeze(x) for k, x in v.fields.items()})
        if isinstance(v, T):
            return T(tuple(self.freeze(x) for x in v.items), v.cls)
        return v

    def value_class(self, d):
        """class all values of a locally built dict are instances of"""
        names = {op.val.cls.name if isinstance(op.val, O) else None for _, _, op in self.flat_ops(d.ops) if op.kind in ("put", "absent", "ensure")}
        return Ty(names.pop()) if len(names) == 1 and None not in names and d.base is None else None

    def acc_nested(self, acc, kind, k):
        """write-only view of a container stored inside an accumulator"""
        vt = None
        if kind == "key":
            pre = self.content(acc.pre) if acc.pre is not None else None
            while isinstance(pre, Acc) and pre.pre is not None:
                pre = self.content(pre.pre)
            vt = pre.vty if isinstance(pre, D) else acc.tag[1].a[1] if isinstance(acc.tag, tuple) and len(acc.tag[1].a) > 1 else ANY
            if vt.n == "Any":
                for _, _, op in self.flat_ops(acc.ops):
                    if op.kind in ("ensure", "put") and isinstance(op.val, (L, St, D)):
                        n = {"L": "list", "St": "set", "D": "dict"}[type(op.val).__name__]
                        vt = Ty(n, (ANY, ANY) if n == "dict" else (ANY,))
                if vt.n == "Any" and isinstance(pre, D) and isinstance(pre.default, Cls):
                    vt = Ty(pre.default.name)
                if vt.n == "Any" and isinstance(pre, D):
                    vt = self.value_class(pre) or vt
        elif kind == "field" and isinstance(acc.tag, tuple):
            cls = self.cls_of_ty(acc.tag[1])
            vt = (self.repo.fields(cls) or {}).get(k) if cls else None
        if vt is None:
            raise Unsupported("field of an object stored in an accumulator")
        n = strip_none(vt).n
        kk = "list" if n in LISTY else "set" if n in SETY else "dict" if n in DICTY else "obj" if self.cls_of_ty(strip_none(vt)) else None
        if kk is None:
            raise Unsupported("dict accumulator lookup inside its loop")
        return Acc(kk, None, (), ("blind", strip_none(vt)))

    # ------------------------------------------------------------ inductive predicates of the specifications
    def ind_template(self, name, spec, f, fixed):
        """base and step of an inductive predicate over placeholder arguments, evaluated once, under the preconditions only"""
        con, base, step = spec
        tys = tuple(self.val_ty(a) for a in fixed)
        key = (name, tys)
        if key not in self.ind_templates:
            ty = self.repo.parse_ty(f.node.args.args[-1].annotation) if f.node.args.args[-1].annotation is not None else STR
            fx = [fresh_binder(V) for _ in fixed]
            a, b = fresh_binder(V), fresh_binder(V)
            st0 = self.st
            st = st0.copy()
            st.pc = list(st0.pc[:st0.ghost.get("base", 0)])
            st.binders = tuple(fx) + (a, b)
            self.st = st
            try:
                args = [S(x, t) for x, t in zip(fx, tys)]
                for x, t in zip(fx, tys):
                    if not is_optional(t):
                        st.pc.append(x != NONE_T)
                f1 = con.spec_formula(self, base, dict(zip(con.spec_fn(self, base)[1], args + [S(a, ty)])))
                f2 = con.spec_formula(self, step, dict(zip(con.spec_fn(self, step)[1], args + [S(a, ty), S(b, ty)])))
            finally:
                self.st = st0
            self.ind_templates[key] = (fx, a, b, f1, f2, ty)
        return self.ind_templates[key]

    def val_ty(self, v):
        v = self.content(v)
        if isinstance(v, S):
            return strip_none(v.ty)
        if isinstance(v, EnumV):
            return Ty(v.cls.name)
        raise Unsupported("structured argument of an inductive predicate")

    def inductive_app(self, name, spec, f, args):
        """least predicate P(fixed..., x) with base(fixed..., x) and step(fixed..., x, y); last argument varies"""
        fixed, x = list(args[:-1]), args[-1]
        fts = [to_term(self.content(a)) for a in fixed]
        xt = to_term(self.content(x))
        key = (name, tuple(t.get_id() for t in fts))
        P = uf("ind_" + name, "V" * len(args) + ">B")
        reg = self.inductive
        if key not in reg:
            fx, a, b, f1, f2, ty = self.ind_template(name, spec, f, fixed)
            sub = list(zip(fx, fts))
            f1, f2 = z3.substitute(f1, *sub) if sub else f1, z3.substitute(f2, *sub) if sub else f2
            reg[key] = (P, fts, f1, f2, a, b, ty, list(self.st.binders))
            self.close_def(fa([a], Imp(f1, P(*fts, a))))
            self.close_def(fa([a, b], Imp(And(P(*fts, a), f2), P(*fts, b))))
            for bs, v in list(self.induction_sets):
                self.induct_one(key, v, bs)
        return P(*fts, xt)

    def close_def(self, fact):
        bs = [b for b in self.st.binders if b.decl().name() in symbols(fact)]
        # relevant when the predicate is in use for one of these fixed arguments
        own = frozenset(n for n in symbols(fact) if n.startswith("ind_"))
        # alpha-normalised, so that the same fact found again under renamed binders is stored once
        canon = [z3.Const(f"$c{i}", b.sort()) for i, b in enumerate(bs)]
        full = fa(canon, z3.substitute(fact, *zip(bs, canon))) if bs else fact
        if full.get_id() in self.closed_ids:
            return
        self.closed_ids[full.get_id()] = full
        self.heavy.add(len(self.defs))
        self.defs.append((own, full))

    def own_fresh(self, v):
        v = self.content(v)
        if isinstance(v, S):
            return symbols(v.t)
        return frozenset()

    def induct_on(self, v):
        for key in list(self.inductive):
            self.induct_one(key, v, self.st.binders)

    def induct_one(self, key, v, binders):
        """leastness of the predicate instantiated with the set v"""
        P, fts, f1, f2, a, b, ty, bs0 = self.inductive[key]
        old = self.st.binders
        allb = tuple(binders) + tuple(x for x in bs0 if not t_in(x, binders))
        c = fresh_binder(V)
        try:
            self.st.binders = allb + (a, b, c)
            mem = lambda t: self.member(v, S(t, ty))
            fact = Imp(And(fa([a], Imp(f1, mem(a))), fa([a, b], Imp(And(mem(a), f2), mem(b)))), fa([c], Imp(P(*fts, c), mem(c))))
        finally:
            self.st.binders = old
        bs = [x for x in allb if x.decl().name() in symbols(fact)]
        self.heavy.add(len(self.defs))
        own = frozenset(n for n in self.own_fresh(v) if "!" in n)
        self.defs.append((own or frozenset([P.name()]), fa(bs, fact) if bs else fact))

    def freeze_copy(self, v):
        """snapshot of a value for old(...): later mutation of the cells is allowed"""
        m = self.st.moved
        r = self._snap(v)
        self.st.moved = m
        return r

    def _snap(self, v):
        if isinstance(v, (Ref, PRef)):
            return self._snap(self.content(v))
        if isinstance(v, O):
            return O(v.cls, {k: self._snap(x) for k, x in v.fields.items()})
        if isinstance(v, T):
            return T(tuple(self._snap(x) for x in v.items), v.cls)
        return v

    def effect_arg(self, v):
        return self.freeze_copy(v)

    def assume_def(self, f):
        """callee postcondition: holds on this path"""
        for c in conj(f):
            if z3.is_false(c):
                raise Infeasible
            self.define(c) if not self.st.binders else self.define(c)

    def is_valuelike(self, cls):
        return cls.node is not None and self.repo.is_dataclass(cls) or cls.node is None

    def write(self, v, newc):
        if isinstance(v, Ref):
            if v.cid in self.st.moved:
                raise Unsupported("mutation of a container after it was stored in another one")
            self.st.heap[v.cid] = newc
            return
        raise Unsupported("write through " + type(v).__name__)

    # ------------------------------------------------------------ collections
    def elem_ty(self, ty):
        if ty.n in LISTY or ty.n in SETY:
            return ty.a[0] if ty.a else ANY
        if ty.n in DICTY:
            return ty.a[0] if ty.a else ANY
        return ANY

    def wrap(self, t, ty):
        """value for a term of sort V (or I/B) with the given type"""
        if t.sort() == INT:
            return I(t)
        if t.sort() == BOOL:
            return B(t)
        if ty.n == "int":
            return I(app("unbox_int", "V>I", t))
        if ty.n == "bool":
            return B(app("unbox_bool", "V>B", t))
        if ty.n == "None":
            return NONE
        if ty.n == "tuple":
            return T(tuple(self.wrap(app(f"proj{i}", "V>V", t), x) for i, x in enumerate(ty.a)))
        return S(t, ty)

    def opaque_list_segs(self, t, ty, lo=None, hi=None, rev=False):
        i = fresh_binder(INT, "i")
        d = Dom("list", t, lo if lo is not None else z3.IntVal(0), hi if hi is not None else self.length_term(t), rev)
        return (G(i, d, TRUE, (U(TRUE, self.wrap(app("at", "VI>V", t, i), self.elem_ty(ty))),)),)

    def length_term(self, t):
        n = app("len", "V>I", t)
        return n

    def segs(self, v):
        """elements of v in iteration order, as comprehension segments"""
        c = self.content(v)
        if isinstance(c, (L, St)):
            return c.segs
        if isinstance(c, T):
            return tuple(U(TRUE, x) for x in c.items)
        if isinstance(c, D):
            return self.dict_key_segs(c)
        if isinstance(c, Acc):
            raise Unsupported("iteration over an accumulator inside its loop")
        if isinstance(c, EnumV):
            raise Unsupported("iterate enum")
        if isinstance(c, Cls):
            ms = self.enum_members(c)
            if len(ms) <= 4:
                return tuple(U(TRUE, e) for e in ms)
            x = fresh_binder(V)
            return (G(x, Dom("set", self.enum_set(c)), TRUE, (U(TRUE, S(x, Ty(c.name))),)),)
        if isinstance(c, S):
            ty = strip_none(c.ty)
            if c.lit is not None and isinstance(c.lit, str):
                return tuple(U(TRUE, pstr(ch)) for ch in c.lit)
            if ty.n in LISTY:
                return self.opaque_list_segs(c.t, ty)
            if ty.n in SETY:
                x = fresh_binder(V)
                return (G(x, Dom("set", c.t), TRUE, (U(TRUE, self.wrap(x, self.elem_ty(ty))),)),)
            if ty.n in DICTY:
                x = fresh_binder(V)
                return (G(x, Dom("keys", c.t), TRUE, (U(TRUE, self.wrap(x, self.elem_ty(ty))),)),)
            it = self.class_method(c, "__iter__")
            if it is not None:
                return self.segs(self.call(it, [], {}))
        if isinstance(c, O):
            it = self.class_method(v, "__iter__")
            if it is not None:
                return self.segs(self.call(it, [], {}))
        raise Unsupported(f"iterate {type(c).__name__} {getattr(c, 'ty', '')}")

    def dict_key_segs(self, d: D):
        kt = d.kty
        if d.base is None and all(isinstance(s, U) and z3.is_true(s.g) and s.v.kind in ("put", "ensure") for s in d.ops):
            out = []
            for s in d.ops:
                k = s.v.key
                if any(z3.is_true(self.eq(k, o.v)) for o in out):
                    continue
                if all(z3.is_false(self.eq(k, o.v)) for o in out):
                    out.append(U(TRUE, k))
                else:
                    out.append(U(And([Not(self.eq(k, o.v)) for o in out]), k))
            return tuple(out)
        if d.base is not None and not d.ops:
            x = fresh_binder(V)
            return (G(x, Dom("keys", d.base), TRUE, (U(TRUE, self.wrap(x, kt)),)),)
        x = fresh_binder(V)
        xv = self.wrap(x, kt)
        return (G(x, Dom("pred", segs=self.dict_dom_segs(d)), TRUE, (U(TRUE, xv),)),)

    def dict_dom_segs(self, d: D):
        """set comprehension of the keys"""
        out = ()
        if d.base is not None:
            x = fresh_binder(V)
            out += (G(x, Dom("keys", d.base), TRUE, (U(TRUE, self.wrap(x, d.kty)),)),)

        def keys(segs):
            r = []
            for s in segs:
                if isinstance(s, U):
                    if s.v.kind in ("put", "absent", "ensure"):
                        r.append(U(s.g, s.v.key))
                    elif s.v.kind == "sub":
                        pass
                    elif s.v.kind == "del":
                        raise Unsupported("keys of dict with deletions")
                else:
                    s = rename(s)
                    b = keys(s.body)
                    if b:
                        r.append(G(s.var, s.dom, s.g, tuple(b)))
            return tuple(r)
        def only_dels(s):
            return s.v.kind == "del" if isinstance(s, U) else all(only_dels(t) for t in s.body)
        if any(only_dels(s) for s in d.ops):
            # deletions of a whole loop: filter what came before
            cur = out
            for s in d.ops:
                if only_dels(s):
                    def gone(k, s=s):
                        return Or([ex([v for v, _ in ch], And(g, self.eq(op.key, k))) if ch else And(g, self.eq(op.key, k)) for ch, g, op in self.flat_ops((s,))])
                    cur = filter_segs(cur, lambda k, gone=gone: Not(gone(k)))
                else:
                    cur = cur + keys((s,))
            return cur
        return out + keys(d.ops)

    def distinct_puts(self, d):
        """the dict was filled by puts of pairwise different keys only (proved): its items are exactly what was put"""
        if d.base is not None:
            return False
        a = list(self.flat_ops(d.ops))
        b = list(self.flat_ops(d.ops))
        if not a or any(op.kind != "put" for _, _, op in a):
            return False
        for i, (ca, ga, oa) in enumerate(a):
            for j, (cb, gb, ob) in enumerate(b):
                if j < i:
                    continue
                f = [ga, gb, self.eq(oa.key, ob.key)]
                if i == j:
                    if not ca:
                        continue
                    f.append(Not(And([x == y for (x, _), (y, _) in zip(ca, cb)])))
                if any(z3.is_false(x) for x in f):
                    continue
                if not self.solver.quick_unsat(list(self.st.pc) + f, self.defs, slow=True):
                    return False
        return True

    def dict_has(self, d, k):
        d = self.content(d)
        if isinstance(d, S):
            return app("has", "VV>B", d.t, to_term(k))
        if isinstance(d, Acc):
            return self.acc_member(d, k)
        return seg_member(self.dict_dom_segs(d), lambda v: self.eq(v, k))

    def acc_atom(self, acc, k):
        name = f"acc!{acc.tag}"
        bs = self.st.binders
        args = ([to_term(k)] if k is not None else []) + list(bs)
        f = z3.Function(name if k is not None else name + "?ne", *[a.sort() for a in args], BOOL)
        a = f(*args) if args else z3.Bool(name + "?ne")
        self.atoms.setdefault(acc.tag, []).append(a)
        return a

    def acc_member(self, acc: Acc, k):
        if acc.pre is None:
            raise Unsupported("read of a container nested in an accumulator")
        pre = self.content(acc.pre)
        own = []
        if acc.kind == "dict":
            own = seg_member(tuple(s for s in acc.ops), lambda o: self.eq(o.key, k) if o.kind in ("put", "absent", "ensure") else FALSE)
        else:
            own = seg_member(acc.ops, lambda v: self.eq(v, k))
        return Or(own, self.acc_atom(acc, k))

    MISSING = object()

    def own_key(self, acc, k):
        """the dict as the current iteration sees it at its own element: the elements are different from each other, and
        (checked after the iteration) the body changes the entry of its own element only"""
        if acc.kind != "dict" or isinstance(k, Val) and not isinstance(k, S):
            return None
        x = str(acc.tag).rsplit("@", 1)[-1]
        if not (z3.is_const(k.t) and str(k.t) == x) or k.t.sort() != V:
            return None
        pre = self.content(acc.pre)
        if not isinstance(pre, (D, S)):
            return None
        pre = self.as_dict(pre)
        self.own_keyed.add(acc.tag)
        return D(pre.base, pre.ops + tuple(acc.ops), pre.kty, pre.vty, pre.default)

    def check_own_keyed(self, outs, W, x, g):
        for loc in W:
            if loc[0] != "h":
                continue
            for s, o in outs:
                acc = s.heap.get(loc[1])
                if isinstance(acc, Acc) and acc.tag in self.own_keyed and str(acc.tag).rsplit("@", 1)[-1] == str(x):
                    if x.sort() != V or g.dom.kind not in ("keys", "set"):
                        raise Unsupported("entry of the loop element changed in a loop over a list")
                    for _, _, op in self.flat_ops(acc.ops):
                        if not (isinstance(op.key, S) and op.key.t.eq(x)):
                            raise Unsupported("entries of several elements changed in one iteration")

    def flat_ops(self, ops, chain=(), guard=TRUE):
        for s in ops:
            if isinstance(s, U):
                yield chain, And(guard, s.g), s.v
            else:
                s = rename(s)
                yield from self.flat_ops(s.body, chain + ((s.var, s.dom),), And(guard, s.dom.mem(s.var), s.g))

    def dict_get(self, d, k):
        d = self.content(d)
        if isinstance(d, S):
            ty = strip_none(d.ty)
            vt = ty.a[1] if ty.n in DICTY and len(ty.a) > 1 else ANY
            return self.wrap(app("get", "VV>V", d.t, to_term(k)), vt)
        if isinstance(d, Acc):
            raise Unsupported("dict accumulator lookup inside its loop")
        cur, has = self.MISSING, FALSE
        if d.base is not None:
            cur = self.wrap(app("get", "VV>V", d.base, to_term(k)), d.vty)
            has = app("has", "VV>B", d.base, to_term(k))
        for chain, g, op in self.flat_ops(d.ops):
            if op.kind == "del":
                c = And(g, self.eq(op.key, k))
                has = And(has, Not(c))
                continue
            c = And(g, self.eq(op.key, k))
            if z3.is_false(c):
                continue
            if op.kind == "sub":
                base = cur
                segs_ = op.val
                if base is self.MISSING:
                    base = self.empty_like(d)
                # elements contributed under the binder chain, guarded by c
                body = guard_segs(c, segs_)
                body = self.rechain(chain, body)
                cur = self.apply_ops(base, body)
                continue
            if op.kind == "ensure":
                dv = op.val
                exc = ex([v for v, _ in chain], c) if chain else c
                cur = dv if cur is self.MISSING else self.vite(Or(has, Not(exc)), cur, dv)
                has = Or(has, exc)
                continue
            # put / absent
            vs = [v for v, _ in chain]
            cond, val = c, op.val
            rest = []
            for v in vs:
                sol = solve_eq(v, conj(cond))
                if sol:
                    t, rr = sol
                    sb = Sub([(v, t)])
                    cond = sb.t(And(rr))
                    val = subst(val, sb)
                    rest = [x for x in rest]
                elif v.decl().name() in symbols(cond):
                    rest.append(v)
            if rest:
                ws = self.witnesses(rest, cond)
                exc = ex(rest, cond)
                sb = Sub(list(zip(rest, ws)))
                cond, val = exc, subst(val, sb)
            if op.kind == "absent":
                cond = And(cond, Not(has))
            cur = val if cur is self.MISSING else self.vite(cond, val, cur)
            has = Or(has, cond)
        if cur is self.MISSING:
            raise Unsupported("lookup of absent key")
        return cur

    def rechain(self, chain, body):
        """rebuild nested G around body (guards already include the domain memberships)"""
        for v, d in reversed(chain):
            body = (G(v, d, TRUE, tuple(body)),)
        return tuple(body)

    def empty_like(self, d):
        if d.default is not None:
            return self.default_value(d)
        if d.vty.n in SETY:
            return St(())
        if d.vty.n in LISTY:
            return L(())
        if d.vty.n in DICTY:
            return D(None, (), *(d.vty.a if len(d.vty.a) == 2 else (ANY, ANY)))
        raise Unsupported("nested update of unknown container type")

    def default_value(self, d):
        f = d.default
        if isinstance(f, Cls):
            if f.name in ("set", "list", "dict"):
                return {"set": St(()), "list": L(()), "dict": D(None, ())}[f.name]
            if f.name in ("int",):
                return I(z3.IntVal(0))
        r = self.call(f, [], {})
        return self.freeze(r)

    def apply_ops(self, val, segs):
        val = self.content(val)
        if isinstance(val, L):
            return L(val.segs + tuple(segs), val.kind)
        if isinstance(val, St):
            return St(val.segs + tuple(segs), val.frozen)
        if isinstance(val, D):
            return D(val.base, val.ops + tuple(segs), val.kty, val.vty, val.default)
        if isinstance(val, S):
            ty = strip_none(val.ty)
            if ty.n in SETY:
                return St(self.segs(val) + tuple(segs))
            if ty.n in LISTY:
                return L(self.segs(val) + tuple(segs))
            if ty.n in DICTY:
                return self.apply_ops(self.as_dict(val), segs)
            val = self.obj_of(val)
        if isinstance(val, O):
            f = dict(val.fields)
            names = {op.key for _, _, op in self.flat_ops(segs)}

            def part(ss, n):
                r = []
                for s in ss:
                    if isinstance(s, U):
                        if s.v.key == n:
                            r.extend(guard_segs(s.g, s.v.val))
                    else:
                        b = part(s.body, n)
                        if b:
                            r.append(G(s.var, s.dom, s.g, tuple(b)))
                return tuple(r)
            for n in names:
                f[n] = self.apply_ops(f[n] if n in f else self.obj_field(val, n), part(segs, n))
            return O(val.cls, f)
        raise Unsupported("apply_ops " + type(val).__name__)

    def as_dict(self, v):
        c = self.content(v)
        if isinstance(c, D):
            return c
        if isinstance(c, S):
            ty = strip_none(c.ty)
            kt, vt = (ty.a + (ANY, ANY))[:2] if ty.n in DICTY else (ANY, ANY)
            dflt = None
            if ty.n == "defaultdict":
                dflt = Cls(vt.n) if vt.n in ("set", "list", "dict") else self.cls_of_ty(vt)
            return D(c.t, (), kt, vt, dflt)
        raise Unsupported("as_dict " + type(c).__name__)

    def debase(self, d: D):
        if d.base is None:
            return d
        x = fresh_binder(V)
        k = self.wrap(x, d.kty)
        v = self.wrap(app("get", "VV>V", d.base, x), d.vty)
        return D(None, (G(x, Dom("keys", d.base), TRUE, (U(TRUE, Op("put", k, v)),)),) + d.ops, d.kty, d.vty, d.default)

    def obj_of(self, s: S):
        """structured view of an opaque dataclass instance"""
        cls = self.cls_of_ty(strip_none(s.ty))
        flds = self.repo.fields(cls) if cls else None
        if not flds:
            raise Unsupported(f"structured view of {s.ty}")
        return O(cls, {n: self.field_of(s, n, t) for n, t in flds.items()})

    def cls_of_ty(self, ty):
        return self.repo.class_by_name(ty.n)

    def field_of(self, s, name, ty):
        owner = strip_none(s.ty).n
        if ty.n == "int":
            return I(app(f"{owner}.{name}", "V>I", s.t))
        if ty.n == "bool":
            return B(app(f"{owner}.{name}", "V>B", s.t))
        sig = "V>V"
        t = app(f"{owner}.{name}", sig, s.t)
        if not is_optional(ty) and f"{owner}.{name}" not in self.repo.nn:
            self.repo.nn.add(f"{owner}.{name}")
            x = z3.Const("x", V)
            axiom(f"{owner}.{name}", z3.ForAll([x], uf(f"{owner}.{name}", sig)(x) != NONE_T, patterns=[uf(f"{owner}.{name}", sig)(x)]))
        return self.wrap(t, ty)

    def obj_field(self, o, name):
        o = self.content(o)
        if isinstance(o, O):
            if name in o.fields:
                return o.fields[name]
        if isinstance(o, S):
            cls = self.cls_of_ty(strip_none(o.ty))
            if cls is not None:
                f = self.repo.fields(cls)
                if f and name in f:
                    return self.field_of(o, name, f[name])
        raise Unsupported(f"field {name} of {type(o).__name__} {getattr(o, 'ty', getattr(o, 'cls', ''))}")

    # ------------------------------------------------------------ value operations
    def vite(self, c, a, b):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if isinstance(a, (Ref, PRef)) and isinstance(b, (Ref, PRef)):
            if isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid:
                return a
        if isinstance(a, (Ref, PRef)):
            a = self.freeze(a)
        if isinstance(b, (Ref, PRef)):
            b = self.freeze(b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and not isinstance(a, Val):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, B) and isinstance(b, B):
            return B(Or(And(c, a.t), And(Not(c), b.t)) if not (z3.is_true(a.t) and z3.is_false(b.t)) else c)
        if isinstance(a, I) and isinstance(b, I):
            return I(z3.If(c, a.t, b.t) if not a.t.eq(b.t) else a.t)
        if isinstance(a, T) and isinstance(b, T) and len(a.items) == len(b.items):
            return T(tuple(self.vite(c, x, y) for x, y in zip(a.items, b.items)), a.cls)
        sa, sb = self.scalar(a), self.scalar(b)
        if sa is not None and sb is not None:
            if sa.t.eq(sb.t):
                return S(sa.t, union(sa.ty, sb.ty))
            if z3.is_not(c):
                return S(z3.If(c.arg(0), sb.t, sa.t), union(sa.ty, sb.ty))
            return S(z3.If(c, sa.t, sb.t), union(sa.ty, sb.ty))
        if isinstance(a, O) and not isinstance(b, O) and isinstance(b, S) and self.cls_of_ty(strip_none(b.ty)):
            b = self.obj_of(b)
        if isinstance(b, O) and not isinstance(a, O) and isinstance(a, S) and self.cls_of_ty(strip_none(a.ty)):
            a = self.obj_of(a)
        if isinstance(a, O) and isinstance(b, O) and a.cls.name == b.cls.name:
            return O(a.cls, {k: self.vite(c, a.fields[k], b.fields[k]) for k in a.fields})

        def kind(v):
            if isinstance(v, (L,)):
                return "l"
            if isinstance(v, St):
                return "s"
            if isinstance(v, D):
                return "d"
            if isinstance(v, S):
                n = strip_none(v.ty).n
                return "l" if n in LISTY else "s" if n in SETY else "d" if n in DICTY else "?"
            return "?"
        ka, kb = kind(a), kind(b)
        if ka == kb == "l":
            return L(guard_segs(c, self.segs(a)) + guard_segs(Not(c), self.segs(b)))
        if ka == kb == "s":
            return St(guard_segs(c, self.segs(a)) + guard_segs(Not(c), self.segs(b)))
        if ka == kb == "d":
            da, db = self.as_dict(a), self.as_dict(b)
            if da.base is not None and db.base is not None and da.base.eq(db.base):
                return D(da.base, guard_segs(c, da.ops) + guard_segs(Not(c), db.ops), da.kty, da.vty, da.default)
            x, y = self.debase(da), self.debase(db)
            return D(None, guard_segs(c, x.ops) + guard_segs(Not(c), y.ops), da.kty if da.kty != ANY else db.kty,
                     da.vty if da.vty != ANY else db.vty, da.default)
        raise Unsupported(f"merge {type(a).__name__} with {type(b).__name__}")

    def scalar(self, v):
        if isinstance(v, S):
            return v
        if isinstance(v, EnumV):
            return S(enum_term(v), Ty(v.cls.name))
        return None

    def eq(self, a, b):
        """formula for a == b"""
        a, b = self.content(a), self.content(b)
        if isinstance(a, Pre) or isinstance(b, Pre):
            raise Unsupported("loop-carried value compared")
        if isinstance(a, B) and isinstance(b, B):
            return Eq(a.t, b.t) if not (z3.is_true(a.t) or z3.is_true(b.t)) else (b.t if z3.is_true(a.t) else a.t)
        if isinstance(a, I) and isinstance(b, I):
            return Eq(a.t, b.t)
        if isinstance(a, EnumV) and isinstance(b, EnumV):
            return z3.BoolVal(a.cls.name == b.cls.name and a.member == b.member)
        if isinstance(a, T) and isinstance(b, T):
            if len(a.items) != len(b.items):
                return FALSE
            return And([self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, T) and isinstance(b, S) or isinstance(b, T) and isinstance(a, S):
            t, s = (a, b) if isinstance(a, T) else (b, a)
            if s.ty.n in ("str", "Path", "None") or s.t.eq(NONE_T):
                return FALSE
            return And([self.eq(c, self.wrap(app(f"proj{i}", "V>V", s.t), ANY)) if not isinstance(c, T) else
                        self.eq(c, S(app(f"proj{i}", "V>V", s.t))) for i, c in enumerate(t.items)] +
                       [app("tuple_len", "V>I", s.t) == len(t.items)] if s.ty.n not in ("tuple",) else [])
        sa, sb = self.scalar(a), self.scalar(b)
        if sa is not None and sb is not None:
            ta, tb = strip_none(sa.ty), strip_none(sb.ty)
            if ta.n in SETY and tb.n in SETY:
                return self.set_eq(a, b)
            return Eq(sa.t, sb.t)
        if isinstance(a, Cls) and isinstance(b, Cls):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, (Cls,)) or isinstance(b, (Cls,)):
            return FALSE
        if (isinstance(a, (B, I)) and sb is not None) or (isinstance(b, (B, I)) and sa is not None):
            x, s = (a, sb) if sb is not None else (b, sa)
            if s.ty.n in ("str", "Path", "None", "bytes") or s.t.eq(NONE_T):
                return FALSE
            return Eq(to_term(x), s.t)
        ka, kb = self.kind(a), self.kind(b)
        if ka != kb and "?" not in (ka, kb):
            return FALSE
        if ka == kb == "s":
            return self.set_eq(a, b)
        if ka == kb == "d":
            return self.dict_eq(a, b)
        if ka == kb == "l":
            return self.lists_equal(self.segs(a), self.segs(b))
        if isinstance(a, O) and isinstance(b, S) or isinstance(b, O) and isinstance(a, S):
            o, s = (a, b) if isinstance(a, O) else (b, a)
            if s.t.eq(NONE_T):
                return FALSE
            if "$term" in o.fields:
                return Eq(o.fields["$term"].t, s.t)
            if strip_none(s.ty).n == o.cls.name:
                so = self.obj_of(s)
                r = And([self.eq(o.fields[k], so.fields[k]) for k in so.fields if k in o.fields])
                return And(s.t != NONE_T, r) if is_optional(s.ty) else r
            return FALSE
        if isinstance(a, O) and isinstance(b, O):
            if a.cls.name != b.cls.name:
                return FALSE
            return And([self.eq(a.fields[k], b.fields[k]) for k in a.fields])
        if isinstance(a, S) and a.t.eq(NONE_T) or isinstance(b, S) and b.t.eq(NONE_T):
            return FALSE
        raise Unsupported(f"== on {type(a).__name__}/{type(b).__name__}")

    def kind(self, v):
        if isinstance(v, L):
            return "l" if v.kind == "list" else "t"
        if isinstance(v, Acc):
            return {"list": "l", "set": "s", "dict": "d"}[v.kind]
        if isinstance(v, St):
            return "s"
        if isinstance(v, D):
            return "d"
        if isinstance(v, S):
            n = strip_none(v.ty).n
            return "l" if n in ("list", "iter") else "t" if n == "tuple*" else "s" if n in SETY else "d" if n in DICTY else "?"
        return "?"

    def set_eq(self, a, b):
        return And(self.subset(a, b), self.subset(b, a))

    def subset(self, a, b):
        return seg_forall(self.segs(a), lambda v: self.member(b, v))

    def dict_eq(self, a, b):
        a, b = self.as_dict(a), self.as_dict(b)
        ks = self.dict_dom_segs(a) + self.dict_dom_segs(b)

        def one(k):
            return And(self.dict_has(a, k), self.dict_has(b, k), self.eq(self.dict_get(a, k), self.dict_get(b, k)))
        return self.forall_in_scope(ks, one)

    def forall_in_scope(self, segs, pred):
        """seg_forall whose predicate may introduce fresh symbols: binders pushed into scope"""
        out = []
        for s in segs:
            if isinstance(s, U):
                out.append(Imp(s.g, pred(s.v)))
            else:
                s = rename(s)
                old = self.st.binders
                self.st.binders = old + (s.var,)
                n = len(self.st.pc)
                h = And(s.dom.mem(s.var), s.g)
                try:
                    inner = self.forall_in_scope(s.body, pred)
                finally:
                    self.st.binders = old
                    del self.st.pc[n:]
                out.append(forall1(s.var, h, inner))
        return And(out)

    def unknown_eq(self, sa, sb):
        """truth value of a comparison that cannot be decided here: arbitrary; equal lists have the same elements"""
        c = self.fresh("eq?", BOOL)
        if getattr(self, "in_set_eq", False):
            return c
        self.in_set_eq = True
        try:
            same = self.set_eq(St(sa), St(sb))
        except Unsupported:
            return c
        finally:
            self.in_set_eq = False
        self.define(Imp(c, same), owner=str(c.decl().name()))
        for xs, ys in ((sa, sb), (sb, sa)):
            # a list compared with a filtered copy of it and further elements
            if len(ys) == 1 and xs and isinstance(xs[0], G) and isinstance(ys[0], G) and xs[0].dom.same(ys[0].dom):
                a, b = xs[0], rename(ys[0])
                a = a.subst(Sub([(a.var, b.var)])) if False else G(b.var, a.dom, Sub([(a.var, b.var)]).t(a.g), tuple(t.subst(Sub([(a.var, b.var)])) for t in a.body))
                if len(a.body) == 1 and len(b.body) == 1 and isinstance(a.body[0], U) and isinstance(b.body[0], U):
                    ea, eb = self.eq(a.body[0].v, b.body[0].v), And(b.g, b.body[0].g)
                    ga = And(a.g, a.body[0].g)
                    v = b.var
                    sub = fa([v], Imp(And(b.dom.mem(v), ga), And(eb, ea)))
                    kept = fa([v], Imp(And(b.dom.mem(v), eb), ga))
                    rest = seg_nonempty(xs[1:])
                    self.define(Imp(And(sub, Not(rest)), c == kept), owner=str(c.decl().name()))
        return c

    def exclusive(self, segs):
        """single elements under pairwise contradictory conditions"""
        if not all(isinstance(s, U) for s in segs):
            return False
        ls = [[literal(c) for c in conj(s.g)] for s in segs]

        def contra(i, j):
            for a, v in ls[i]:
                for b, w in ls[j]:
                    if v != w and a.eq(b):
                        return True
            return self.solver.quick_unsat([segs[i].g, segs[j].g], [])
        return all(contra(i, j) for i in range(len(ls)) for j in range(i))

    def lists_equal(self, sa, sb):
        """truth value of list equality: exact where the parts correspond one to one, otherwise a truth value bound from both sides"""
        was, self.approx = getattr(self, "approx", False), False
        outer, self.in_list_eq = getattr(self, "in_list_eq", False), not getattr(self, "in_set_eq", False)
        try:
            f = self.list_eq(sa, sb)
            approx = self.approx
        finally:
            self.approx, self.in_list_eq = was, outer
        if approx and outer and not getattr(self, "in_set_eq", False):
            self.approx = True      # elements of lists that are being compared: the comparison of the lists is bound from both sides
            return f
        if not approx or z3.is_true(f):
            return f
        c = self.unknown_eq(sa, sb)
        self.define(Imp(f, c), owner=str(c.decl().name()))
        self.eq_suff[c.get_id()] = (c, f)
        return c

    def strengthen(self, g):
        """a sufficient condition for the goal g: comparisons in positive position replaced by what establishes them"""
        if z3.is_and(g):
            return And([self.strengthen(x) for x in g.children()])
        if z3.is_or(g):
            return Or([self.strengthen(x) for x in g.children()])
        if z3.is_implies(g):
            return Imp(g.arg(0), self.strengthen(g.arg(1)))
        hit = self.eq_suff.get(g.get_id())
        return hit[1] if hit is not None and hit[0].eq(g) else g

    def positions_agree(self, xs, ys):
        """both segment lists have elements at the same positions"""
        if len(xs) != len(ys):
            return False
        for x, y in zip(xs, ys):
            if isinstance(x, U) != isinstance(y, U):
                return False
            if not z3.simplify(x.g).eq(z3.simplify(y.g)):
                return False
            if isinstance(x, G):
                if not x.dom.same(y.dom) or x.var.sort() != y.var.sort():
                    return False
                if not self.positions_agree(x.body, tuple(b.subst(Sub([(y.var, x.var)])) for b in y.body)):
                    return False
        return True

    def list_eq(self, sa, sb, done=()):
        sa, sb = self.norm_list(sa), self.norm_list(sb)
        if not sa and not sb:
            return TRUE
        if not sa:
            return Not(seg_nonempty(sb))
        if not sb:
            return Not(seg_nonempty(sa))
        cases = self.hoisted(sa, sb)
        if cases is not None:
            return And([Imp(c, self.list_eq(a, b, done)) for c, a, b in cases])
        if len(sa) != len(sb) or any(isinstance(x, U) != isinstance(y, U) for x, y in zip(sa, sb)):
            # parts over an empty list are not there
            for s in sa + sb:
                if isinstance(s, G) and s.dom.kind == "list":
                    a = s.dom.hi > s.dom.lo
                    if any(a.eq(d) for d in done):
                        continue

                    def without(segs):
                        return tuple(t for t in segs if not (isinstance(t, G) and t.dom.kind == "list" and (t.dom.hi > t.dom.lo).eq(a)))
                    return And(Imp(a, self.list_eq(sa, sb, done + (a,))), Imp(Not(a), self.list_eq(without(sa), without(sb), done)))
        if len(sa) != len(sb):
            if self.exclusive(sa) and self.exclusive(sb):       # at most one element each
                out = [Or([x.g for x in sa]) == Or([y.g for y in sb])]
                for x in sa:
                    for y in sb:
                        both = z3.simplify(And(x.g, refine(y.g, x.g)))
                        if not z3.is_false(both):
                            out.append(Imp(And(x.g, y.g), self.eq(refine(refine(x.v, x.g), y.g), refine(refine(y.v, x.g), y.g))))
                return And(out)
            return self.unknown_eq(sa, sb)
        out = []
        for x, y in zip(sa, sb):
            if isinstance(x, U) and isinstance(y, U):
                if not x.g.eq(y.g) and len(sa) > 1:
                    return self.unknown_eq(sa, sb)
                out.append(And(x.g == y.g if not (x.g.eq(y.g)) else TRUE, Imp(x.g, self.eq(x.v, y.v))))
            elif isinstance(x, G) and isinstance(y, G) and x.var.sort() == y.var.sort():
                if not x.dom.same(y.dom):
                    if x.dom.order == y.dom.order == "sorted" and x.dom.rev == y.dom.rev and ident_g(x) and ident_g(y):
                        self.approx = self.approx or len(sa) > 1
                        b = fresh_binder(V)
                        gx, gy = z3.substitute(x.g, (x.var, b)), z3.substitute(y.g, (y.var, b))
                        out.append(fa([b], And(x.dom.mem(b), gx) == And(y.dom.mem(b), gy)))
                        continue
                    if x.dom.kind == y.dom.kind == "list" and x.dom.rev == y.dom.rev:
                        dd = And(Eq(x.dom.term, y.dom.term), Eq(x.dom.lo, y.dom.lo), Eq(x.dom.hi, y.dom.hi))
                    else:
                        return self.unknown_eq(sa, sb)
                else:
                    dd = TRUE
                v = fresh_binder(x.var.sort())
                xs, ys = Sub([(x.var, v)]), Sub([(y.var, v)])
                bx = tuple(s.subst(xs) for s in guard_segs(x.g, x.body))
                by = tuple(s.subst(ys) for s in guard_segs(y.g, y.body))
                if not self.positions_agree(bx, by):
                    self.approx = True
                outer = self.st.binders
                self.st.binders = outer + (v,)
                try:
                    inner = self.list_eq(bx, by)
                finally:
                    self.st.binders = outer
                same = z3.ForAll([v], Imp(x.dom.mem(v), inner))
                if z3.is_true(dd) or ident_g(x) and ident_g(y):
                    if not z3.is_true(dd):
                        self.approx = True
                    out.append(And(dd, same))
                else:
                    # lists built from different lists: equal if the sources are
                    if len(sa) == 1:
                        c = self.unknown_eq(sa, sb)
                    else:
                        c = self.fresh("eq?", BOOL)
                    self.define(Imp(And(dd, same), c))
                    out.append(c)
            else:
                return self.unknown_eq(sa, sb)
        return And(out)

    def hoisted(self, sa, sb):
        """case split on conditions that hold for whole parts of a list: [(condition, list, list)]"""
        if len(sa) == len(sb) and all(isinstance(x, U) and isinstance(y, U) and (len(sa) == 1 or x.g.eq(y.g)) for x, y in zip(sa, sb)):
            return None
        atoms = []

        def outer(s):
            """conditions that do not depend on the element"""
            if isinstance(s, U):
                return conj(s.g)
            gs = conj(s.g)
            if len(s.body) == 1:
                gs = gs + conj(s.body[0].g)
            n = s.var.decl().name()
            return [g for g in gs if n not in symbols(g)]
        for s in sa + sb:
            for g in outer(s):
                leaves = [g]
                while leaves:
                    g = leaves.pop(0)
                    if z3.is_not(g):
                        leaves.append(g.arg(0))
                    elif z3.is_and(g) or z3.is_or(g):
                        leaves.extend(g.children())
                    elif not z3.is_true(g) and not z3.is_false(g) and not any(g.eq(a) for a in atoms):
                        atoms.append(g)
        if not atoms or len(atoms) > 3:
            return None

        def under(segs, vals):
            pairs = [(a, z3.BoolVal(v)) for a, v in vals]

            def simp(g):
                return z3.simplify(z3.substitute(g, *pairs))
            r = []
            for s in segs:
                if isinstance(s, U):
                    g = simp(s.g)
                    if not z3.is_false(g):
                        r.append(U(g, s.v))
                    continue
                g = simp(s.g)
                body = s.body
                if len(body) == 1:
                    g2 = simp(body[0].g)
                    if z3.is_false(g2):
                        continue
                    b0 = body[0]
                    body = (U(g2, b0.v) if isinstance(b0, U) else G(b0.var, b0.dom, g2, b0.body),)
                if not z3.is_false(g):
                    r.append(G(s.var, s.dom, g, body))
            return tuple(r)
        out = []
        for bits in itertools.product((True, False), repeat=len(atoms)):
            vals = list(zip(atoms, bits))
            a, b = under(sa, vals), under(sb, vals)
            out.append((And([t if v else Not(t) for t, v in vals]), a, b))
        return out

    def norm_list(self, segs):
        """drop empty parts, merge mutually exclusive guarded units when their union is one element"""
        return tuple(s for s in segs if not (isinstance(s, U) and z3.is_false(s.g)))

    def member(self, coll, v):
        c = self.content(coll)
        if isinstance(c, Acc):
            return self.acc_member(c, v)
        if isinstance(c, D):
            return self.dict_has(c, v)
        if isinstance(c, S):
            ty = strip_none(c.ty)
            if ty.n in SETY:
                return self._in_opaque("in", c.t, v)
            if ty.n in DICTY:
                return self._in_opaque("has", c.t, v)
            if ty.n in ("str",) or c.lit is not None:
                return app("str_contains", "VV>B", c.t, to_term(v))
            if ty.n == "Any":
                raise Unsupported("membership in untyped value")
        if isinstance(c, L) and c.raw is not None:
            return seg_member(c.raw, lambda e: self.eq(e, v))
        if isinstance(c, (L, St)) or isinstance(c, (T, S, Cls)):
            return seg_member(self.segs(c), lambda e: self.eq(e, v))
        if isinstance(c, O):
            m = self.class_method(coll, "__contains__")
            if m:
                return self.truth(self.call(m, [v], {}))
        raise Unsupported(f"membership in {type(c).__name__}")

    def _in_opaque(self, f, t, v):
        v = self.content(v)
        return app(f, "VV>B", t, to_term(v))

    def truth(self, v):
        v = self.content(v)
        if isinstance(v, B):
            return v.t
        if isinstance(v, I):
            return v.t != 0
        if isinstance(v, Acc) and v.pre is None:
            raise Unsupported("read of a container nested in an accumulator")
        if isinstance(v, Acc):
            own = seg_nonempty(v.ops)
            return Or(own, self.acc_atom(v, None))
        if isinstance(v, (L, St)):
            return seg_nonempty(v.segs)
        if isinstance(v, T):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, D):
            return seg_nonempty(self.dict_dom_segs(v))
        if isinstance(v, S):
            if v.lit is not None:
                return z3.BoolVal(bool(v.lit))
            if v.t.eq(NONE_T):
                return FALSE
            ty = strip_none(v.ty)
            opt = is_optional(v.ty)
            nn = v.t != NONE_T if opt else TRUE
            if ty.n in LISTY or ty.n == "bytes":
                return And(nn, app("len", "V>I", v.t) > 0)
            if ty.n in ("float", "complex", "bytearray", "timedelta"):
                return app("truthy", "V>B", v.t)
            if ty.n in SETY or ty.n in DICTY:
                return And(nn, seg_nonempty(self.segs(S(v.t, ty))))
            if ty.n == "str":
                return And(nn, v.t != lit(""))
            if ty.n == "Any":
                return app("truthy", "V>B", v.t)
            return nn
        if isinstance(v, (O, Fn, Cls, Mod, EnumV, Bi, Exc)):
            return TRUE
        raise Unsupported(f"truth of {type(v).__name__}")

    # ------------------------------------------------------------ names
    def lookup(self, name):
        fid = self.st.cur
        while fid is not None:
            fr = self.st.frames[fid]
            if name in fr:
                v = fr[name]
                if isinstance(v, Undef):
                    raise Unsupported("use of " + name + ": " + v.why)
                return v
            fid = fr.get("$parent")
        return self.global_(self.st.frames[self.st.cur]["$mod"], name)

    def global_(self, mod, name):
        r = self.repo.resolve(mod, name)
        if r is not None:
            kind, m, x = r
            if kind == "fn":
                return Fn(x, m, x.name)
            if kind == "cls":
                return Cls(x.name, m, x)
            if kind == "mod":
                return Mod(x)
            if kind == "ext":
                return self.models.external(self, x)
            if kind == "assign":
                key = (m.name, name)
                if key not in self.modconst:
                    self.modconst[key] = self.eval_in_module(m, x)
                return self.modconst[key]
        if name in BUILTIN_EXC:
            return Cls(name)
        b = self.models.builtin(self, name)
        if b is not None:
            return b
        raise Unsupported(f"name {name}")

    def eval_in_module(self, m, node):
        st = self.st
        old = st.cur
        fid = f"m:{m.name}"
        st.frames[fid] = {"$mod": m, "$parent": None}
        st.cur = fid
        try:
            v = self.eval(node)
            return self.freeze(v)
        finally:
            st.cur = old

    def set_var(self, name, v):
        fr = self.st.frames[self.st.cur]
        if name in fr.get("$nonlocal", ()):
            fid = fr["$parent"]
            while fid is not None:
                if name in self.st.frames[fid]:
                    self.st.frames[fid][name] = v
                    return
                fid = self.st.frames[fid].get("$parent")
        fr[name] = v

    # ------------------------------------------------------------ assignment targets
    def assign(self, tgt, v):
        if isinstance(tgt, ast.Name):
            self.set_var(tgt.id, v)
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(tgt.elts), any(isinstance(e, ast.Starred) for e in tgt.elts))
            for t, x in zip(tgt.elts, items):
                self.assign(t, x)
        elif isinstance(tgt, ast.Attribute):
            self.set_attr(self.eval(tgt.value), tgt.attr, v)
        elif isinstance(tgt, ast.Subscript):
            base = self.eval(tgt.value)
            if isinstance(tgt.slice, ast.Slice):
                if tgt.slice.lower is None and tgt.slice.upper is None and tgt.slice.step is None:
                    self.write(base, L(self.segs(v)))
                    return
                raise Unsupported("slice assignment")
            self.set_item(base, self.eval(tgt.slice), v)
        else:
            raise Unsupported("assign target")

    def unpack(self, v, n, starred=False):
        c = self.content(v)
        if starred:
            raise Unsupported("starred unpack")
        if isinstance(c, T):
            if len(c.items) != n:
                raise PyRaise(Exc("ValueError"))
            return list(c.items)
        if isinstance(c, L) and all(isinstance(s, U) and z3.is_true(s.g) for s in c.segs):
            if len(c.segs) != n:
                raise PyRaise(Exc("ValueError"))
            return [s.v for s in c.segs]
        if isinstance(c, L) and all(isinstance(s, U) for s in c.segs) and len(c.segs) <= 4:
            held = [s.v for s in c.segs if self.decide(s.g)]
            if len(held) != n:
                raise PyRaise(Exc("ValueError", info="unpack"))
            return held
        if isinstance(c, S) and strip_none(c.ty).n in ("list", "tuple*"):
            if not self.decide(app("len", "V>I", c.t) == n):
                raise PyRaise(Exc("ValueError", info="unpack"))
            return [self.wrap(app("at", "VI>V", c.t, z3.IntVal(i)), self.elem_ty(strip_none(c.ty))) for i in range(n)]
        if isinstance(c, S) and c.ty.n == "Any":
            return [S(app(f"proj{i}", "V>V", c.t)) for i in range(n)]
        raise Unsupported(f"unpack {type(c).__name__} {getattr(c, 'ty', '')}")

    def set_attr(self, o, name, v):
        if isinstance(o, Ref):
            c = self.content(o)
            if isinstance(c, O):
                f = dict(c.fields)
                f[name] = v
                self.write(o, O(c.cls, f))
                return
        if isinstance(o, PRef):
            return self.set_nested_attr(o, name, v)
        c = self.content(o)
        if isinstance(c, S):
            self.models.set_opaque_attr(self, c, name, v)
            return
        raise Unsupported(f"set attribute {name} on {type(c).__name__}")

    def _mk_op(self, base, op_segs):
        """apply op segs (elements for list/set, Ops for dict) to the container referenced by base"""
        if isinstance(base, Ref):
            c = self.st.heap[base.cid]
            if isinstance(c, (Ref, PRef)):
                return self._mk_op(c, op_segs)
            if base.cid in self.st.moved:
                raise Unsupported("mutation of a container after it was stored in another one")
            if isinstance(c, Acc):
                self.st.heap[base.cid] = Acc(c.kind, c.pre, c.ops + tuple(op_segs), c.tag)
            else:
                self.st.heap[base.cid] = self.apply_ops(c, op_segs)
            return
        if isinstance(base, PRef):
            segs = tuple(op_segs)
            for i in range(len(base.path) - 1, -1, -1):
                kind, k = base.path[i]
                segs = (U(TRUE, Op("sub" if kind == "key" else "field", k, segs)),)
            root = self.st.heap[base.cid]
            if isinstance(root, (Ref, PRef)):
                raise Unsupported("nested reference root")
            if isinstance(root, D) and root.shared:
                raise Unsupported("mutation through a shallow copy")
            if base.path[0][0] == "field" and isinstance(root, O):
                # field of a heap object holding its container by value
                nm = base.path[0][1]
                f = dict(root.fields)
                f[nm] = self.apply_ops(f[nm], segs[0].v.val)
                self.st.heap[base.cid] = O(root.cls, f)
                return
            self._mk_op(Ref(base.cid), segs)
            return
        raise Unsupported(f"mutation of {type(base).__name__} {getattr(base, 'ty', '')}")

    def set_item(self, base, k, v):
        c = self.content(base)
        if isinstance(c, S) and strip_none(c.ty).n not in DICTY:
            raise Unsupported(f"item assignment on {c.ty}")
        if isinstance(c, (D, S)) or isinstance(c, Acc) and c.kind == "dict":
            self._mk_op(base, (U(TRUE, Op("put", self.freeze(k), self.freeze(v))),))
            return
        if isinstance(c, O):
            m = self.class_method(base, "__setitem__")
            if m:
                self.call(m, [k, v], {})
                return
        raise Unsupported(f"item assignment on {type(c).__name__}")

    def mutable_record(self, v):
        """class of an opaque value that is an instance of a dataclass with assignable fields"""
        if is_optional(v.ty):
            return None
        cls = self.cls_of_ty(v.ty)
        if cls is not None and cls.node is not None and self.repo.is_dataclass(cls) and not self.repo.is_frozen(cls):
            return cls
        return None

    def set_nested_attr(self, o, name, v):
        """o.name = v for an object stored in a container: the element is replaced by the changed record"""
        kind, k = o.path[-1]
        if kind != "key":
            raise Unsupported("attribute assignment through a field")
        c = self.content(o)
        if isinstance(c, S):
            cls = self.mutable_record(c)
            if cls is None:
                raise Unsupported("attribute assignment through a container")
            c = O(cls, {n: self.field_of(c, n, t) for n, t in self.repo.fields(cls).items()})
        if not isinstance(c, O) or isinstance(self.st.heap[o.cid], Acc):
            raise Unsupported("attribute assignment through a container")
        f = dict(c.fields)
        f[name] = self.freeze(v)
        base = PRef(o.cid, o.path[:-1]) if len(o.path) > 1 else Ref(o.cid)
        self._mk_op(base, (U(TRUE, Op("put", k, O(c.cls, f))),))

    def nested(self, base, kind, k, val):
        """value of a lookup inside a container: a path reference when it is a mutable container/object"""
        def mutable(v):
            v0 = v
            if isinstance(v, (L, D, O)):
                return True
            if isinstance(v, St):
                return not v.frozen
            if isinstance(v, S):
                n = strip_none(v.ty).n
                return n in ("list", "set") or n in DICTY or not self.spec and self.mutable_record(v) is not None
            return False
        if isinstance(val, O):
            return PRef(base.cid, ((kind, k),)) if isinstance(base, Ref) else PRef(base.cid, base.path + ((kind, k),)) if isinstance(base, PRef) else val
        if mutable(val):
            if isinstance(base, Ref):
                root = self.st.heap[base.cid]
                if isinstance(root, (Ref,)):
                    return self.nested(root, kind, k, val)
                if isinstance(root, PRef):
                    return PRef(root.cid, root.path + ((kind, k),))
                return PRef(base.cid, ((kind, k),))
            if isinstance(base, PRef):
                return PRef(base.cid, base.path + ((kind, k),))
        return val

    def get_item(self, base, k):
        c = self.content(base)
        if isinstance(c, T):
            if isinstance(k, I) and z3.is_int_value(k.t):
                i = k.t.as_long()
                if -len(c.items) <= i < len(c.items):
                    return c.items[i]
                raise PyRaise(Exc("IndexError"))
            raise Unsupported("symbolic tuple index")
        if isinstance(c, Acc) and c.kind == "dict":
            pre = self.content(c.pre)
            while isinstance(pre, Acc):
                pre = self.content(pre.pre)
            if isinstance(pre, D) and pre.default is not None:
                self._mk_op(base, (U(TRUE, Op("ensure", self.freeze(k), self.default_value(pre))),))
                return PRef(base.cid, (("key", k),)) if isinstance(base, Ref) else PRef(base.cid, base.path + (("key", k),))
            # lookup of an element whose nested container is only updated blindly
            vt = pre.vty if isinstance(pre, D) else ANY
            if vt.n == "Any" and isinstance(pre, D):
                vt = self.value_class(pre) or vt
            h = self.acc_member(c, k)
            if vt.n in SETY or vt.n in LISTY or vt.n in DICTY or self.cls_of_ty(vt):
                if not self.decide(h):
                    raise PyRaise(Exc("KeyError"))
                return PRef(base.cid, (("key", k),)) if isinstance(base, Ref) else PRef(base.cid, base.path + (("key", k),))
            raise Unsupported("lookup in a dict accumulator inside its loop")
        if isinstance(c, D) or isinstance(c, S) and strip_none(c.ty).n in DICTY:
            d = self.as_dict(c)
            if d.default is not None and not self.spec:
                if not z3.is_true(self.dict_has(d, k)):
                    if isinstance(base, (Ref, PRef)):
                        self._mk_op(base, (U(TRUE, Op("ensure", self.freeze(k), self.default_value(d))),))
                    d = self.as_dict(base)
                    return self.nested(base, "key", k, self.dict_get(d, k))
            h = self.dict_has(d, k)
            if not self.decide(h):
                raise PyRaise(Exc("KeyError", (k,)))
            return self.nested(base, "key", k, self.dict_get(d, k))
        if isinstance(k, I) and (isinstance(c, L) or isinstance(c, S) and strip_none(c.ty).n in LISTY):
            return self.list_index(c, k.t)
        if isinstance(c, S) and c.ty.n == "Any" and isinstance(k, (S,)):
            return S(app("item", "VV>V", c.t, to_term(k)))
        r = self.models.get_item(self, c, k, base)
        if r is not None:
            return r
        raise Unsupported(f"subscript of {type(c).__name__} {getattr(c, 'ty', '')}")

    def list_index(self, c, i):
        if isinstance(c, L):
            if all(isinstance(s, U) and z3.is_true(s.g) for s in c.segs) and z3.is_int_value(i):
                n = i.as_long()
                if -len(c.segs) <= n < len(c.segs):
                    return c.segs[n].v
                raise PyRaise(Exc("IndexError"))
            # a contiguous window of an opaque list
            if len(c.segs) == 1 and isinstance(c.segs[0], G) and c.segs[0].dom.kind == "list" and z3.is_true(c.segs[0].g) \
                    and len(c.segs[0].body) == 1 and isinstance(c.segs[0].body[0], U) and z3.is_true(c.segs[0].body[0].g):
                g = c.segs[0]
                n = g.dom.hi - g.dom.lo
                if z3.is_int_value(i) and i.as_long() < 0:
                    pos = (g.dom.lo - 1 - i) if g.dom.rev else (g.dom.hi + i)
                    ok = n >= -i.as_long()
                else:
                    pos = (g.dom.hi - 1 - i) if g.dom.rev else (g.dom.lo + i)
                    ok = And(i >= 0, i < n)
                if not self.decide(ok):
                    raise PyRaise(Exc("IndexError"))
                return subst(g.body[0].v, Sub([(g.var, z3.simplify(pos))]))
            if z3.is_int_value(i) and i.as_long() == 0 :
                return self.first(c.segs, lambda: (_ for _ in ()).throw(PyRaise(Exc("IndexError"))))
            if z3.is_int_value(i) and i.as_long() == -1 and isinstance(c.segs[-1], U) and z3.is_true(c.segs[-1].g):
                return c.segs[-1].v
            raise Unsupported("index into a comprehension")
        n = self.length_term(c.t)
        et = self.elem_ty(strip_none(c.ty))
        if z3.is_int_value(i) and i.as_long() < 0:
            if not self.decide(n >= -i.as_long()):
                raise PyRaise(Exc("IndexError"))
            return self.wrap(app("at", "VI>V", c.t, z3.simplify(n + i)), et)
        if not self.decide(And(i >= 0, i < n)):
            raise PyRaise(Exc("IndexError"))
        return self.wrap(app("at", "VI>V", c.t, i), et)

    def first(self, segs, on_empty):
        """first element of the comprehension (a witness with nothing before it)"""
        ne = seg_nonempty(segs)
        if not self.decide(ne):
            return on_empty()
        return self.pick(segs, first=True)

    def pick(self, segs, first=False, cond=None):
        """fresh witness element of a non-empty comprehension"""
        for k, s in enumerate(segs):
            last = k == len(segs) - 1
            if isinstance(s, U):
                c = And(s.g, cond(s.v) if cond else TRUE)
                if last and not first:
                    self.define(c) if not z3.is_true(c) else None
                    return s.v
                if self.decide(c):
                    return s.v
                continue
            here = seg_member((s,), lambda v: cond(v) if cond else TRUE)
            if not self.decide(here):
                continue
            s = rename(s)
            w = self.fresh("w", s.var.sort())
            sub = Sub([(s.var, w)])
            body = tuple(x.subst(sub) for x in s.body)
            inner = seg_member(body, lambda v: cond(v) if cond else TRUE)
            f = And(s.dom.mem(w), sub.t(s.g), inner)
            if first:
                y = fresh_binder(s.var.sort())
                sy = Sub([(s.var, y)])
                bodyy = tuple(x.subst(sy) for x in s.body)
                f = And(f, z3.ForAll([y], Imp(And(s.dom.mem(y), sy.t(s.g), s.dom.before(y, w)),
                                              Not(seg_member(bodyy, lambda v: cond(v) if cond else TRUE)))))
            self.define(f)
            return self.pick(body, first, cond)
        raise Infeasible

    # ------------------------------------------------------------ classes
    def class_method(self, v, name):
        c = self.content(v)
        cls = c.cls if isinstance(c, O) else c.cls if isinstance(c, EnumV) else self.cls_of_ty(strip_none(c.ty)) if isinstance(c, S) else None
        if cls is None or cls.node is None:
            return None
        m = self.repo.method(cls, name)
        if m is None:
            return None
        node, owner, deco = m
        f = Fn(node, owner.mod, node.name, cls=owner)
        if "staticmethod" not in deco:
            f.self_ = v if not ("classmethod" in deco) else cls
        f.deco = deco
        return f

    def enum_members(self, cls):
        return self.repo.enum_members(cls, self)

    def is_enum(self, cls):
        return cls is not None and cls.node is not None and self.repo.is_enum(cls)

    def concretize_enum(self, s: S):
        """fork an opaque enum value over its members"""
        cls = self.cls_of_ty(strip_none(s.ty))
        for e in self.enum_members(cls):
            if s.t.eq(enum_term(e)):
                return e
        ms = self.enum_members(cls)
        for e in ms[:-1]:
            if self.decide(Eq(s.t, enum_term(e))):
                return e
        e = ms[-1]
        f = Eq(s.t, enum_term(e))
        if self.entails_not(f):
            raise Infeasible
        self.assume(f)
        return e

    def enum_set(self, cls):
        """the members of a larger enum as an opaque set (iterated as a whole, not unrolled)"""
        t = z3.Const(f"enumset_{cls.name}", V)
        if t.decl().name() not in self.repo.nn:
            self.repo.nn.add(t.decl().name())
            x = z3.Const("ex", V)
            i = app("in", "VV>B", t, x)
            axiom(t.decl().name(), z3.ForAll([x], i == Or([Eq(x, enum_term(e)) for e in self.enum_members(cls)]), patterns=[i]))
        return t

    def enum_attr(self, c, cls, name, v):
        ms = self.enum_members(cls)
        for e in ms:
            if c.t.eq(enum_term(e)):
                return self.get_attr(e, name)
        if name in ("value", "name"):
            vals = [e.value if name == "value" else pstr(e.member) for e in ms]
            if all(isinstance(x, S) for x in vals):
                if len(ms) > 4:
                    f = uf(f"enum{name}_{cls.name}", "V>V")
                    if f.name() not in self.repo.nn:
                        self.repo.nn.add(f.name())
                        axiom(f.name(), And([f(enum_term(e)) == x.t for e, x in zip(ms, vals)]))
                    return S(f(c.t), STR)
                r = vals[-1].t
                for e, x in reversed(list(zip(ms[:-1], vals[:-1]))):
                    r = z3.If(Eq(c.t, enum_term(e)), x.t, r)
                return S(r, STR)
        m = self.class_method(c, name)
        if m is not None:
            return self.call(m, [], {}) if "property" in m.deco else m
        return self.get_attr(self.concretize_enum(c), name)

    def get_attr(self, v, name):
        c = self.content(v)
        if isinstance(c, Pre):
            raise Unsupported("loop-carried object read")
        if isinstance(c, S):
            if c.t.eq(NONE_T):
                raise PyRaise(Exc("AttributeError", info="None." + name))
            if is_optional(c.ty) and c.ty.n == "Union":
                if self.decide(Eq(c.t, NONE_T)):
                    raise PyRaise(Exc("AttributeError", info="None." + name))
                c = S(c.t, strip_none(c.ty))
                v = c if isinstance(v, S) else v
            cls = self.cls_of_ty(c.ty)
            if self.is_enum(cls):
                return self.enum_attr(c, cls, name, v)
            if cls is not None:
                f = self.repo.fields(cls)
                if f and name in f:
                    val = self.field_of(c, name, f[name])
                    if isinstance(v, (Ref, PRef)):
                        return self.nested(v, "field", name, val)
                    return val
                m = self.class_method(c, name)
                if m is not None:
                    m.self_ = v if m.self_ is c else m.self_
                    if any(d in ("property", "cached_property") for d in m.deco):
                        return self.call(m, [], {})
                    return m
            r = self.models.attr(self, c, name, v)
            if r is not None:
                return r
            raise Unsupported(f"attribute {name} of {c.ty}")
        if isinstance(c, EnumV):
            if name == "value":
                return c.value
            if name == "name":
                return pstr(c.member)
            m = self.class_method(c, name)
            if m:
                if "property" in m.deco:
                    return self.call(m, [], {})
                return m
            raise Unsupported("enum attribute " + name)
        if isinstance(c, O):
            if name in c.fields:
                x = c.fields[name]
                if isinstance(x, (Ref, PRef)):
                    return x
                return self.nested(v, "field", name, x) if isinstance(v, (Ref, PRef)) else x
            m = self.class_method(v, name)
            if m is not None:
                if any(d in ("property", "cached_property") for d in m.deco):
                    return self.call(m, [], {})
                return m
            a = self.repo.class_attr(c.cls, name)
            if a is not None:
                return self.eval_in_module(c.cls.mod, a)
            r = self.models.obj_attr(self, c, name, v)
            if r is not None:
                return r
            raise PyRaise(Exc("AttributeError", info=f"{c.cls.name}.{name}"))
        if isinstance(c, T) and c.cls is not None:
            names = self.repo.namedtuple_fields(c.cls)
            if name in names:
                return c.items[names.index(name)]
        if isinstance(c, Cls):
            if self.is_enum(c):
                for e in self.enum_members(c):
                    if e.member == name:
                        return e
            if c.node is not None:
                m = self.repo.method(c, name)
                if m is not None:
                    node, owner, deco = m
                    f = Fn(node, owner.mod, node.name, cls=owner)
                    if "classmethod" in deco:
                        f.self_ = c
                    return f
                a = self.repo.class_attr(c, name)
                if a is not None:
                    return self.eval_in_module(c.mod, a)
            if name == "__name__":
                return pstr(c.name)
            r = self.models.class_attr(self, c, name)
            if r is not None:
                return r
        if isinstance(c, Mod):
            r = self.models.mod_attr(self, c, name)
            if r is not None:
                return r
            raise Unsupported(f"{c.name}.{name}")
        if isinstance(c, Exc):
            if name == "args":
                return T(c.args)
            return self.models.exc_attr(self, c, name)
        return Bi("m:" + name, v)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return B(z3.BoolVal(v))
        if isinstance(v, int):
            return I(z3.IntVal(v))
        if isinstance(v, (str, bytes)):
            return pstr(v)
        if v is Ellipsis:
            return NONE
        raise Unsupported("constant")

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_Tuple(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return L(self.star_segs(e.elts), "tuple")
        return T(tuple(self.eval(x) for x in e.elts))

    def star_segs(self, elts):
        segs = ()
        for x in elts:
            if isinstance(x, ast.Starred):
                segs += tuple(self.segs(self.eval(x.value)))
            else:
                segs += (U(TRUE, self.freeze(self.eval(x))),)
        return segs

    def e_List(self, e):
        return self.alloc(L(self.star_segs(e.elts)))

    def e_Set(self, e):
        return self.alloc(St(self.star_segs(e.elts)))

    def e_Dict(self, e):
        ops = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.as_dict(self.eval(v))
                ops += self.debase(d).ops
            else:
                kv = self.freeze(self.eval(k))
                ops += (U(TRUE, Op("put", kv, self.freeze(self.eval(v)))),)
        return self.alloc(D(None, ops))

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(pstr(p.value))
            else:
                v = self.eval(p.value)
                if p.conversion == 114:
                    parts.append(self.models.repr_(self, v))
                elif p.format_spec is not None:
                    parts.append(S(app("format", "VV>V", self._any_term(v), to_term(self.eval(p.format_spec))), STR))
                else:
                    parts.append(self.models.str_(self, v))
        return self.models.cat(self, parts)

    def _any_term(self, v):
        try:
            return to_term(self.content(v))
        except Unsupported:
            return self.fresh("opaque")

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr)

    def e_Subscript(self, e):
        base = self.eval(e.value)
        if isinstance(base, (Cls, Bi)) and not isinstance(self.content(base), (L, D)):
            return base        # generic alias
        if isinstance(e.slice, ast.Slice):
            return self.slice(base, e.slice)
        return self.get_item(base, self.eval(e.slice))

    def slice(self, base, sl):
        c = self.content(base)
        lo = self.eval(sl.lower) if sl.lower else None
        hi = self.eval(sl.upper) if sl.upper else None
        step = self.eval(sl.step) if sl.step else None

        def const(x):
            return None if x is None or (isinstance(x, S) and x.t.eq(NONE_T)) else x.t.as_long() if isinstance(x, I) and z3.is_int_value(x.t) else "sym"
        l, h, s_ = const(lo), const(hi), const(step)
        if isinstance(c, T):
            return T(c.items[slice(l, h, s_)])
        if isinstance(c, S) and c.lit is not None and "sym" not in (l, h, s_):
            return pstr(c.lit[slice(l, h, s_)])
        if isinstance(c, S) and strip_none(c.ty).n in ("str", "bytes"):
            return S(app(f"slice[{l}:{h}:{s_}]", "V>V", c.t), c.ty)
        segs = self.segs(base)
        if s_ == -1 and l is None and h is None:
            return self.alloc(L(self.reverse(segs)))
        if s_ not in (None, 1):
            raise Unsupported("slice step")
        if all(isinstance(x, U) and z3.is_true(x.g) for x in segs) and "sym" not in (l, h):
            return self.alloc(L(segs[slice(l, h)]))
        if isinstance(c, L) and "sym" not in (l, h):
            try:
                t = to_term(c)
            except Unsupported:
                t = None
            if t is not None:
                v = c.segs[0].body[0].v
                c = S(t, Ty("list", (v.ty,)))
        if isinstance(c, S) and strip_none(c.ty).n in LISTY and "sym" not in (l, h):
            n = self.length_term(c.t)

            def clamp(t):
                return z3.simplify(z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t)))
            a = z3.IntVal(0) if l is None else clamp(z3.IntVal(l) if l >= 0 else n + l)
            b = n if h is None else clamp(z3.IntVal(h) if h >= 0 else n + h)
            return self.alloc(L(self.opaque_list_segs(c.t, strip_none(c.ty), a, b)))
        raise Unsupported("slice of comprehension")

    def reverse(self, segs):
        out = []
        for s in reversed(tuple(segs)):
            if isinstance(s, U):
                out.append(s)
            else:
                d = s.dom
                out.append(G(s.var, Dom(d.kind, d.term, d.lo, d.hi, not d.rev, d.segs, d.order), s.g, self.reverse(s.body)))
        return tuple(out)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    def has_walrus(self, e):
        return any(isinstance(n, ast.NamedExpr) for n in ast.walk(e))

    def cond(self, e):
        """formula of a condition, evaluated without forking when possible; else decided"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return Not(self.cond(e.operand))
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            acc = None
            for k, x in enumerate(e.values):
                if acc is None:
                    acc = self.cond(x)
                    continue
                if z3.is_false(acc) and is_and or z3.is_true(acc) and not is_and:
                    return acc
                if z3.is_true(acc) and is_and or z3.is_false(acc) and not is_and:
                    acc = self.cond(x)
                    continue
                assume = acc if is_and else Not(acc)
                ok, v = (False, None)
                if not self.has_walrus(x):
                    ok, v = self.pure_merge(lambda: B(self.cond(x)), assume)
                if ok:
                    if v is None:          # infeasible under the assumption
                        continue
                    acc = And(acc, v.t) if is_and else Or(acc, v.t)
                else:
                    if self.decide(acc) != is_and:
                        return z3.BoolVal(not is_and)
                    acc = self.cond(x)
            return acc
        if isinstance(e, ast.Compare):
            return self.compare(e)
        return self.truth(self.eval(e))

    def e_BoolOp(self, e):
        # value semantics: decide on truth, unless all operands are boolean
        vals = None
        if all(self.boolish(x) for x in e.values):
            return B(self.cond(e))
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x)
            if isinstance(v, B):
                t = v.t
            else:
                t = self.truth(v)
            if self.decide(t) != is_and:
                return v
        return self.eval(e.values[-1])

    def boolish(self, e):
        if isinstance(e, (ast.Compare,)):
            return True
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return True
        if isinstance(e, ast.BoolOp):
            return all(self.boolish(x) for x in e.values)
        if isinstance(e, ast.Constant) and isinstance(e.value, bool):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all", "isinstance", "bool", "implies"):
            return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("startswith", "endswith", "issubset", "exists", "is_file", "is_absolute"):
            return True
        return False

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return B(Not(self.cond(e.operand)))
        v = self.eval(e.operand)
        if isinstance(e.op, ast.USub) and isinstance(v, I):
            return I(z3.simplify(-v.t))
        if isinstance(e.op, ast.Invert) and isinstance(v, I) and z3.is_int_value(v.t):
            return I(z3.IntVal(~v.t.as_long()))
        raise Unsupported("unary op")

    def e_IfExp(self, e):
        c = self.cond(e.test)
        if z3.is_true(c):
            return self.eval(e.body)
        if z3.is_false(c):
            return self.eval(e.orelse)
        if not self.has_walrus(e):
            ok1, a = self.pure_merge(lambda: self.eval(e.body), c)
            if ok1 and a is not None:
                ok2, b = self.pure_merge(lambda: self.eval(e.orelse), Not(c))
                if ok2 and b is not None:
                    try:
                        r = self.vite(c, a, b)
                        if isinstance(r, (L, St, D)) and (isinstance(a, Ref) or isinstance(b, Ref)):
                            return self.alloc(r)
                        return r
                    except Unsupported:
                        pass
        return self.eval(e.body) if self.decide(c) else self.eval(e.orelse)

    def e_Compare(self, e):
        return B(self.compare(e))

    def compare(self, e):
        left = self.eval(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            out.append(self.cmp(op, left, right))
            left = right
        return And(out)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)):
            f = self.models.eq_hook(self, a, b)
            f = self.eq(a, b) if f is None else f
            return f if isinstance(op, ast.Eq) else Not(f)
        if isinstance(op, (ast.Is, ast.IsNot)):
            ca, cb = self.content(a), self.content(b)
            if isinstance(cb, S) and cb.t.eq(NONE_T):
                f = self.is_none(ca)
            elif isinstance(ca, S) and ca.t.eq(NONE_T):
                f = self.is_none(cb)
            elif isinstance(a, Ref) and isinstance(b, Ref):
                f = z3.BoolVal(a.cid == b.cid)
            else:
                f = self.eq(a, b)
            return f if isinstance(op, ast.Is) else Not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.member(b, a)
            return f if isinstance(op, ast.In) else Not(f)
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, I) and isinstance(cb, I):
            f = {ast.Lt: lambda: ca.t < cb.t, ast.LtE: lambda: ca.t <= cb.t, ast.Gt: lambda: ca.t > cb.t,
                 ast.GtE: lambda: ca.t >= cb.t}[type(op)]()
            return z3.simplify(f) if z3.is_int_value(ca.t) and z3.is_int_value(cb.t) else f
        ka, kb = self.kind(ca), self.kind(cb)
        if ka == "s" and kb == "s":
            if isinstance(op, ast.LtE):
                return self.subset(a, b)
            if isinstance(op, ast.GtE):
                return self.subset(b, a)
            if isinstance(op, ast.Lt):
                return And(self.subset(a, b), Not(self.subset(b, a)))
            return And(self.subset(b, a), Not(self.subset(a, b)))
        if isinstance(ca, T) and isinstance(cb, T):
            return self.tuple_cmp(op, ca.items, cb.items)
        if isinstance(op, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
            if isinstance(op, ast.Lt):
                m = self.class_method(ca, "__lt__")
                if m:
                    m.self_ = a
                    return self.truth(self.call(m, [b], {}))
            if isinstance(op, ast.Gt):
                m = self.class_method(ca, "__gt__")
                if m:
                    m.self_ = a
                    return self.truth(self.call(m, [b], {}))
                return self.cmp(ast.Lt(), b, a)
            if isinstance(op, (ast.LtE, ast.GtE)):
                m = self.class_method(ca, "__le__" if isinstance(op, ast.LtE) else "__ge__")
                if m:
                    m.self_ = a
                    return self.truth(self.call(m, [b], {}))
            if isinstance(ca, S) and isinstance(cb, S) and ca.ty.n in ("str", "Any", "Path") and not self.cls_of_ty(ca.ty):
                lt = lambda x, y: app("str_lt", "VV>B", x.t, y.t)
                if isinstance(op, ast.Lt):
                    return lt(ca, cb)
                if isinstance(op, ast.Gt):
                    return lt(cb, ca)
                if isinstance(op, ast.LtE):
                    return Not(lt(cb, ca))
                return Not(lt(ca, cb))
        raise Unsupported(f"comparison {type(op).__name__} on {type(ca).__name__} {getattr(ca, 'ty', '')}")

    def tuple_cmp(self, op, xs, ys):
        strict = isinstance(op, (ast.Lt, ast.Gt))
        lt = ast.Lt() if isinstance(op, (ast.Lt, ast.LtE)) else ast.Gt()
        if not xs or not ys:
            if isinstance(op, (ast.Lt, ast.LtE)):
                return z3.BoolVal(len(xs) < len(ys) or (not strict and len(xs) == len(ys)))
            return z3.BoolVal(len(xs) > len(ys) or (not strict and len(xs) == len(ys)))
        e = self.eq(xs[0], ys[0])
        if z3.is_true(e):
            return self.tuple_cmp(op, xs[1:], ys[1:])
        return Or(self.cmp(lt, xs[0], ys[0]), And(e, self.tuple_cmp(op, xs[1:], ys[1:])))

    def is_none(self, v):
        if isinstance(v, S):
            if v.t.eq(NONE_T):
                return TRUE
            if is_optional(v.ty):
                return Eq(v.t, NONE_T)
            return FALSE
        if isinstance(v, Pre):
            raise Unsupported("loop-carried None test")
        return FALSE

    def e_BinOp(self, e):
        return self.binop(type(e.op).__name__, self.eval(e.left), self.eval(e.right))

    def binop(self, op, a, b):
        ca, cb = self.content(a), self.content(b)
        if isinstance(ca, (Acc, Pre)) or isinstance(cb, (Acc, Pre)):
            raise Unsupported("operator on a loop-carried value")
        if op == "BitOr" and isinstance(ca, B) and isinstance(cb, B):
            return B(Or(ca.t, cb.t))
        if op == "BitAnd" and isinstance(ca, B) and isinstance(cb, B):
            return B(And(ca.t, cb.t))
        if isinstance(ca, I) and isinstance(cb, I):
            x, y = ca.t, cb.t
            if op == "Add":
                return I(z3.simplify(x + y))
            if op == "Sub":
                return I(z3.simplify(x - y))
            if op == "Mult":
                return I(z3.simplify(x * y))
            if z3.is_int_value(x) and z3.is_int_value(y):
                p, q = x.as_long(), y.as_long()
                f = {"BitOr": lambda: p | q, "BitAnd": lambda: p & q, "LShift": lambda: p << q, "RShift": lambda: p >> q,
                     "FloorDiv": lambda: p // q, "Mod": lambda: p % q, "Pow": lambda: p ** q, "BitXor": lambda: p ^ q}.get(op)
                if f:
                    return I(z3.IntVal(f()))
            if op in ("BitOr", "BitAnd", "LShift", "RShift", "FloorDiv", "Mod", "BitXor"):
                return I(app("int_" + op, "II>I", x, y))
        ka, kb = self.kind(ca), self.kind(cb)
        if ka == "s" and (kb == "s" or op in ()):
            sa, sb = self.segs(a), self.segs(b)
            if op == "BitOr":
                r = St(sa + sb)
            elif op == "BitAnd":
                r = St(filter_segs(sa, lambda v: self.member(b, v)))
            elif op == "Sub":
                r = St(filter_segs(sa, lambda v: Not(self.member(b, v))))
            elif op == "BitXor":
                r = St(filter_segs(sa, lambda v: Not(self.member(b, v))) + filter_segs(sb, lambda v: Not(self.member(a, v))))
            else:
                raise Unsupported("set op " + op)
            return self.alloc(r)
        if ka == "d" and kb == "d" and op == "BitOr":
            da, db = self.as_dict(a), self.debase(self.as_dict(b))
            return self.alloc(D(da.base, da.ops + db.ops, da.kty, da.vty, da.default))
        if op == "Add" and ka == "l" and kb == "l":
            return self.alloc(L(self.segs(a) + self.segs(b)))
        if op == "Add" and isinstance(ca, T) and isinstance(cb, T):
            return T(ca.items + cb.items)
        if op == "Add" and (ka == "t" or isinstance(ca, T)) and (kb == "t" or isinstance(cb, T)):
            return L(self.segs(a) + self.segs(b), "tuple")
        if op == "Add" and isinstance(ca, S) and isinstance(cb, S) and self.strlike(ca) and self.strlike(cb):
            return self.models.cat(self, [ca, cb])
        if op == "Div":
            return self.models.path_join(self, ca, cb)
        if op == "Mod" and isinstance(ca, S):
            return S(app("strmod", "VV>V", ca.t, self._any_term(b)), STR)
        if op == "Mult" and isinstance(ca, S) and isinstance(cb, I):
            return S(app("strmul", "VI>V", ca.t, cb.t), ca.ty)
        raise Unsupported(f"binop {op} on {type(ca).__name__} {getattr(ca, 'ty', '')}, {type(cb).__name__} {getattr(cb, 'ty', '')}")

    def strlike(self, s):
        return strip_none(s.ty).n in ("str", "Any", "bytes")

    def e_Lambda(self, e):
        return Fn(e, self.st.frames[self.st.cur]["$mod"], "<lambda>", parent=self.st.cur, lam=True)

    def e_Starred(self, e):
        raise Unsupported("starred")

    # comprehensions = loops over a hidden accumulator
    def comp(self, e, kind, elt, key=None):
        st = self.st
        accname = f"$acc{e.lineno}_{e.col_offset}"
        init = {"list": L(()), "set": St(()), "dict": D(None, ()), "gen": L(())}[kind]
        ref = self.alloc(init)
        # scope: comprehension variables shadow
        fid = self.new_frame(parent=st.cur)
        old = st.cur
        st.cur = fid
        st.frames[fid][accname] = ref
        if kind == "dict":
            inner = ast.Assign([ast.Subscript(ast.Name(accname, ast.Load()), key, ast.Store())], elt)
        else:
            inner = ast.Expr(ast.Call(ast.Attribute(ast.Name(accname, ast.Load()), "add" if kind == "set" else "append", ast.Load()), [elt], []))
        body = [inner]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
            body[0]._acc = accname
        for n in ast.walk(body[0]):
            if not hasattr(n, "lineno"):
                n.lineno, n.col_offset = e.lineno, e.col_offset
        out = self.sub_explore(lambda: self.seq_out(body), ("comp", id(e), len(self.dec.taken), self.st.ctr))
        self.st.cur = old
        if out[0] == "raise":
            raise PyRaise(out[1])
        c = self.st.heap[ref.cid]
        if kind == "gen":
            return c
        return ref

    def seq_out(self, body):
        """execute a block on the current state as one nested step, choosing an outcome"""
        outs = self.memo_block(body, "comp")
        k = self.choose(len(outs))
        s, o = outs[k]
        self.st.assign(s)
        return o

    def memo_block(self, body, key):
        """outcomes of a block executed as one nested step; the same on every replay of the path (pruning may have become stronger meanwhile)"""
        d = self.dec
        mk = ("block", tuple(d.taken), key, self.st.uid, self.st.ctr)
        if mk not in d.memo:
            d.memo[mk] = self.exec_block(self.st, body)
        return d.memo[mk]

    def e_ListComp(self, e):
        return self.comp(e, "list", e.elt)

    def e_SetComp(self, e):
        return self.comp(e, "set", e.elt)

    def e_GeneratorExp(self, e):
        return self.comp(e, "gen", e.elt)

    def e_DictComp(self, e):
        return self.comp(e, "dict", e.value, e.key)

    def e_Await(self, e):
        raise Unsupported("await")

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        if self.is_log(e):
            return NONE
        if isinstance(e.func, ast.Name) and e.func.id in ("all", "any") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            f = self.models.builtin(self, e.func.id)
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                sg = self.segs(v)
                if all(isinstance(s, U) and z3.is_true(s.g) for s in sg):
                    args.extend(s.v for s in sg)
                else:
                    args.append(("*", L(sg, "tuple")))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.content(self.eval(k.value))
                if isinstance(d, D) and d.base is None and all(isinstance(s, U) and z3.is_true(s.g) for s in d.ops):
                    for s in d.ops:
                        kw[s.v.key.lit] = s.v.val
                    continue
                raise Unsupported("**kwargs")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw, node=e)

    LOGGERS = {"logger", "log", "logging", "warnings", "_logger", "LOGGER"}

    def is_log(self, e):
        return (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id in self.LOGGERS
                and e.func.attr in ("debug", "info", "warning", "error", "warn", "exception", "critical", "log"))

    def new_frame(self, parent=None, mod=None):
        st = self.st
        st.ctr += 1
        fid = f"f{st.uid}.{st.ctr}"
        st.frames[fid] = {"$parent": parent, "$mod": mod or st.frames[parent]["$mod"]}
        return fid

    def call(self, f, args, kw, node=None):
        if isinstance(f, Fn):
            return self.call_fn(f, args, kw)
        if isinstance(f, Bi):
            return self.models.call(self, f, args, kw)
        if isinstance(f, Cls):
            return self.construct(f, args, kw)
        c = self.content(f)
        if isinstance(c, (Fn, Bi, Cls)):
            return self.call(c, args, kw)
        if isinstance(c, Mod):
            return self.models.ext_call(self, c.name, args, kw)
        if isinstance(c, (O, S)):
            m = self.class_method(f, "__call__")
            if m:
                return self.call(m, args, kw)
            r = self.models.call_value(self, c, args, kw)
            if r is not None:
                return r
        raise Unsupported(f"call of {type(c).__name__} {getattr(c, 'ty', '')}")

    def qual(self, f: Fn):
        return f"{f.mod.name}:{f.cls.name + '.' if f.cls is not None else ''}{f.name}"

    def call_fn(self, f: Fn, args, kw):
        q = self.qual(f)
        con = self.contracts.get(q) if not f.lam and f.parent is None else None
        if f.parent is not None and not f.lam:
            hit = self.nested_contracts().get(id(f.node))
            if hit is not None and hit[0] != self.under and not hit[1].inline:
                self.called.add(hit[0])
                return hit[1].apply(self, f, args, kw)
        if con is not None and q != self.under and not con.inline:
            self.called.add(q)
            return con.apply(self, f, args, kw)
        if not f.lam and f.parent is None:
            oty = self.opaque_fns.get(q) if self.opaque_fns else None
            if oty is not None and f.name not in (self.under_contract.reveal if self.under_contract else ()):
                env = self.bind(f, args, kw)
                ts = [to_term(self.content(env[a.arg])) for a in f.node.args.args]
                ty = self.repo.parse_ty(oty)
                sig = "".join("I" if t.sort() == INT else "B" if t.sort() == BOOL else "V" for t in ts)
                t = app("op_" + f.name, sig + (">I" if ty.n == "int" else ">B" if ty.n == "bool" else ">V"), *ts)
                if ty.n not in ("int", "bool") and not is_optional(ty):
                    self.define(t != NONE_T, owner="op_" + f.name)
                return self.wrap(t, ty)
            ind = self.ind_specs.get(q) if self.ind_specs else None
            if ind is not None:
                env = self.bind(f, args, kw)
                return B(self.inductive_app(f.name, ind, f, [env[a.arg] for a in f.node.args.args]))
            self.inlined.add(q)
        return self.inline(f, args, kw)

    def nested_contracts(self):
        if self._nested is None:
            self._nested = {}
            for q, c in self.contracts.items():
                if ".<locals>." in q:
                    g = self.repo.function(q)
                    if g is not None:
                        self._nested[id(g.node)] = (q, c)
        return self._nested

    def lookup_from(self, fid, name, mod):
        while fid is not None:
            fr = self.st.frames[fid]
            if name in fr:
                return fr[name]
            fid = fr.get("$parent")
        raise Unsupported(f"captured variable {name} not found")

    def bind(self, f: Fn, args, kw):
        """-> dict of parameter values"""
        a = f.node.args
        args = list(args)
        if f.self_ is not None:
            args = [f.self_] + args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        star = [x for x in args if isinstance(x, tuple)]
        for i, p in enumerate(params):
            if i < len(args):
                if isinstance(args[i], tuple):
                    raise Unsupported("symbolic *args into named parameters")
                env[p] = args[i]
            elif p in kw:
                env[p] = kw.pop(p)
        rest = args[len(params):]
        if a.vararg:
            segs = ()
            for x in rest:
                segs += x[1].segs if isinstance(x, tuple) else (U(TRUE, x),)
            env[a.vararg.arg] = T(tuple(s.v for s in segs)) if all(isinstance(s, U) and z3.is_true(s.g) for s in segs) else L(segs, "tuple")
        elif rest:
            raise PyRaise(Exc("TypeError", info="too many arguments for " + f.name))
        for p in a.kwonlyargs:
            if p.arg in kw:
                env[p.arg] = kw.pop(p.arg)
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(D(None, tuple(U(TRUE, Op("put", pstr(k), v)) for k, v in kw.items())))
        elif kw:
            raise PyRaise(Exc("TypeError", info=f"unexpected keyword {list(kw)} for {f.name}"))
        # defaults
        pd = list(zip(params[len(params) - len(a.defaults):], a.defaults)) + \
            [(p.arg, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pd:
            if p not in env:
                env[p] = self.eval_in_module(f.mod, d) if f.parent is None else self.eval_in_frame(f.parent, d)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                raise PyRaise(Exc("TypeError", info=f"missing argument {p} of {f.name}"))
        return env

    def eval_in_frame(self, fid, node):
        old = self.st.cur
        self.st.cur = fid
        try:
            return self.eval(node)
        finally:
            self.st.cur = old

    def inline(self, f: Fn, args, kw):
        if self.depth > 14:
            raise Unsupported("inlining depth (recursion) in " + f.name)
        env = self.bind(f, args, kw)
        if f.lam:
            def go():
                fid = self.new_frame(parent=f.parent, mod=f.mod)
                self.st.frames[fid].update(env)
                old = self.st.cur
                self.st.cur = fid
                v = self.eval(f.node.body)
                self.st.cur = old
                return v
            return go()
        deco = [self.repo.deco_name(d) for d in f.node.decorator_list]
        self.depth += 1
        try:
            if self.spec and sum(isinstance(n, (ast.Return, ast.IfExp)) for n in ast.walk(f.node)) > 1 and not any(isinstance(n, (ast.For, ast.While, ast.comprehension)) for n in ast.walk(f.node)):
                # specification functions that branch: one merged scalar value instead of a fork per branch
                def go():
                    o = self.run_body(f, env)
                    if o[0] == "raise":
                        raise PyRaise(o[1])
                    if not isinstance(o[1], (B, I, S, EnumV)):
                        raise Unsupported("not scalar")
                    return o[1]
                saved = self.st.copy()
                try:
                    ok, v = self.pure_merge(go)
                    if ok and v is not None:
                        return v
                except Unsupported:
                    pass
                self.st.assign(saved)
            out = self.sub_explore(lambda: self.run_body(f, env), ("call", id(f.node), len(self.dec.taken), self.st.ctr))
        finally:
            self.depth -= 1
        if out[0] == "raise":
            raise PyRaise(out[1])
        return out[1]

    def run_body(self, f: Fn, env):
        st = self.st
        old = st.cur
        fid = self.new_frame(parent=f.parent, mod=f.mod)
        st.frames[fid].update(env)
        st.frames[fid]["$cls"] = f.cls
        st.frames[fid]["$self"] = f.self_
        st.cur = fid
        gen = self.repo.is_generator(f.node)
        if gen:
            y = self.alloc(L(()))
            st.frames[fid]["$yield"] = y
        outs = self.memo_block(f.node.body, id(f.node))
        k = self.choose(len(outs))
        s, o = outs[k]
        self.st.assign(s)
        if len(outs) > 1:
            self.st.uid = intern_uid(self.st.uid, ("o", k))
        self.st.cur = old
        if o[0] == "raise":
            return o
        if gen:
            v = self.st.heap[y.cid]
            return ("return", L(v.segs, "list"))
        if o[0] == "return":
            return o
        return ("return", NONE)

    def construct(self, c: Cls, args, kw):
        if c.node is None:
            if c.name in BUILTIN_EXC:
                return Exc(c.name, tuple(args))
            return self.models.construct(self, c, args, kw)
        if self.repo.is_enum(c):
            v = self.content(args[0])
            for e in self.enum_members(c):
                x = self.eq(e.value, v)
                if self.decide(x):
                    return e
            raise PyRaise(Exc("ValueError"))
        if self.repo.exc_base(c):
            return Exc(c.name, tuple(args), kw)
        con = self.contracts.get(f"{c.mod.name}:{c.name}.__init__")
        if con is not None and f"{c.mod.name}:{c.name}.__init__" != self.under and not con.inline:
            self.called.add(f"{c.mod.name}:{c.name}.__init__")
            return con.apply_ctor(self, c, args, kw)
        nt = self.repo.namedtuple_fields(c)
        if nt:
            vals = dict(zip(nt, args))
            vals.update(kw)
            if set(vals) != set(nt):
                raise Unsupported("namedtuple defaults")
            return T(tuple(vals[n] for n in nt), c)
        if self.repo.is_dataclass(c):
            flds = self.repo.fields(c)
            dflt = self.repo.field_defaults(c)
            vals = dict(zip(flds, args))
            vals.update(kw)
            for n in flds:
                if n not in vals:
                    if n not in dflt:
                        raise PyRaise(Exc("TypeError", info="missing field " + n))
                    d = dflt[n]
                    if isinstance(d, tuple):      # default_factory
                        vals[n] = self.call(self.eval_in_module(c.mod, d[1]), [], {})
                    else:
                        vals[n] = self.eval_in_module(c.mod, d)
            extra = set(vals) - set(flds)
            if extra:
                raise PyRaise(Exc("TypeError", info="unexpected field"))
            return self.alloc(O(c, {n: vals[n] for n in flds}))
        ref = self.alloc(O(c, {}))
        m = self.repo.method(c, "__init__")
        if m:
            node, owner, _ = m
            f = Fn(node, owner.mod, node.name, cls=owner, self_=ref)
            self.call_fn(f, args, kw)
        return ref

    # ------------------------------------------------------------ statements
    def exec_block(self, st, stmts):
        states = [(st, NORMAL)]
        for s in stmts:
            nxt = []
            for x, o in states:
                if o is not NORMAL:
                    nxt.append((x, o))
                else:
                    if TRACE:
                        import time
                        print(f"   [{time.time() % 10000:.1f}] line {s.lineno} states {len(states)} paths {self.paths} binders {len(x.binders)}", flush=True)
                    nxt.extend(self.exec_stmt(x, s))
            states = self.merge_states(nxt)
            if len(states) > self.join_limit:
                states = self.join_states(states)
        return states

    def merge_states(self, states):
        """merge fall-through states that differ only in their path condition"""
        if len(states) < 2:
            return states
        out = []
        for s, o in states:
            if o is NORMAL:
                for i, (t, p) in enumerate(out):
                    if p is NORMAL and self.same_store(s, t):
                        n = 0
                        while n < len(s.pc) and n < len(t.pc) and (s.pc[n] is t.pc[n] or s.pc[n].eq(t.pc[n])):
                            n += 1
                        m = t.copy()
                        d = self.or_delta(And(s.pc[n:]), And(t.pc[n:]))
                        m.pc = t.pc[:n] + conj(d)
                        m.uid = intern_uid(t.uid, ("j", s.uid))
                        m.ctr = max(s.ctr, t.ctr)
                        m.skolems = t_union(s.skolems, t.skolems)
                        for cid, c in s.heap.items():
                            m.heap.setdefault(cid, c)
                        for fid, fr in s.frames.items():
                            m.frames.setdefault(fid, fr)
                        out[i] = (m, NORMAL)
                        break
                else:
                    out.append((s, o))
            else:
                out.append((s, o))
        return out

    def or_delta(self, a, b):
        ca, cb = conj(a), conj(b)
        if len(ca) == 1 and len(cb) == 1 and (Not(ca[0]).eq(cb[0]) or Not(cb[0]).eq(ca[0])):
            return TRUE
        r = z3.simplify(Or(a, b)) if len(ca) + len(cb) < 8 and not any(z3.is_quantifier(x) for x in ca + cb) else Or(a, b)
        return r

    def same_store(self, s, t):
        if s.trace is not t.trace or s.epoch != t.epoch or s.cur != t.cur or not t_same(s.skolems, t.skolems):
            return False
        for cid, c in s.heap.items():
            if cid in t.heap and t.heap[cid] is not c:
                return False
        for fid, fr in s.frames.items():
            g = t.frames.get(fid)
            if g is None:
                continue
            if g.keys() != fr.keys():
                return False
            for k, v in fr.items():
                if g[k] is not v and not self.same_val(v, g[k]):
                    return False
        # a variable of the live frame must not point to a cell missing on one side
        return True

    def same_val(self, a, b):
        if isinstance(a, (B, I, S)) and type(a) is type(b):
            return a.t.eq(b.t)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a.cid == b.cid
        if isinstance(a, (str, tuple)) or a is None:
            return a == b
        return False

    def exec_stmt(self, st, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        try:
            return m(st, s)
        except Unsupported as e:
            if not getattr(e, "line", None):
                e.line = getattr(s, "lineno", None)
            raise

    def simple(self, st, fn):
        def go():
            r = fn()
            return NORMAL if r is None else r
        return self.run(st, go)

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return [(st, NORMAL)]
        if isinstance(s.value, ast.Call) and self.is_log(s.value):
            return [(st, NORMAL)]
        if isinstance(s.value, ast.Yield):
            def go():
                v = self.eval(s.value.value) if s.value.value else NONE
                self._mk_op(self.lookup("$yield"), (U(TRUE, self.freeze(v)),))
            return self.simple(st, go)
        if isinstance(s.value, ast.YieldFrom):
            def go():
                self._mk_op(self.lookup("$yield"), self.segs(self.eval(s.value.value)))
            return self.simple(st, go)
        return self.simple(st, lambda: (self.eval(s.value), None)[1])

    def s_Pass(self, st, s):
        return [(st, NORMAL)]

    def s_Import(self, st, s):
        return self.simple(st, lambda: self.do_import(s))

    s_ImportFrom = s_Import

    def do_import(self, s):
        for a in s.names:
            r = self.repo.resolve_import(self.st.frames[self.st.cur]["$mod"], s, a)
            kind, m, x = r
            v = {"fn": lambda: Fn(x, m, x.name), "cls": lambda: Cls(x.name, m, x), "mod": lambda: Mod(x),
                 "ext": lambda: self.models.external(self, x), "assign": lambda: self.eval_in_module(m, x)}[kind]()
            self.set_var((a.asname or a.name).split(".")[0], v)

    def s_Assign(self, st, s):
        def go():
            v = self.eval(s.value)
            if isinstance(v, L) and v.kind == "list" and isinstance(s.value, ast.GeneratorExp):
                pass
            for t in s.targets:
                self.assign(t, v)
        return self.simple(st, go)

    def s_AnnAssign(self, st, s):
        if s.value is None:
            return [(st, NORMAL)]

        def go():
            v = self.eval(s.value)
            ty = self.repo.parse_ty(s.annotation)
            if isinstance(v, Ref):
                c = self.st.heap[v.cid]
                if isinstance(c, D) and c.base is None and ty.n in DICTY and len(ty.a) == 2:
                    self.st.heap[v.cid] = D(None, c.ops, ty.a[0], ty.a[1], c.default)
            self.assign(s.target, v)
        return self.simple(st, go)

    def s_AugAssign(self, st, s):
        def go():
            op = type(s.op).__name__
            if isinstance(s.target, ast.Name):
                cur = self.lookup(s.target.id)
            elif isinstance(s.target, ast.Attribute):
                cur = self.get_attr(self.eval(s.target.value), s.target.attr)
            else:
                cur = self.get_item(self.eval(s.target.value), self.eval(s.target.slice))
            v = self.eval(s.value)
            c = self.content(cur)
            k = self.kind(c)
            if isinstance(cur, (Ref, PRef)) and k in ("l", "s"):
                if op in ("Add", "BitOr"):
                    self._mk_op(cur, self.segs(v))
                    return
                if op in ("Sub", "BitAnd") and isinstance(cur, Ref) and not isinstance(c, Acc):
                    r = self.content(self.binop(op, c, v))
                    self.write(cur, r)
                    return
                raise Unsupported("augmented assignment " + op)
            if isinstance(cur, (Ref, PRef)) and k == "d" and op == "BitOr":
                self._mk_op(cur, self.debase(self.as_dict(v)).ops)
                return
            self.assign(s.target, self.binop(op, cur, v))
        return self.simple(st, go)

    def s_Delete(self, st, s):
        def go():
            for t in s.targets:
                if isinstance(t, ast.Name):
                    self.st.frames[self.st.cur].pop(t.id, None)
                elif isinstance(t, ast.Subscript):
                    b = self.eval(t.value)
                    k = self.eval(t.slice)
                    if isinstance(self.content(b), O):
                        m = self.class_method(b, "__delitem__")
                        if m:
                            self.call(m, [k], {})
                            continue
                    if not self.decide(self.dict_has(b, k)):
                        raise PyRaise(Exc("KeyError"))
                    self._mk_op(b, (U(TRUE, Op("del", k)),))
                else:
                    raise Unsupported("del")
        return self.simple(st, go)

    def s_Return(self, st, s):
        return self.simple(st, lambda: ("return", self.eval(s.value) if s.value else NONE))

    def s_Break(self, st, s):
        return [(st, ("break",))]

    def s_Continue(self, st, s):
        return [(st, ("continue",))]

    def s_Raise(self, st, s):
        def go():
            if s.exc is None:
                cur = self.st.ghost.get("exc")
                if cur is None:
                    raise Unsupported("bare raise")
                raise PyRaise(cur)
            v = self.eval(s.exc)
            if isinstance(v, Cls):
                v = self.construct(v, [], {})
            v = self.content(v)
            if not isinstance(v, Exc):
                raise Unsupported("raise of non exception")
            raise PyRaise(v)
        return self.run(st, go)

    def s_Assert(self, st, s):
        def go():
            if not self.decide(self.cond(s.test)):
                raise PyRaise(Exc("AssertionError", info=f"line {s.lineno}"))
        return self.simple(st, go)

    def s_Global(self, st, s):
        raise Unsupported("global")

    def s_Nonlocal(self, st, s):
        def go():
            fr = self.st.frames[self.st.cur]
            fr["$nonlocal"] = tuple(fr.get("$nonlocal", ())) + tuple(s.names)
        return self.simple(st, go)

    def s_FunctionDef(self, st, s):
        def go():
            fr = self.st.frames[self.st.cur]
            self.set_var(s.name, Fn(s, fr["$mod"], s.name, parent=self.st.cur))
        return self.simple(st, go)

    def s_ClassDef(self, st, s):
        raise Unsupported("local class")

    def is_noise(self, stmts):
        """only logging / pass: no effect on any property"""
        for x in stmts:
            if isinstance(x, ast.Pass):
                continue
            if isinstance(x, ast.Expr) and (isinstance(x.value, ast.Constant) or isinstance(x.value, ast.Call) and self.is_log(x.value)):
                continue
            if isinstance(x, ast.For) and self.is_noise(x.body) and self.is_noise(x.orelse):
                continue
            if isinstance(x, ast.If) and self.is_noise(x.body) and self.is_noise(x.orelse) and not self.has_walrus(x.test):
                continue
            return False
        return True

    def s_If(self, st, s):
        if self.is_noise(s.body) and self.is_noise(s.orelse) and not self.has_walrus(s.test):
            return [(st, NORMAL)]
        if isinstance(s.test, ast.Name) and s.test.id == "TYPE_CHECKING":
            return self.exec_block(st, s.orelse)

        def go():
            c = self.decide(self.cond(s.test))
            return ("then",) if c else ("else",)
        res = []
        for x, o in self.run(st, go):
            if o[0] == "raise":
                res.append((x, o))
            else:
                res.extend(self.exec_block(x, s.body if o[0] == "then" else s.orelse))
        return self.merge_states(res)

    def s_Match(self, st, s):
        # match <subject>: case literal | or-pattern | wildcard
        def go():
            v = self.eval(s.subject)
            for k, c in enumerate(s.cases):
                if self.decide(self.pattern(c.pattern, v)) and (c.guard is None or self.decide(self.cond(c.guard))):
                    return ("case", k)
            return ("case", None)
        res = []
        for x, o in self.run(st, go):
            if o[0] == "raise":
                res.append((x, o))
            elif o[1] is None:
                res.append((x, NORMAL))
            else:
                res.extend(self.exec_block(x, s.cases[o[1]].body))
        return res

    def pattern(self, p, v):
        if isinstance(p, ast.MatchValue):
            return self.eq(self.eval(p.value), v)
        if isinstance(p, ast.MatchOr):
            return Or([self.pattern(x, v) for x in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            if p.name:
                self.set_var(p.name, v)
            return TRUE
        if isinstance(p, ast.MatchSingleton):
            return self.is_none(self.content(v)) if p.value is None else self.eq(v, B(z3.BoolVal(p.value)))
        raise Unsupported("match pattern")

    # try / with
    def exc_matches(self, exc: Exc, cls: Cls):
        return self.repo.exc_issub(exc.cls, cls.name)

    def s_Try(self, st, s):
        saved = dict(self.noraise)
        outs = self.exec_block(st, s.body)
        if s.handlers:
            self.noraise = saved
        res = []
        for x, o in outs:
            if o[0] == "raise":
                res.extend(self.handle(x, o[1], s.handlers, o))
            elif o is NORMAL and s.orelse:
                res.extend(self.exec_block(x, s.orelse))
            else:
                res.append((x, o))
        if s.finalbody:
            fin = []
            for x, o in res:
                for y, p in self.exec_block(x, s.finalbody):
                    fin.append((y, o if p is NORMAL else p))
            res = fin
        return res

    def handle(self, st, exc, handlers, o):
        for h in handlers:
            if h.type is None:
                match = True
            else:
                s2 = st.copy()
                old = self.st
                self.st = s2
                saved = self.dec
                self.dec = Decisions(())
                self.dec.memo = {}
                try:
                    t = self.eval(h.type)
                finally:
                    self.st, self.dec = old, saved
                cl = t.items if isinstance(t, T) else (t,)
                r = [self.exc_matches(exc, c) for c in cl]
                match = True if any(x is True for x in r) else None if any(x is None for x in r) else False
            if match is None:
                # unknown exception class: may or may not match
                s1, s2 = st.copy(), st
                s1.uid, s2.uid = intern_uid(st.uid, "h1"), intern_uid(st.uid, "h2")
                return self.run_handler(s1, exc, h) + self.handle(s2, exc, handlers[handlers.index(h) + 1:], o)
            if match:
                return self.run_handler(st, exc, h)
        return [(st, o)]

    def run_handler(self, st, exc, h):
        s = st.copy()
        if h.name:
            s.frames[s.cur][h.name] = exc
        prev = s.ghost.get("exc")
        s.ghost["exc"] = exc
        outs = self.exec_block(s, h.body)
        for y, _ in outs:
            y.ghost["exc"] = prev
        return outs

    def s_With(self, st, s):
        if len(s.items) > 1:
            inner = ast.With(s.items[1:], s.body)
            inner.lineno, inner.col_offset = s.lineno, s.col_offset
            s2 = ast.With(s.items[:1], [inner])
            s2.lineno, s2.col_offset = s.lineno, s.col_offset
            return self.s_With(st, s2)
        it = s.items[0]
        key = f"$with{s.lineno}_{s.col_offset}"

        def enter():
            cm = self.eval(it.context_expr)
            self.st.frames[self.st.cur][key] = cm
            v = self.models.cm_enter(self, cm)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
            return NORMAL
        res = []
        saved = dict(self.noraise)
        for x, o in self.run(st, enter):
            if o[0] == "raise":
                res.append((x, o))
                continue
            blk = self.exec_block(x, s.body)
            self.noraise = dict(saved)
            for y, p in blk:
                def leave(p=p):
                    cm = self.st.frames[self.st.cur][key]
                    sup = self.models.cm_exit(self, cm, p[1] if p[0] == "raise" else None)
                    if p[0] == "raise" and sup is not None and self.decide(sup):
                        return NORMAL
                    return p
                res.extend(self.run(y, leave))
        return res

    # ------------------------------------------------------------ loops
    def s_For(self, st, s):
        if self.is_noise(s.body) and self.is_noise(s.orelse):
            return [(st, NORMAL)]

        def go():
            v = self.eval(s.iter)
            return ("iter", self.models.iter_segs(self, v))
        res = []
        for x, o in self.run(st, go):
            if o[0] == "raise":
                res.append((x, o))
                continue
            outs = self.exec_segs(x, o[1], s.target, self.fresh_lists(s), getattr(s, "_acc", None))
            for y, p in outs:
                if p[0] == "break":
                    res.append((y, NORMAL))
                elif p is NORMAL and s.orelse:
                    res.extend(self.exec_block(y, s.orelse))
                else:
                    res.append((y, p))
        return self.merge_states(res)

    def fresh_lists(self, s):
        """os.walk hands out new lists, which the loop may change: its order of visits follows them"""
        if not (isinstance(s.iter, ast.Call) and ast.unparse(s.iter.func) == "os.walk" and isinstance(s.target, ast.Tuple)):
            return s.body
        if getattr(s, "_fresh", None) is None:
            s._fresh = [ast.fix_missing_locations(ast.copy_location(ast.parse(f"{t.id} = list({t.id})").body[0], s)) for t in s.target.elts[1:] if isinstance(t, ast.Name) and t.id != "_"]
        return s._fresh + s.body

    def exec_segs(self, st, segs, target, body, seed=None):
        states = [(st, NORMAL)]
        unrolled = len(segs) > 2 and all(isinstance(g, U) for g in segs)
        for g in segs:
            nxt = []
            for x, o in states:
                if o is not NORMAL:
                    nxt.append((x, o))
                else:
                    nxt.extend(self.exec_seg(x, g, target, body, seed))
            states = self.merge_states(nxt)
            if unrolled and len(states) > 1:
                states = self.join_states(states)
        return states

    def join_states(self, states):
        """merge the fall-through states of one unrolled iteration by value (if-then-else on the path condition)"""
        out = []
        for s, o in states:
            if o is NORMAL:
                for i, (t, p) in enumerate(out):
                    if p is NORMAL:
                        m = self.join_two(t, s)
                        if m is not None:
                            out[i] = (m, NORMAL)
                            break
                else:
                    out.append((s, o))
            else:
                out.append((s, o))
        return out

    def join_two(self, s, t):
        if s.trace is not t.trace or s.epoch != t.epoch or s.cur != t.cur or not t_same(s.skolems, t.skolems):
            return None
        n = 0
        while n < len(s.pc) and n < len(t.pc) and (s.pc[n] is t.pc[n] or s.pc[n].eq(t.pc[n])):
            n += 1
        cs, ct = And(s.pc[n:]), And(t.pc[n:])
        if not self.solver.quick_unsat(s.pc[:n] + [cs, ct], self.defs):
            return None
        m = s.copy()
        d = self.or_delta(cs, ct)
        saved, self.st = self.st, m
        try:
            for cid, c in t.heap.items():
                if cid not in m.heap:
                    m.heap[cid] = c
                elif m.heap[cid] is not c:
                    m.heap[cid] = self.join_val(cs, ct, m.heap[cid], c)
            for fid, fr in t.frames.items():
                g = m.frames.get(fid)
                if g is None:
                    m.frames[fid] = fr
                    continue
                for k in set(g) | set(fr):
                    a, b = g.get(k), fr.get(k)
                    if a is b or (a is not None and b is not None and self.same_val(a, b)):
                        continue
                    if a is None or b is None:
                        g[k] = Undef("bound on some paths only")
                    elif isinstance(a, Undef) or isinstance(b, Undef):
                        g[k] = Undef("bound on some paths only")
                    else:
                        if isinstance(a, (Ref, PRef)) or isinstance(b, (Ref, PRef)):
                            return None
                        g[k] = self.join_val(cs, ct, a, b)
        except Unsupported:
            return None
        finally:
            self.st = saved
        m.pc = s.pc[:n] + conj(d)
        m.uid = intern_uid(s.uid, ("jv", t.uid))
        m.ctr = max(s.ctr, t.ctr)
        return m

    def join_val(self, cs, ct, a, b):
        def split(x, y):
            n = 0
            while n < len(x) and n < len(y) and x[n] is y[n]:
                n += 1
            return tuple(x[:n]) + tuple(guard_segs(cs, tuple(x[n:]))) + tuple(guard_segs(ct, tuple(y[n:])))
        if type(a) is type(b):
            if isinstance(a, Acc) and a.kind == b.kind and a.tag == b.tag and a.pre is b.pre:
                return Acc(a.kind, a.pre, split(a.ops, b.ops), a.tag)
            if isinstance(a, L) or isinstance(a, St):
                return type(a)(split(a.segs, b.segs), *([a.kind] if isinstance(a, L) else [a.frozen]))
            if isinstance(a, D) and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))):
                return D(a.base, split(a.ops, b.ops), a.kty if a.kty != ANY else b.kty, a.vty if a.vty != ANY else b.vty, a.default, a.shared)
        return self.vite(cs, a, b)

    def exec_seg(self, st, g, target, body, seed=None):
        if isinstance(g, U):
            def go():
                if not self.decide(g.g):
                    return ("skip",)
                self.assign(target, g.v)
                return ("go",)
            res = []
            for x, o in self.run(st, go):
                if o[0] == "go":
                    for y, p in self.exec_block(x, body):
                        res.append((y, NORMAL if p[0] == "continue" else p))
                elif o[0] == "skip":
                    res.append((x, NORMAL))
                else:
                    res.append((x, o))
            return res
        return self.summarise(st, rename(g), target, body, seed)

    # ---- summarisation of a loop over a domain of unknown size
    def summarise(self, st, g, target, body, seed=None):
        x = g.var
        hyp = And(g.dom.mem(x), g.g)
        tnames = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        W = {}
        if seed is not None:
            W[("h", st.frames[st.cur][seed].cid)] = True
        for rnd in range(12):
            s0, tags = self.loop_start(st, W, x)
            s0.binders = s0.binders + (x,)
            s0.pc.extend(conj(hyp))
            s0.trace = ()
            s0.uid = intern_uid(s0.uid, ("it", rnd, str(x)))
            n0 = len(s0.pc)
            saved_atoms = self.atoms
            self.atoms = {}
            try:
                outs = self.exec_segs(s0.copy(), g.body, target, body, seed)
                atoms = self.atoms
            finally:
                self.atoms = saved_atoms
            new = self.changed(s0, outs, st)
            new = {k for k in new if k not in W}
            if not new:
                break
            for k in new:
                W[k] = True
        else:
            raise Unsupported("loop effects do not stabilise")
        self.check_own_keyed(outs, W, x, g)
        normal, exits = [], []
        for s, o in outs:
            gd = And(s.pc[n0:])
            sk = [k for k in s.skolems if not t_in(k, st.skolems)]
            (normal if o is NORMAL else exits).append((s, o, gd, sk))
        # flags and last-writer scalars: substitute loop-carried reads by their prefix meaning
        pairs = self.resolve_carried(st, s0, W, tags, atoms, x, g, hyp, normal, exits)
        if pairs:
            sb = Sub(pairs)
            normal = [(s, o, sb.t(gd), sk) for s, o, gd, sk in normal]
            exits = [(s, o, sb.t(gd), sk) for s, o, gd, sk in exits]
        else:
            sb = Sub([])

        def noexit(var_sub, gd_list):
            return Or([exq(sk, gd) for s, o, gd, sk in exits])

        def exq(sk, gd):
            for k in sk:
                gd = exists1(k, gd)
            return gd
        E = Or([exq(sk, gd) for s, o, gd, sk in exits])
        res = []
        # normal completion
        post = st.copy()
        post.uid = intern_uid(post.uid, ("ls", str(x)))
        if exits:
            noexit = forall1(x, hyp, Not(E))
            post.pc.append(noexit)
            if all(o[0] == "raise" for s, o, gd, sk in exits):
                self.noraise[noexit.get_id()] = noexit
        self.adopt(post, [s for s, *_ in outs], st)
        if self.effects(st, post, s0, W, tags, g, normal, sb, TRUE, TRUE if not exits else None):
            if not (exits and self.solver.quick_unsat(list(post.pc), self.defs)):
                res.append((post, NORMAL))
        # exits
        for s, o, gd, sk in exits:
            e = s.copy()
            e.binders = st.binders
            e.skolems = st.skolems + (x,) + tuple(k for k in s.skolems if not t_in(k, st.skolems))
            e.pc = [sb.t(c) for c in e.pc]
            y = fresh_binder(x.sort())
            sy = Sub([(x, y)])
            bef = g.dom.before(y, x)
            prefix_ok = True
            e.pc.append(forall1(y, And(sy.t(hyp), bef), Not(sy.t(E))))
            e.uid = intern_uid(e.uid, ("ex", str(x)))
            self.effects(st, e, s0, W, tags, g, normal, sb, bef, (x, y))
            e.trace = st.trace + self.trace_prefix(g, normal, sb, x, y, bef) + tuple(t.subst(sb) for t in s.trace)
            o2 = (o[0],) + tuple(subst(v, sb) if isinstance(v, Val) and not isinstance(v, (Ref, PRef)) else v for v in o[1:])
            res.append((e, o2))
        return res

    def adopt(self, post, states, st):
        for s in states:
            for cid, c in s.heap.items():
                if cid not in post.heap:
                    post.heap[cid] = c
            post.ctr = max(post.ctr, s.ctr)

    def trace_prefix(self, g, normal, sb, x, y, bef):
        segs = []
        for s, o, gd, sk in normal:
            if s.trace:
                segs.extend(guard_segs(gd, tuple(t.subst(sb) for t in s.trace)))
        if not segs:
            return ()
        sy = Sub([(x, y)])
        return (G(y, g.dom, And(sy.t(g.g), bef), tuple(t.subst(sy) for t in segs)),)

    def loop_start(self, st, W, x):
        """state at the start of an arbitrary iteration, accumulators replaced by placeholders"""
        s = st.copy()
        tags = {}
        for loc in W:
            tag = f"{loc[-1]}@{x}"
            tags[loc] = tag
            if loc[0] == "h":
                c = s.heap[loc[1]]
                if loc[1] in self.havoc_rel:
                    con, p, ty = self.havoc_rel[loc[1]]
                    old, self.st = self.st, s
                    s.binders = s.binders + (x,)
                    try:
                        con.havoc(self, loc[1], p, ty, c)
                    finally:
                        s.binders = s.binders[:-1]
                        self.st = old
                    continue
                if isinstance(c, (Ref, PRef)):
                    c = None
                k = self.kind(c) if c is not None else "?"
                if isinstance(c, Acc):
                    s.heap[loc[1]] = Acc(c.kind, c, (), tag)
                elif k in ("l", "s", "d") and c is not None:
                    kk = {"l": "list", "s": "set", "d": "dict"}[k]
                    s.heap[loc[1]] = Acc(kk, self.as_dict_of(c) if k == "d" else c, (), tag)
                elif isinstance(c, O):
                    s.heap[loc[1]] = O(c.cls, {n: self.placeholder(v, f"{tag}.{n}") for n, v in c.fields.items()})
                else:
                    raise Unsupported("loop mutates " + type(c).__name__)
            else:
                fr = s.frames[loc[1]]
                if loc[2] in fr:
                    fr[loc[2]] = self.placeholder(fr[loc[2]], tag)
                else:
                    fr[loc[2]] = Undef("loop-carried local")
        return s, tags

    def as_dict_of(self, c):
        return c if isinstance(c, D) else self.as_dict(c)

    def placeholder(self, v, tag):
        if isinstance(v, B):
            return B(z3.Bool("pre!" + tag))
        if isinstance(v, I):
            return I(z3.Int("pre!" + tag))
        if isinstance(v, (S, EnumV)):
            sv = self.scalar(v)
            ty = sv.ty
            if ty == TNONE:
                return Pre(tag, "none")
            return S(z3.Const("pre!" + tag, V), ty)
        if isinstance(v, (Ref, PRef, Fn, Cls, Mod, Bi)):
            return v
        return Pre(tag)

    def changed(self, s0, outs, st):
        ch = set()
        for s, o in outs:
            for cid, c in s0.heap.items():
                if cid in st.heap and s.heap.get(cid) is not c:
                    ch.add(("h", cid))
            for fid, fr in s0.frames.items():
                f2 = s.frames.get(fid)
                if f2 is None or fid not in st.frames:
                    continue
                for k, v in f2.items():
                    if k.startswith("$with"):
                        continue
                    if fr.get(k) is not v:
                        ch.add(("v", fid, k))
        return ch

    def resolve_carried(self, st, s0, W, tags, atoms, x, g, hyp, normal, exits):
        """express every read of a loop-carried flag / accumulator membership at iteration x through the effects of the
        iterations before x; returns substitution pairs"""
        pairs = []
        y = fresh_binder(x.sort())
        sy = Sub([(x, y)])
        allsyms = set()
        for s, o, gd, sk in normal + exits:
            allsyms |= symbols(gd)
        def used(sym):
            if sym in allsyms:
                return True
            for s, o, gd, sk in normal + exits:
                for loc in W:
                    v = self.loc_val(s, loc)
                    if sym in self.val_syms(v):
                        return True
                if any(sym in self.val_syms(t) for t in s.trace):
                    return True
                if len(o) > 1 and sym in self.val_syms(o[1]):
                    return True
            return False
        self._absent, self._latches = {}, {}
        # accumulator atoms
        for tag, apps in atoms.items():
            locs = [l for l in W if tags[l] == tag]
            if not locs:
                # atom of an outer loop: leave for it
                self.atoms.setdefault(tag, []).extend(apps)
                continue
            loc = locs[0]
            kind = s0.heap[loc[1]].kind
            names = {a.decl().name() for a in apps}
            stripped, absent = [], False
            dead = self.dead_atoms(loc, apps, names, normal, s0, g, x, y, sy, hyp)
            for a in dead.values():
                pairs.append((a, FALSE))
            apps = [a for a in apps if a.get_id() not in dead]
            for s, o, gd, sk in normal:
                acc = s.heap[loc[1]]
                ops, ab = self.strip_absent(acc, gd, names, dead)
                if ops is None:
                    raise Unsupported("accumulator read in a way that is not if-absent")
                absent |= ab
                stripped.extend(ops)
            self._absent[loc] = (absent, {id(s): self.strip_absent(s.heap[loc[1]], gd, names, dead)[0] for s, o, gd, sk in normal})
            pre = s0.heap[loc[1]].pre
            body_y = tuple(t.subst(sy) for t in stripped)
            for a in {b.get_id(): b for b in apps}.values():
                if a.num_args() and not (a.decl().name().endswith("?ne")):
                    k = a.arg(0)
                    kv = self.wrap(k, ANY)
                    prem = self.member(pre, kv) if not isinstance(pre, Acc) else self.acc_member(pre, kv)
                    inn = seg_member((G(y, g.dom, And(sy.t(g.g), g.dom.before(y, x)), body_y),),
                                     lambda v: self.eq(v.key if isinstance(v, Op) else v, kv) if not (isinstance(v, Op) and v.kind in ("sub", "field")) else FALSE)
                    pairs.append((a, Or(prem, inn)))
                else:
                    prem = self.truth(pre)
                    inn = seg_nonempty((G(y, g.dom, And(sy.t(g.g), g.dom.before(y, x)), body_y),))
                    pairs.append((a, Or(prem, inn)))
        # flags
        for loc in W:
            if loc[0] == "v":
                items = [(loc, None, s0.frames[loc[1]].get(loc[2]), st.frames[loc[1]].get(loc[2]))]
            else:
                c = s0.heap[loc[1]]
                if not isinstance(c, O):
                    continue
                items = [(loc, n, v, st.heap[loc[1]].fields[n]) for n, v in c.fields.items()]
            for l, n, ph, pre in items:
                if isinstance(ph, B) and z3.is_const(ph.t) and ph.t.decl().name().startswith("pre!"):
                    sym = ph.t.decl().name()
                    if not used(sym):
                        continue
                    f = self.step_fn(normal, l, n, ph)
                    if f is None:
                        raise Unsupported("flag with container value")
                    latch = self.latch(f, ph.t, hyp)
                    if latch is None:
                        raise Unsupported("loop-carried flag is not a latch")
                    on, cond = latch
                    for q in sorted(symbols(cond) & {f"pre!{t}" for t in tags.values()}):
                        # the path split on another flag, but the update does not depend on it
                        c1, c0 = z3.substitute(cond, (z3.Bool(q), TRUE)), z3.substitute(cond, (z3.Bool(q), FALSE))
                        if q != sym and self.valid([hyp], c1 == c0, c1 == c0):
                            cond = z3.simplify(c1)
                    if any(s.startswith("pre!") and s in {f"pre!{t}" for t in tags.values()} for s in symbols(cond)):
                        raise Unsupported("mutually dependent flags")
                    self._latches[ph.t.decl().name()] = (on, cond)
                    p = exists1(y, And(sy.t(And(hyp, cond)), g.dom.before(y, x)))
                    val = Or(pre.t, p) if on else And(pre.t, Not(p))
                    pairs.append((ph.t, val))
                elif isinstance(ph, (S, I)) and z3.is_const(ph.t) and ph.t.decl().name().startswith("pre!") and used(ph.t.decl().name()):
                    # folds are handled in effects(); a read that escapes into guards of other effects is not
                    sym = ph.t.decl().name()
                    self._fold_used = True
        return pairs

    def val_syms(self, v):
        out = set()
        if v is None or isinstance(v, (Fn, Cls, Mod, EnumV, str, Undef, Pre)):
            return out
        if isinstance(v, (B, I, S)):
            return symbols(v.t)
        if isinstance(v, T):
            for i in v.items:
                out |= self.val_syms(i)
        elif isinstance(v, (L, St)):
            for s in v.segs:
                out |= self.val_syms(s)
        elif isinstance(v, D):
            for s in v.ops:
                out |= self.val_syms(s)
        elif isinstance(v, Acc):
            for s in v.ops:
                out |= self.val_syms(s)
        elif isinstance(v, U):
            out |= symbols(v.g) | self.val_syms(v.v)
        elif isinstance(v, G):
            out |= symbols(v.g)
            for s in v.body:
                out |= self.val_syms(s)
        elif isinstance(v, Op):
            out |= self.val_syms(v.key) if isinstance(v.key, Val) else set()
            if isinstance(v.val, tuple):
                for s in v.val:
                    out |= self.val_syms(s)
            else:
                out |= self.val_syms(v.val)
        elif isinstance(v, O):
            for f in v.fields.values():
                out |= self.val_syms(f)
        elif isinstance(v, Exc):
            for f in v.args:
                out |= self.val_syms(f)
        return out

    def loc_val(self, s, loc):
        return s.heap.get(loc[1]) if loc[0] == "h" else s.frames[loc[1]].get(loc[2])

    def step_fn(self, normal, loc, fld, ph):
        """value of a boolean location after one iteration, as a formula over its value before"""
        r = []
        rest = FALSE
        for s, o, gd, sk in normal:
            v = self.loc_val(s, loc)
            if fld is not None:
                v = v.fields[fld]
            if not isinstance(v, B):
                return None
            r.append(And(gd, v.t))
        return Or(r)

    def latch(self, f, p, hyp):
        """(True, cond) if one iteration is `p := p or cond`; (False, cond) if `p := p and not cond`"""
        f1 = z3.substitute(f, (p, TRUE))
        f0 = z3.substitute(f, (p, FALSE))
        # paths partition the iteration: after an iteration with p true the flag is true on every normal path
        if self.valid([hyp], Imp(z3.substitute(Or([f, Not(f)]), (p, TRUE)), f1), f1):
            return True, z3.simplify(f0)
        if self.valid([hyp], Not(f0), f0):
            return False, z3.simplify(Not(f1))
        return None

    def valid(self, hyps, _goal, main):
        g = _goal
        return self.solver.quick_unsat(list(self.st.pc if self.st else []) + hyps + [Not(g)], self.defs)

    def dead_atoms(self, loc, apps, names, normal, s0, g, x, y, sy, hyp):
        """memberships that never hold when they are tested: even the superset of all keys earlier iterations could have
        added (guards reading the accumulator dropped) does not contain the key"""
        cand = {}
        for s, o, gd, sk in normal:
            for c in conj(gd):
                a = c.arg(0) if z3.is_not(c) else c
                if z3.is_app(a) and a.decl().name() in names and a.num_args() and not a.decl().name().endswith("?ne"):
                    cand[a.get_id()] = a
        if not cand:
            return {}
        sup = []

        def weaken(segs):
            out = []
            for s in segs:
                gg = And([c for c in conj(s.g) if not names & symbols(c)])
                if isinstance(s, U):
                    v = s.v
                    if isinstance(v, Op) and v.kind not in ("put", "absent", "ensure"):
                        if v.kind in ("sub", "field"):
                            continue
                        return None
                    out.append(U(gg, v))
                else:
                    b = weaken(s.body)
                    if b is None or names & self.val_syms(s.dom.term if False else B(s.dom.mem(s.var))):
                        return None
                    out.append(G(s.var, s.dom, gg, tuple(b)))
            return out
        for s, o, gd, sk in normal:
            acc = s.heap[loc[1]]
            if not isinstance(acc, Acc) or sk:
                return {}
            w = weaken(acc.ops)
            if w is None:
                return {}
            sup.extend(guard_segs(And([c for c in conj(gd) if not names & symbols(c)]), tuple(w)))
        pre = s0.heap[loc[1]].pre
        if isinstance(pre, Acc):
            return {}
        body_y = tuple(t.subst(sy) for t in sup)
        dead = {}
        for i, a in cand.items():
            kv = self.wrap(a.arg(0), ANY)
            m = Or(self.member(pre, kv), seg_member((G(y, g.dom, And(sy.t(g.g), g.dom.before(y, x)), body_y),),
                                                    lambda v: self.eq(v.key if isinstance(v, Op) else v, kv)))
            if self.solver.quick_unsat(list(self.st.pc) + [hyp, m], self.defs, True):
                dead[i] = a
        return dead

    def strip_absent(self, acc, gd, names, dead=()):
        """ops of one path with the path guard, the `key not yet present` conjunct removed; None if the accumulator is read
        in any other way by its own effects"""
        out, absent = [], False
        # `no earlier statement raised` holds in every completed iteration: it does not restrict the effects
        cs = [c for c in conj(gd) if c.get_id() not in self.noraise and not (z3.is_not(c) and c.arg(0).get_id() in dead)]
        if any(c.get_id() in dead for c in cs):
            return [], False

        def atom_of(c):
            if z3.is_not(c) and z3.is_app(c.arg(0)) and c.arg(0).decl().name() in names and c.arg(0).num_args():
                return c.arg(0).arg(0)
            return None
        if not isinstance(acc, Acc):
            return None, False
        for s in acc.ops:
            if isinstance(s, G):
                if names & self.val_syms(s):
                    return None, False
                rest = [c for c in cs if not (names & symbols(c))]
                if len(rest) != len(cs):
                    return None, False
                out.extend(guard_segs(And(rest), (s,)))
                continue
            key = s.v.key if isinstance(s.v, Op) else s.v
            try:
                kt = to_term(self.content(key)) if not isinstance(key, str) else None
            except Unsupported:
                kt = None
            rest, ab = [], False
            for c in cs + conj(s.g):
                a = atom_of(c)
                if a is not None and kt is not None and a.eq(kt):
                    ab = True
                    continue
                if names & symbols(c):
                    return None, False
                rest.append(c)
            absent |= ab
            v = s.v
            if ab and isinstance(v, Op) and v.kind == "put":
                v = Op("absent", v.key, v.val)
            out.append(U(And(rest), v))
        return out, absent

    def effects(self, st, post, s0, W, tags, g, normal, sb, bef, mode):
        """install the accumulated effects of the (prefix of the) iterations into post"""
        x = g.var
        exit_mode = isinstance(mode, tuple)
        if exit_mode:
            xe, y = mode
            sy = Sub([(x, y)])
        for loc in W:
            if loc[0] == "h":
                c0 = st.heap[loc[1]]
                a0 = s0.heap[loc[1]]
                if loc[1] in self.havoc_rel:
                    if any(not isinstance(s.heap[loc[1]], S) for s, o, gd, sk in normal):
                        raise Unsupported("a container a callee changes arbitrarily is also updated in the loop")
                    if not exit_mode:
                        con, p, ty = self.havoc_rel[loc[1]]
                        old, self.st = self.st, post
                        try:
                            con.havoc(self, loc[1], p, ty, c0)
                        finally:
                            self.st = old
                    continue
                if isinstance(a0, Acc):
                    segs = []
                    ab = self._absent.get(loc) if hasattr(self, "_absent") else None
                    pre_n = 0
                    if not (ab and ab[0]):
                        pre_n = common_prefix([s.heap[loc[1]].ops for s, o, gd, sk in normal if isinstance(s.heap[loc[1]], Acc)])
                        if pre_n:       # what every completed iteration does
                            segs.extend(t.subst(sb) for t in normal[0][0].heap[loc[1]].ops[:pre_n])
                    for s, o, gd, sk in normal:
                        acc = s.heap[loc[1]]
                        if not isinstance(acc, Acc):
                            raise Unsupported("accumulator rebound in loop")
                        if pre_n:
                            segs.extend(guard_segs(gd, tuple(t.subst(sb) for t in acc.ops[pre_n:])))
                        elif ab and ab[0] and a0.kind in ("dict", "set"):
                            ops = ab[1][id(s)]
                            segs.extend(t.subst(sb) for t in ops)
                        elif acc.ops:
                            segs.extend(guard_segs(gd, tuple(t.subst(sb) for t in acc.ops)))
                    new = ()
                    if segs:
                        if exit_mode:
                            new = (G(y, g.dom, And(sy.t(g.g), bef), tuple(t.subst(sy) for t in segs)),)
                        else:
                            new = (G(x, g.dom, g.g, tuple(segs)),)
                    if exit_mode:
                        own = post.heap[loc[1]]
                        own_ops = tuple(t.subst(sb) for t in own.ops) if isinstance(own, Acc) else None
                        if own_ops is None:
                            raise Unsupported("accumulator rebound in loop")
                        new = new + own_ops
                    if isinstance(c0, Acc):
                        post.heap[loc[1]] = Acc(c0.kind, c0.pre, c0.ops + new, c0.tag)
                    else:
                        old = self.st
                        self.st = post
                        try:
                            post.heap[loc[1]] = self.apply_ops(a0.pre, new) if new else a0.pre
                        finally:
                            self.st = old
                elif isinstance(c0, O):
                    f = {}
                    own = post.heap[loc[1]] if exit_mode else None
                    for n, v in c0.fields.items():
                        f[n] = self.scalar_effect(st, v, a0.fields[n], [(s.heap[loc[1]].fields[n], gd, sk) for s, o, gd, sk in normal],
                                                  g, sb, exit_mode, own.fields[n] if own else None, mode, f"{loc[1]}.{n}", post, bef)
                    for s, o, gd, sk in normal:
                        extra = set(s.heap[loc[1]].fields) - set(c0.fields)
                        for n in extra:
                            f[n] = Undef("attribute set in a loop")
                    post.heap[loc[1]] = O(c0.cls, f)
            else:
                v = st.frames[loc[1]].get(loc[2])
                ph = s0.frames[loc[1]].get(loc[2])
                own = post.frames[loc[1]].get(loc[2]) if exit_mode else None
                vals = [(s.frames[loc[1]].get(loc[2], ph), gd, sk) for s, o, gd, sk in normal]
                if v is None:
                    if not exit_mode:
                        post.frames[loc[1]][loc[2]] = self.last_written(st, vals, g, sb, post)
                    elif isinstance(own, Undef):
                        pass
                    continue
                if not loc[2].startswith("$") and any(k.startswith("$acc") for k in st.frames[loc[1]]):
                    # a comprehension's own variable: never read after the loop that binds it
                    if not exit_mode:
                        post.frames[loc[1]][loc[2]] = Undef("comprehension variable")
                    continue
                post.frames[loc[1]][loc[2]] = self.scalar_effect(st, v, ph, vals, g, sb, exit_mode, own, mode, loc[2], post, bef)
        if not exit_mode:
            segs = []
            for s, o, gd, sk in normal:
                if s.trace:
                    if sk:
                        raise Unsupported("effects after a search inside a loop")
                    segs.extend(guard_segs(gd, tuple(t.subst(sb) for t in s.trace)))
                post.epoch = max(post.epoch, s.epoch)
            if segs:
                post.trace = st.trace + (G(x, g.dom, g.g, tuple(segs)),)
        return True

    def last_written(self, st, vals, g, sb, post):
        return Undef("value left over from the last iteration")

    def scalar_effect(self, st, pre, ph, vals, g, sb, exit_mode, own, mode, name, post, bef):
        x = g.var
        hyp = And(g.dom.mem(x), g.g)

        def unchanged(v):
            return v is ph or (isinstance(v, (B, I, S)) and isinstance(ph, type(v)) and v.t.eq(ph.t)) or \
                (isinstance(v, Ref) and isinstance(ph, Ref) and v.cid == ph.cid)
        ch = [(v, gd, sk) for v, gd, sk in vals if not unchanged(v)]
        if exit_mode:
            xe, y = mode
            sy = Sub([(x, y)])

            def over(cond):
                return exists1(y, And(sy.t(And(hyp, cond)), bef))
            if own is not None and not unchanged(own):
                if isinstance(own, (Ref, PRef, Undef, Fn)):
                    return own
                syms = self.val_syms(own)
                phs = ph.t.decl().name() if isinstance(ph, (B, I, S)) and z3.is_const(ph.t) else None
                own2 = subst(own, sb)
                if phs is None or phs not in self.val_syms(own2):
                    return own2
                if not ch and isinstance(pre, (B, I, S)) and pre.t.sort() == ph.t.sort():      # no completed iteration changes it
                    return subst(own2, Sub([(ph.t, pre.t)]))
                return Undef("fold at loop exit")
        else:
            def over(cond):
                return exists1(x, And(hyp, cond))
        if not ch:
            return pre
        if isinstance(pre, (Ref, Undef)) or any(isinstance(v, (Ref, PRef, Undef, Pre, Fn, Cls)) for v, _, _ in ch):
            return Undef(f"{name} rebound in a loop")
        if any(sk for _, _, sk in ch):
            return Undef(f"{name} assigned after a search in a loop")
        phsym = ph.t.decl().name() if isinstance(ph, (B, I, S)) and z3.is_const(ph.t) else None
        # boolean latch
        if isinstance(ph, B) and phsym in self._latches:
            on, cond = self._latches[phsym]
            cond = sb.t(cond)
            return B(Or(pre.t, over(cond)) if on else And(pre.t, Not(over(cond))))
        if isinstance(ph, B) and all(isinstance(v, B) for v, _, _ in vals):
            f = Or([And(gd, sb.t(v.t)) if phsym not in symbols(sb.t(v.t)) else And(gd, v.t) for v, gd, sk in vals])
            f = Or([And(gd, v.t) for v, gd, sk in vals])
            f = sb.t(f) if phsym not in symbols(f) or not sb.pairs else z3.substitute(f, *[p for p in sb.pairs if not p[0].eq(ph.t)]) if [p for p in sb.pairs if not p[0].eq(ph.t)] else f
            l = self.latch(f, ph.t, hyp)
            if l is not None:
                on, cond = l
                return B(Or(pre.t, over(cond)) if on else And(pre.t, Not(over(cond))))
        vs = [subst(v, sb) for v, _, _ in ch]
        reads = any(phsym in self.val_syms(v) or phsym in symbols(gd) for (v, gd, sk) in ch) if phsym else False
        if not reads and not any(x.decl().name() in self.val_syms(v) for v in vs):
            f = None
            for (v, gd, sk) in ch[1:]:
                if not z3.is_true(self.eq(v, ch[0][0])):
                    break
            else:
                return self.vite(over(Or([gd for _, gd, _ in ch])), vs[0], pre)
        if isinstance(ph, S) and reads:
            r = self.fold(st, pre, ph, vals, g, over, name, post, sb)
            if r is not None:
                return r
            return Undef(f"{name}: fold of unknown shape")
        if not reads and isinstance(pre, (S, EnumV)) and all(isinstance(v, (S, EnumV)) for v in vs):
            # some writer (over-approximation of the last one)
            old = self.st
            self.st = post
            try:
                r = self.fresh("last", V)
                ty = self.scalar(pre).ty
                alts = [And(Not(over(Or([gd for _, gd, _ in ch]))), Eq(r, self.scalar(pre).t))]
                for v, (_, gd, _) in zip(vs, ch):
                    alts.append(over(And(gd, Eq(r, self.scalar(v).t))))
                    ty = union(ty, self.scalar(v).ty)
                self.define(Or(alts))
                return S(r, ty)
            finally:
                self.st = old
        return Undef(f"{name}: loop-carried value")

    def fold(self, st, pre, ph, vals, g, over, name, post, sb):
        """scalar updated as a selection between its old value and values of this iteration, ordered by an int field"""
        x = g.var
        hyp = And(g.dom.mem(x), g.g)
        cls = self.cls_of_ty(strip_none(ph.ty))
        flds = [n for n, t in (self.repo.fields(cls) or {}).items() if t == TINT] if cls else []
        if not flds:
            return None
        # step relation: new value as one term
        step = ph.t
        for v, gd, sk in vals:
            if not isinstance(v, S):
                return None
            step = z3.If(gd, v.t, step)
        cands = []

        def leaves(t):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                leaves(t.arg(1))
                leaves(t.arg(2))
            elif not t.eq(ph.t) and not any(t.eq(c) for c in cands):
                cands.append(t)
        for v, gd, sk in vals:
            leaves(v.t)
        if any(ph.t.decl().name() in symbols(c) for c in cands):
            return None
        mu = uf(f"{strip_none(ph.ty).n}.{flds[0]}", "V>I")
        base = list(st.pc) + [hyp]
        up = self.solver.quick_unsat(base + [Not(mu(step) >= mu(ph.t))], self.defs, slow=True)
        down = (not up) and self.solver.quick_unsat(base + [Not(mu(step) <= mu(ph.t))], self.defs, slow=True)
        old = self.st
        self.st = post
        try:
            r = self.fresh("fold", V)
            q = z3.Const("q!fold", V)
            step_r = z3.substitute(step, (ph.t, q))
            alts = [Eq(r, self.scalar(pre).t)]
            for c in cands:
                # r may be candidate c of some iteration in which some state q selects it
                alts.append(over(And(Eq(r, c), z3.Exists([q], And(step_r == c)) if False else TRUE, Or([gd for v, gd, sk in vals if self._mentions(v, c) and ph.t.decl().name() not in symbols(gd)] or [TRUE]))))
            facts = [Or(alts)]
            if up or down:
                rel = (lambda a, b: a >= b) if up else (lambda a, b: a <= b)
                facts.append(rel(mu(r), mu(self.scalar(pre).t)))
                # the final value is at least (at most) every intermediate result: step(q, x) for the q reached there, and
                # q lies between pre and r, so bound step(q,x) from any q below r
                y = fresh_binder(x.sort())
                sy = Sub([(x, y)])
                low = z3.ForAll([y], Imp(sy.t(hyp), z3.Exists([q], And(rel(mu(q), mu(self.scalar(pre).t)), rel(mu(r), mu(q)),
                                                                      rel(mu(r), mu(sy.t(step_r)))))))
                facts.append(sb.t(low))
            for f in facts:
                self.define(f, owner=r.decl().name())
            return S(r, ph.ty)
        finally:
            self.st = old

    def _mentions(self, v, c):
        if not isinstance(v, S):
            return False
        st, seen = [v.t], set()
        while st:
            t = st.pop()
            if t.eq(c):
                return True
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                st += [t.arg(1), t.arg(2)]
        return False

    def s_While(self, st, s):
        from . import whileloop
        return whileloop.exec_while(self, st, s)
