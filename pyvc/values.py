"""Symbolic values: scalars over z3 terms, collections in comprehension normal form."""
from __future__ import annotations
import z3
from dataclasses import dataclass, field as dfield
from typing import Any
from .terms import *


class Unsupported(Exception):
    """construct outside the verified subset: the obligation is *undecided* (never a violation)"""


# ---------------------------------------------------------------- types
@dataclass(frozen=True)
class Ty:
    n: str
    a: tuple = ()

    def __repr__(self):
        return self.n + (f"[{','.join(map(repr, self.a))}]" if self.a else "")

ANY, STR, PATH, TINT, TBOOL, TNONE, BYTES = map(Ty, ["Any", "str", "Path", "int", "bool", "None", "bytes"])
LISTY = {"list", "tuple*", "iter"}
SETY = {"set", "frozenset"}
DICTY = {"dict", "defaultdict"}


def is_optional(ty):
    return ty.n == "Union" and TNONE in ty.a or ty.n in ("Any", "None")


def strip_none(ty):
    if ty.n == "Union":
        a = tuple(x for x in ty.a if x != TNONE)
        return a[0] if len(a) == 1 else Ty("Union", a)
    return ty


def union(a, b):
    if a == b:
        return a
    if a.n == "Any" or b.n == "Any":
        return ANY
    s = []
    for t in (a, b):
        for x in (t.a if t.n == "Union" else (t,)):
            if x not in s:
                s.append(x)
    return Ty("Union", tuple(s))


# ---------------------------------------------------------------- scalars
class Val:
    pass


@dataclass(eq=False)
class B(Val):
    t: Any


@dataclass(eq=False)
class I(Val):
    t: Any


@dataclass(eq=False)
class S(Val):
    t: Any
    ty: Ty = ANY

    @property
    def lit(self):
        return lit_value(self.t)


NONE = S(NONE_T, TNONE)


def pstr(s):
    return S(lit(s), BYTES if isinstance(s, bytes) else STR)


@dataclass(eq=False)
class T(Val):
    items: tuple
    cls: Any = None          # namedtuple class


@dataclass(eq=False)
class EnumV(Val):
    cls: Any                 # Cls
    member: str
    value: Any               # Val


# ---------------------------------------------------------------- collections
@dataclass(frozen=True, eq=False)
class Dom:
    """iteration domain of a binder.  kind: list (Int binder, lo<=i<hi over opaque list term), range (Int binder),
    set / keys (V binder over an opaque container term), pred (V binder, membership of segs)"""
    kind: str
    term: Any = None
    lo: Any = None
    hi: Any = None
    rev: bool = False
    segs: tuple = ()
    order: str = "own"       # own | sorted | any

    def mem(self, x):
        if self.kind in ("list", "range"):
            return And(self.lo <= x, x < self.hi)
        if self.kind == "set":
            return app("in", "VV>B", self.term, x)
        if self.kind == "keys":
            return app("has", "VV>B", self.term, x)
        if self.kind == "pred":
            return seg_member(self.segs, lambda v: eq_term(v, x))
        raise Unsupported("dom " + self.kind)

    def before(self, y, x):
        """y is iterated strictly before x (both members)"""
        if self.kind in ("list", "range"):
            return (y > x) if self.rev else (y < x)
        if self.order == "sorted":
            f = app("str_lt", "VV>B", y, x)
            return app("str_lt", "VV>B", x, y) if self.rev else f
        if self.kind == "pred":
            return uf("bef_pred", "VV>B")(y, x) if not self.rev else uf("bef_pred", "VV>B")(x, y)
        a, b = (x, y) if self.rev else (y, x)
        return app("bef_" + self.kind, "VVV>B", self.term, a, b)

    def sort(self):
        return INT if self.kind in ("list", "range") else V

    def subst(self, sub):
        return Dom(self.kind, None if self.term is None else sub.t(self.term), None if self.lo is None else sub.t(self.lo),
                   None if self.hi is None else sub.t(self.hi), self.rev, tuple(s.subst(sub) for s in self.segs), self.order)

    def same(self, o):
        def e(a, b):
            return (a is None and b is None) or (a is not None and b is not None and a.eq(b))
        return (self.kind == o.kind and e(self.term, o.term) and e(self.lo, o.lo) and e(self.hi, o.hi)
                and self.rev == o.rev and self.order == o.order and (self.kind != "pred" or alpha_same(self.segs, o.segs)))


def alpha_same(xs, ys):
    """the same segments up to the names of their binders (strings and numbers only)"""
    if len(xs) != len(ys):
        return False
    for x, y in zip(xs, ys):
        if isinstance(x, U) and isinstance(y, U):
            if not (x.g.eq(y.g) and isinstance(x.v, S) and isinstance(y.v, S) and x.v.t.eq(y.v.t)):
                return False
        elif isinstance(x, G) and isinstance(y, G) and x.var.sort() == y.var.sort() and x.dom.same(y.dom):
            s = Sub([(y.var, x.var)])
            if not (x.g.eq(s.t(y.g)) and alpha_same(x.body, tuple(b.subst(s) for b in y.body))):
                return False
        else:
            return False
    return True


class Sub:
    def __init__(self, pairs):
        self.pairs = pairs

    def t(self, e):
        return z3.substitute(e, *self.pairs) if self.pairs else e


@dataclass(frozen=True, eq=False)
class U:
    g: Any
    v: Any

    def subst(self, sub):
        return U(sub.t(self.g), subst(self.v, sub))


@dataclass(frozen=True, eq=False)
class G:
    var: Any
    dom: Dom
    g: Any
    body: tuple

    def subst(self, sub):
        return G(self.var, self.dom.subst(sub), sub.t(self.g), tuple(s.subst(sub) for s in self.body))


_bc = [0]


def fresh_binder(sort, hint="b"):
    _bc[0] += 1
    return z3.Const(f"${hint}{_bc[0]}", sort)


def rename(gs: G) -> G:
    v = fresh_binder(gs.var.sort())
    s = Sub([(gs.var, v)])
    return G(v, gs.dom, s.t(gs.g), tuple(x.subst(s) for x in gs.body))


@dataclass(frozen=True, eq=False)
class L(Val):
    segs: tuple = ()
    kind: str = "list"
    items_of: Any = None      # (key segments, pairing of key segments with values) of a dict's items
    nodup: bool = False       # known to hold no element twice
    raw: Any = None           # simpler segments with the same members (in any order, possibly repeated)


@dataclass(frozen=True, eq=False)
class St(Val):
    segs: tuple = ()
    frozen: bool = False


@dataclass(frozen=True, eq=False)
class Op:
    """dict operation: put / absent / del / sub (nested segs added) / ensure"""
    kind: str
    key: Any
    val: Any = None


@dataclass(frozen=True, eq=False)
class D(Val):
    base: Any = None          # V term of an opaque dict, or None
    ops: tuple = ()           # segs of Op
    kty: Ty = ANY
    vty: Ty = ANY
    default: Any = None       # factory for defaultdict: 'set' | 'list' | value thunk
    shared: bool = False


@dataclass(frozen=True, eq=False)
class O(Val):
    cls: Any
    fields: dict = dfield(default_factory=dict)


@dataclass(frozen=True, eq=False)
class Ref(Val):
    cid: int


@dataclass(frozen=True, eq=False)
class PRef(Val):
    """reference to the container stored inside another container (dict value / object field)"""
    cid: int
    path: tuple               # (("key", Val) | ("field", name)) ...


@dataclass(eq=False)
class Fn(Val):
    node: Any
    mod: Any
    name: str
    cls: Any = None
    parent: Any = None        # defining frame id
    self_: Any = None
    lam: bool = False
    defaults: tuple = ()


@dataclass(eq=False)
class Cls(Val):
    name: str
    mod: Any = None
    node: Any = None


@dataclass(eq=False)
class Mod(Val):
    name: str


@dataclass(eq=False)
class Bi(Val):
    """builtin / modelled function or bound method"""
    name: str
    self_: Any = None
    extra: Any = None


@dataclass(eq=False)
class Exc(Val):
    cls: str
    args: tuple = ()
    info: Any = None


# accumulators used while a loop body is summarised
@dataclass(frozen=True, eq=False)
class Acc(Val):
    """blind accumulator standing for `pre + effects of earlier iterations`; ops = this iteration's effects"""
    kind: str                 # list | set | dict
    pre: Any
    ops: tuple = ()
    tag: Any = None


@dataclass(frozen=True, eq=False)
class Pre(Val):
    """value of a scalar at the start of an arbitrary iteration"""
    key: Any
    fold: Any = None          # None | ('or', term) | ('max', key, ...) recorded folds


# ---------------------------------------------------------------- substitution
def subst(v, sub):
    if v is None or isinstance(v, (Fn, Cls, Mod, EnumV, Ref, str)):
        return v
    if isinstance(v, B):
        return B(sub.t(v.t))
    if isinstance(v, I):
        return I(sub.t(v.t))
    if isinstance(v, S):
        return S(sub.t(v.t), v.ty)
    if isinstance(v, T):
        return T(tuple(subst(x, sub) for x in v.items), v.cls)
    if isinstance(v, L):
        return L(tuple(s.subst(sub) for s in v.segs), v.kind)
    if isinstance(v, St):
        return St(tuple(s.subst(sub) for s in v.segs), v.frozen)
    if isinstance(v, D):
        return D(None if v.base is None else sub.t(v.base), tuple(s.subst(sub) for s in v.ops), v.kty, v.vty, v.default, v.shared)
    if isinstance(v, Op):
        if v.kind == "sub":
            return Op(v.kind, subst(v.key, sub), tuple(s.subst(sub) for s in v.val))
        return Op(v.kind, subst(v.key, sub), subst(v.val, sub))
    if isinstance(v, O):
        return O(v.cls, {k: subst(x, sub) for k, x in v.fields.items()})
    if isinstance(v, Exc):
        return Exc(v.cls, tuple(subst(x, sub) for x in v.args), v.info)
    if isinstance(v, Bi):
        return Bi(v.name, subst(v.self_, sub), v.extra)
    if isinstance(v, PRef):
        return PRef(v.cid, tuple((a, subst(b, sub) if isinstance(b, Val) else b) for a, b in v.path))
    if isinstance(v, tuple):
        return tuple(subst(x, sub) for x in v)
    if isinstance(v, z3.ExprRef):
        return sub.t(v)
    raise Unsupported(f"subst {type(v).__name__}")


# ---------------------------------------------------------------- terms / equality
BOX_I, BOX_B = uf("box_int", "I>V"), uf("box_bool", "B>V")
_x, _y, _i = z3.Const("x", V), z3.Const("y", V), z3.Int("i")
axiom("box_int", z3.ForAll([_i], uf("unbox_int", "V>I")(BOX_I(_i)) == _i))
_bb = z3.Bool("bb")
axiom("box_bool", z3.ForAll([_bb], uf("unbox_bool", "V>B")(BOX_B(_bb)) == _bb))


def enum_term(e: EnumV):
    return lit(f"<{e.cls.name}.{e.member}>")


def to_term(v):
    """V-term (or Int/Bool term) denoting a scalar-like value"""
    if isinstance(v, (S,)):
        return v.t
    if isinstance(v, B):
        return BOX_B(v.t)
    if isinstance(v, I):
        return BOX_I(v.t)
    if isinstance(v, EnumV):
        return enum_term(v)
    if isinstance(v, T):
        return mk_tuple([to_term(x) for x in v.items])
    if isinstance(v, Cls):
        return lit(f"<class {v.name}>")
    if isinstance(v, O) and "$term" in v.fields:
        return v.fields["$term"].t
    if isinstance(v, D) and v.base is not None and not v.ops:
        return v.base
    if isinstance(v, L) and len(v.segs) == 1 and isinstance(v.segs[0], G) and v.segs[0].dom.kind == "list":
        g = v.segs[0]
        t = g.dom.term
        if (z3.is_true(g.g) and not g.dom.rev and len(g.body) == 1 and isinstance(g.body[0], U) and z3.is_true(g.body[0].g)
                and isinstance(g.body[0].v, S) and g.body[0].v.t.eq(uf("at", "VI>V")(t, g.var))
                and g.dom.lo.eq(z3.IntVal(0)) and g.dom.hi.eq(uf("len", "V>I")(t))):
            return t
    if isinstance(v, (L, St, D, O)):
        return None_reify(v)
    raise Unsupported(f"to_term {type(v).__name__}")


def None_reify(v):
    raise Unsupported(f"structured {type(v).__name__} where a term is needed")


_tuples = set()


def mk_tuple(ts):
    n = len(ts)
    name = f"tuple{n}"
    if n not in _tuples:
        _tuples.add(n)
        vs = [z3.Const(f"t{i}", V) for i in range(n)]
        f = uf(name, "V" * n + ">V")
        if n:
            axiom(name, z3.ForAll(vs, And([uf(f"proj{i}", "V>V")(f(*vs)) == vs[i] for i in range(n)])))
    ts = [BOX_I(t) if t.sort() == INT else BOX_B(t) if t.sort() == BOOL else t for t in ts]
    return uf(name, "V" * n + ">V")(*ts) if n else lit("<()>")


def eq_term(v, x):
    """v == x where x is a V/Int term"""
    if x.sort() == INT:
        return Eq(v.t, x)
    if isinstance(v, T):
        # compare through projections
        return And([eq_term(c, uf(f"proj{i}", "V>V")(x)) for i, c in enumerate(v.items)])
    return Eq(to_term(v), x)


# ---------------------------------------------------------------- comprehension membership
def solve_eq(var, conds):
    """find a conjunct var == t (t free of var) in conds; return (t, rest) or None"""
    for k, c in enumerate(conds):
        if z3.is_eq(c):
            a, b = c.children()
            for p, q in ((a, b), (b, a)):
                if p.eq(var) and var.decl().name() not in symbols(q):
                    return q, conds[:k] + conds[k + 1:]
    return None


def conj(f):
    if z3.is_and(f):
        return [y for x in f.children() for y in conj(x)]
    return [] if z3.is_true(f) else [f]


def exists1(var, body):
    """Exists(var, body) with one-point elimination and distribution over Or"""
    if z3.is_false(body) or z3.is_true(body):
        return body
    if var.decl().name() not in symbols(body):
        return body          # domains are inhabited (V, Int)
    if z3.is_or(body):
        return Or([exists1(var, d) for d in body.children()])
    cs = conj(body)
    s = solve_eq(var, cs)
    if s:
        t, rest = s
        return z3.substitute(And(rest), (var, t))
    free = [c for c in cs if var.decl().name() not in symbols(c)]
    dep = [c for c in cs if var.decl().name() in symbols(c)]
    ors = [c for c in dep if z3.is_or(c)]
    if len(ors) == 1 and len(dep) > 1 and len(ors[0].children()) <= 4:
        rest = [c for c in dep if c is not ors[0]]
        return And(free, Or([exists1(var, And(rest, d)) for d in ors[0].children()]))
    return And(free, z3.Exists([var], And(dep)))


def seg_member(segs, pred):
    """exists an element v of the comprehension with pred(v)"""
    out = []
    for s in segs:
        if isinstance(s, U):
            out.append(And(s.g, pred(s.v)))
        else:
            s = rename(s)
            out.append(exists1(s.var, And(s.dom.mem(s.var), s.g, seg_member(s.body, pred))))
    return Or(out)


def seg_forall(segs, pred):
    """every element v satisfies pred(v)"""
    out = []
    for s in segs:
        if isinstance(s, U):
            out.append(Imp(s.g, pred(s.v)))
        else:
            s = rename(s)
            out.append(forall1(s.var, And(s.dom.mem(s.var), s.g), seg_forall(s.body, pred)))
    return And(out)


def forall1(var, hyp, body):
    if z3.is_true(body) or z3.is_false(hyp):
        return TRUE
    sol = solve_eq(var, conj(hyp))
    if sol:
        t, rest = sol
        return z3.substitute(Imp(And(rest), body), (var, t))
    if var.decl().name() not in symbols(body) :
        return Imp(exists1(var, hyp), body)
    return z3.ForAll([var], Imp(hyp, body))


def seg_nonempty(segs):
    return seg_member(segs, lambda v: TRUE)


def guard_segs(c, segs):
    if z3.is_true(c):
        return tuple(segs)
    return tuple(U(And(c, s.g), s.v) if isinstance(s, U) else G(s.var, s.dom, And(c, s.g), s.body) for s in segs)


def filter_segs(segs, cond):
    """keep elements v with cond(v)"""
    out = []
    for s in segs:
        if isinstance(s, U):
            g = And(s.g, cond(s.v))
            if not z3.is_false(g):
                out.append(U(g, s.v))
        else:
            s = rename(s)
            b = filter_segs(s.body, cond)
            if b:
                out.append(G(s.var, s.dom, s.g, b))
    return tuple(out)


def map_segs(segs, f):
    out = []
    for s in segs:
        if isinstance(s, U):
            out.append(U(s.g, f(s.v)))
        else:
            s = rename(s)
            out.append(G(s.var, s.dom, s.g, map_segs(s.body, f)))
    return tuple(out)


def bind_segs(segs, f):
    """flat map: f(v) -> segs"""
    out = []
    for s in segs:
        if isinstance(s, U):
            out.extend(guard_segs(s.g, f(s.v)))
        else:
            s = rename(s)
            out.append(G(s.var, s.dom, s.g, bind_segs(s.body, f)))
    return tuple(out)
