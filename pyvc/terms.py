"""Sorts, uninterpreted symbols, literals, ground evaluation and the axiom store.

Everything that is not a bool or an int lives in one uninterpreted sort V (strings, paths, objects, opaque
containers).  String literals are distinct constants; library operations are uninterpreted functions over V, evaluated
concretely when every argument is a literal, constrained otherwise only by the axioms registered here.
"""
from __future__ import annotations
import z3

V = z3.DeclareSort("V")
INT, BOOL = z3.IntSort(), z3.BoolSort()
SORTS = {"V": V, "I": INT, "B": BOOL}
NONE_T = z3.Const("none", V)
_funcs: dict = {}
_lits: dict[str, z3.ExprRef] = {}
_lit_of: dict[str, object] = {}      # decl name -> python value
AXIOMS: dict[str, list] = {}         # trigger symbol -> axioms (closed formulas)
GROUND: dict[str, object] = {}       # uf name -> python evaluator over literals (returns bool/str/int/None)


def uf(name: str, sig: str):
    """uf('startswith', 'VV>B')"""
    key = (name, sig)
    f = _funcs.get(key)
    if f is None:
        a, r = sig.split(">")
        f = z3.Function(name, *[SORTS[c] for c in a], SORTS[r])
        _funcs[key] = f
    return f


def lit(v: str | bytes):
    key = ("b:" if isinstance(v, bytes) else "s:") + repr(v)
    t = _lits.get(key)
    if t is None:
        name = "lit" + repr(v) if len(repr(v)) < 60 else f"lit#{len(_lits)}"
        if name in _lit_of:
            name += f"#{len(_lits)}"
        t = z3.Const(name, V)
        _lits[key] = t
        _lit_of[name] = v
    return t


def lit_value(t):
    """python value of a literal term, or None"""
    if z3.is_const(t) and t.num_args() == 0:
        return _lit_of.get(t.decl().name())
    return None


def ground(name, fn):
    GROUND[name] = fn


def axiom(symbol: str, formula):
    AXIOMS.setdefault(symbol, []).append(formula)


def fa(vs, body, pats=None):
    vs = list(vs)
    if not vs:
        return body
    if z3.is_true(body):
        return body
    return z3.ForAll(vs, body, patterns=pats) if pats else z3.ForAll(vs, body)


def ex(vs, body):
    vs = list(vs)
    if not vs:
        return body
    if z3.is_false(body):
        return body
    return z3.Exists(vs, body)


def And(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in a:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return z3.BoolVal(False)
        out.append(x)
    if not out:
        return z3.BoolVal(True)
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*a):
    a = [x for y in a for x in (y if isinstance(y, (list, tuple)) else [y])]
    out = []
    for x in a:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return z3.BoolVal(True)
        out.append(x)
    if not out:
        return z3.BoolVal(False)
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(a):
    if z3.is_true(a):
        return z3.BoolVal(False)
    if z3.is_false(a):
        return z3.BoolVal(True)
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Imp(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return z3.BoolVal(True)
    return z3.Implies(a, b)


def Eq(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if a.sort() == V:
        la, lb = lit_value(a), lit_value(b)
        na, nb = a.eq(NONE_T), b.eq(NONE_T)
        if (la is not None or na) and (lb is not None or nb):
            return z3.BoolVal(False)
    elif z3.is_int_value(a) and z3.is_int_value(b):
        return z3.BoolVal(a.as_long() == b.as_long())
    return a == b


TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def py_to_term(r):
    if r is None:
        return NONE_T
    if isinstance(r, bool):
        return z3.BoolVal(r)
    if isinstance(r, int):
        return z3.IntVal(r)
    return lit(r)


def app(name, sig, *args):
    """apply a UF, evaluating it when every argument is a literal"""
    if name in GROUND:
        vals = []
        for a in args:
            if a.sort() == V:
                v = lit_value(a)
                if v is None:
                    break
                vals.append(v)
            elif z3.is_int_value(a):
                vals.append(a.as_long())
            else:
                break
        else:
            r = GROUND[name](*vals)
            if r is not NotImplemented:
                return py_to_term(r)
        for i, a in enumerate(args):
            if a.sort() == V and lit_tree(a):
                return z3.If(a.arg(0), app(name, sig, *args[:i], a.arg(1), *args[i + 1:]), app(name, sig, *args[:i], a.arg(2), *args[i + 1:]))
    return uf(name, sig)(*args)


def lit_tree(a):
    """if-then-else tree whose leaves are literals"""
    while z3.is_app_of(a, z3.Z3_OP_ITE):
        if lit_value(a.arg(1)) is None and not lit_tree(a.arg(1)):
            return False
        a = a.arg(2)
        if lit_value(a) is not None:
            return True
    return False


_sym_cache: dict[int, tuple] = {}


def symbols(e):
    """names of uninterpreted symbols occurring in e (cached per ast id; keeps e alive)"""
    k = e.get_id()
    hit = _sym_cache.get(k)
    if hit is not None:
        return hit[1]
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            stack.extend(x.children())
    out = frozenset(out)
    _sym_cache[k] = (e, out)
    return out


_ga_cache: dict[int, tuple] = {}


def ground_apps(exprs):
    """all applications of GROUND functions in exprs (also under quantifiers); cached per expression"""
    out, got = [], set()
    for e in exprs:
        k = e.get_id()
        hit = _ga_cache.get(k)
        if hit is None:
            seen, stack, res = set(), [e], []
            if any(n in GROUND for n in symbols(e)):
                while stack:
                    x = stack.pop()
                    i = x.get_id()
                    if i in seen:
                        continue
                    seen.add(i)
                    if z3.is_quantifier(x):
                        stack.append(x.body())
                    elif z3.is_app(x) and x.num_args():
                        if x.decl().name() in GROUND:
                            res.append(x)
                        stack.extend(x.children())
            hit = _ga_cache[k] = (e, res)
        for x in hit[1]:
            if x.get_id() not in got:
                got.add(x.get_id())
                out.append(x)
    return out


_cat_cache = {}
_gf_cache = {}
_gk_cache = {}


def cat_apps(exprs):
    out = []
    for e in exprs:
        k = e.get_id()
        if k not in _cat_cache:
            st, seen, r = [e] if "cat" in symbols(e) else [], set(), []
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_quantifier(x):
                    st.append(x.body())
                elif z3.is_app(x):
                    if x.decl().name() == "cat" and x.num_args() == 2:
                        v = lit_value(x.arg(0))
                        if isinstance(v, str) and v and all(v != w for w, _ in r):
                            r.append((v, x.arg(0)))
                    st.extend(x.children())
            _cat_cache[k] = (e, r)
        out.extend(_cat_cache[k][1])
    return out


def literal_facts(exprs):
    """distinctness of the literals in use and ground values of literal-patterned predicates on those literals"""
    names = set()
    for e in exprs:
        names |= symbols(e)
    lits = [(n, _lit_of[n]) for n in sorted(names) if n in _lit_of]
    terms = [z3.Const(n, V) for n, _ in lits]
    out = []
    if "none" in names:
        terms.append(NONE_T)
    if len(terms) > 1:
        out.append(z3.Distinct(*terms))
    done = set()
    if "cat" in names:
        cat = uf("cat", "VV>V")
        heads = dict(cat_apps(exprs))
        hs = sorted(heads.items(), key=lambda h: h[0])
        x, y = z3.Consts("cx cy", V)
        for i, (a, ta) in enumerate(hs):
            for b, tb in hs[i + 1:]:
                if not b.startswith(a) and not a.startswith(b):
                    out.append(z3.ForAll([x, y], cat(ta, x) != cat(tb, y), patterns=[z3.MultiPattern(cat(ta, x), cat(tb, y))]))
    for a in ground_apps(exprs):
        hit = _gk_cache.get(a.get_id())
        if hit is not None and (hit[1] is None or hit[1] in done):
            continue
        name = a.decl().name()
        args = a.children()
        # one varying argument position, others literal
        var = [i for i, t in enumerate(args) if not (t.sort() == V and lit_value(t) is not None) and not z3.is_int_value(t)]
        if len(var) != 1 or args[var[0]].sort() != V:
            _gk_cache[a.get_id()] = (a, None)
            continue
        key = (name, var[0], tuple(t.get_id() for i, t in enumerate(args) if i != var[0]))
        _gk_cache[a.get_id()] = (a, key)
        if key in done:
            continue
        done.add(key)
        for n, v in lits:
            ck = (key, n)
            if ck in _gf_cache:
                if _gf_cache[ck][0] is not None:
                    out.append(_gf_cache[ck][0])
                continue
            _gf_cache[ck] = (None, a)
            vals = [v if i == var[0] else (lit_value(t) if t.sort() == V else t.as_long()) for i, t in enumerate(args)]
            try:
                r = GROUND[name](*vals)
            except Exception:
                continue
            if r is NotImplemented:
                continue
            if isinstance(r, str) and lit("x") is not None and f"lit{r!r}" not in names and not _known(r):
                pass
            newargs = [z3.Const(n, V) if i == var[0] else t for i, t in enumerate(args)]
            out.append(a.decl()(*newargs) == py_to_term(r))
            _gf_cache[ck] = (out[-1], a)
    return out


def _known(r):
    return ("s:" + repr(r)) in _lits
