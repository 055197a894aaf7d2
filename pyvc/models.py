"""Models of builtins and of the external library functions the verified code uses.  Everything here is trusted base; the
concrete side (rac) exercises the same contracts on the real libraries."""
from __future__ import annotations
import ast, os, re, posixpath
import z3
from .terms import *
from .values import *
from .interp import PyRaise, Infeasible, BUILTIN_EXC, Undef, NORMAL

BUILTINS = {"len", "sorted", "min", "max", "any", "all", "isinstance", "iter", "next", "filter", "map", "reversed", "range",
            "print", "repr", "hasattr", "getattr", "setattr", "zip", "enumerate", "sum", "abs", "implies", "iff", "trace", "super", "id",
            "callable", "open", "ord", "chr", "issubclass", "vars", "hash", "divmod", "round", "exists_index"}
TYPES = {"str", "int", "bool", "list", "dict", "set", "frozenset", "tuple", "bytes", "type", "object", "float"}

# ---- ground semantics of string functions
ground("str_startswith", lambda a, b: a.startswith(b) if isinstance(a, str) else NotImplemented)
ground("str_endswith", lambda a, b: a.endswith(b) if isinstance(a, str) else NotImplemented)
ground("str_contains", lambda a, b: b in a if isinstance(a, str) else NotImplemented)
ground("str_lt", lambda a, b: a < b if isinstance(a, str) and isinstance(b, str) else NotImplemented)
ground("part0", lambda a, b: a.partition(b)[0])
ground("part1", lambda a, b: a.partition(b)[1])
ground("part2", lambda a, b: a.partition(b)[2])
ground("rpart0", lambda a, b: a.rpartition(b)[0])
ground("rpart2", lambda a, b: a.rpartition(b)[2])
ground("str_replace", lambda a, b, c: a.replace(b, c))
ground("str_lower", lambda a: a.lower())
ground("str_upper", lambda a: a.upper())
ground("str_strip", lambda a: a.strip())
ground("str_removesuffix", lambda a, b: a.removesuffix(b))
ground("str_removeprefix", lambda a, b: a.removeprefix(b))
ground("str_of_path", lambda a: a)
ground("cat", lambda a, b: a + b if type(a) is type(b) else NotImplemented)

# re patterns: registered per literal pattern so that ground facts are available
_RE = {}


def re_pred(pattern, how):
    name = f"re_{how}#{len(_RE)}"
    for n, (p, h) in _RE.items():
        if p == pattern and h == how:
            return n
    _RE[name] = (pattern, how)
    rx = re.compile(pattern)
    ground(name, lambda s: getattr(rx, how)(s) is not None if isinstance(s, str) else NotImplemented)
    return name


_s, _t = z3.Consts("s t", V)
axiom("cat", z3.ForAll([_s, _t], z3.And(uf("cat", "VV>V")(_s, _t) != NONE_T), patterns=[uf("cat", "VV>V")(_s, _t)]))


def builtin(I_, name):
    if name in BUILTINS:
        return Bi(name)
    if name in TYPES:
        return Cls(name)
    if name == "__file__":
        return pstr("<file>")
    if name == "__name__":
        return pstr("<name>")
    if name == "NotImplemented":
        return NONE
    return None


EXT_CLS = {"pathlib.Path": "Path", "pathlib.PurePath": "Path", "pathlib.PurePosixPath": "Path", "collections.defaultdict": "defaultdict",
           "collections.OrderedDict": "dict", "enum.Enum": "Enum", "typing.NamedTuple": "NamedTuple", "typing.TypeVar": "TypeVar",
           "tempfile.TemporaryDirectory": "TemporaryDirectory", "elftools.elf.dynamic.DynamicSection": "DynamicSection",
           "elftools.elf.gnuversions.GNUVerNeedSection": "GNUVerNeedSection", "elftools.elf.sections.SymbolTableSection": "SymbolTableSection",
           "elftools.elf.elffile.ELFFile": "ELFFile", "elftools.common.exceptions.ELFError": "ELFError", "datetime.datetime": "datetime",
           "subprocess.CalledProcessError": "CalledProcessError", "packaging.utils.InvalidWheelFilename": "InvalidWheelFilename",
           "zipfile.ZipFile": "ZipFile", "zipfile.ZipInfo": "ZipInfo", "zipfile.BadZipFile": "BadZipFile", "typing.Any": "Any"}


def external(I_, name):
    if name == "typing.TYPE_CHECKING":
        return B(FALSE)
    if name in EXT_CLS:
        return Cls(EXT_CLS[name])
    if name.startswith("__future__"):
        return NONE
    return Mod(name)


def mod_attr(I_, m, name):
    full = f"{m.name}.{name}"
    mm = I_.repo.module(m.name)
    if mm is not None:
        r = I_.repo.resolve(mm, name)
        if r is None:
            sub = I_.repo.module(full)
            if sub is not None:
                return Mod(full)
            raise Unsupported(full)
        kind, m2, x = r
        if kind == "fn":
            return Fn(x, m2, x.name)
        if kind == "cls":
            return Cls(x.name, m2, x)
        if kind == "assign":
            return I_.eval_in_module(m2, x)
        if kind == "mod":
            return Mod(x)
        return external(I_, x)
    if full in CONSTS:
        return CONSTS[full](I_)
    return external(I_, full)


CONSTS = {
    "os.sep": lambda I_: pstr("/"), "os.linesep": lambda I_: pstr("\n"), "os.pathsep": lambda I_: pstr(":"),
    "stat.S_IWRITE": lambda I_: I(z3.IntVal(0o200)), "stat.S_IRUSR": lambda I_: I(z3.IntVal(0o400)), "stat.S_IWUSR": lambda I_: I(z3.IntVal(0o200)),
    "zipfile.ZIP_DEFLATED": lambda I_: I(z3.IntVal(8)), "os.R_OK": lambda I_: I(z3.IntVal(4)),
    "zlib.Z_DEFAULT_COMPRESSION": lambda I_: I(z3.IntVal(-1)),
    "os.environ": lambda I_: S(z3.Const("os.environ", V), Ty("dict", (STR, STR))),
    "sys.platform": lambda I_: S(z3.Const("sys.platform", V), STR),
}

EXTERN = {}      # name -> python model fn(I_, args, kw)


def extern(name):
    def deco(f):
        EXTERN[name] = f
        return f
    return deco


# ---------------------------------------------------------------- strings
def cat_parts(t):
    if z3.is_app(t) and t.num_args() == 2 and t.decl().name() == "cat":
        return cat_parts(t.arg(0)) + cat_parts(t.arg(1))
    return [t]


def cat(I_, parts):
    ts = []
    for p in parts:
        for t in cat_parts(p.t):
            if lit_value(t) == "":
                continue
            if ts and isinstance(lit_value(t), str) and isinstance(lit_value(ts[-1]), str):
                ts[-1] = lit(lit_value(ts[-1]) + lit_value(t))
            else:
                ts.append(t)
    if not ts:
        return pstr("")
    r = ts[-1]
    for t in reversed(ts[:-1]):
        r = uf("cat", "VV>V")(t, r)
    return S(r, parts[0].ty if strip_none(parts[0].ty).n == "bytes" else STR)


def str_(I_, v):
    c = I_.content(v)
    if isinstance(c, S):
        ty = strip_none(c.ty)
        if ty.n == "str":
            return c
        if c.lit is not None and isinstance(c.lit, str) and ty.n != "Path":
            return c
        if ty.n == "Path":
            return S(app("str_of_path", "V>V", c.t), STR)
        return S(app("str_of", "V>V", c.t), STR)
    if isinstance(c, I):
        if z3.is_int_value(c.t):
            return pstr(str(c.t.as_long()))
        return S(app("str_of_int", "I>V", c.t), STR)
    if isinstance(c, B):
        return S(app("str_of", "V>V", BOX_B(c.t)), STR)
    if isinstance(c, EnumV):
        m = I_.class_method(c, "__str__")
        if m:
            return I_.call(m, [], {})
        return pstr(f"{c.cls.name}.{c.member}")
    if isinstance(c, Exc):
        return str_(I_, c.args[0]) if len(c.args) == 1 else S(I_.fresh("excstr"), STR)
    return S(I_.fresh("strof"), STR)


def repr_(I_, v):
    c = I_.content(v)
    if isinstance(c, S) and c.lit is not None:
        return pstr(repr(c.lit))
    if isinstance(c, S):
        return S(app("repr", "V>V", c.t), STR)
    return S(I_.fresh("repr"), STR)


def strs(I_, args):
    return [to_term(I_.content(a)) for a in args]


def split_list(I_, s, sep, maxsplit=None):
    """symbolic s.split(sep): an opaque list term; first part known, join inverse known"""
    if s.lit is not None and sep.lit is not None:
        r = s.lit.split(sep.lit) if maxsplit is None else s.lit.split(sep.lit, maxsplit)
        return I_.alloc(L(tuple(U(TRUE, pstr(x)) for x in r)))
    if maxsplit == 1:
        has = app("str_contains", "VV>B", s.t, sep.t)
        a = S(app("part0", "VV>V", s.t, sep.t), STR)
        b = S(app("part2", "VV>V", s.t, sep.t), STR)
        return I_.alloc(L((U(TRUE, a), U(has, b))))
    t = app("split", "VV>V", s.t, sep.t) if maxsplit is None else app(f"split{maxsplit}", "VV>V", s.t, sep.t)
    I_.define(uf("len", "V>I")(t) >= 1)
    if maxsplit is None:
        I_.define(Eq(uf("at", "VI>V")(t, z3.IntVal(0)), app("part0", "VV>V", s.t, sep.t)), owner="part0") if False else None
    return I_.alloc(L(I_.opaque_list_segs(t, Ty("list", (STR,)))))


def str_method(I_, c, name, args, kw):
    s = c.t
    a = [I_.content(x) for x in args]
    if name in ("startswith", "endswith"):
        if isinstance(a[0], T):
            return B(Or([app("str_" + name, "VV>B", s, x.t) for x in a[0].items]))
        return B(starts_ends(I_, name, s, a[0].t))
    if name == "partition":
        return T(tuple(S(app(f"part{i}", "VV>V", s, a[0].t), STR) for i in range(3)))
    if name == "rpartition":
        return T((S(app("rpart0", "VV>V", s, a[0].t), STR), S(app("rpart1", "VV>V", s, a[0].t), STR), S(app("rpart2", "VV>V", s, a[0].t), STR)))
    if name in ("lower", "upper", "strip", "lstrip", "rstrip", "casefold", "title") and not a:
        return S(app("str_" + name, "V>V", s), c.ty)
    if name in ("strip", "lstrip", "rstrip", "removesuffix", "removeprefix"):
        return S(app("str_" + name, "VV>V", s, a[0].t), c.ty)
    if name in ("isdigit", "isalnum", "isalpha"):
        return B(app("str_" + name, "V>B", s))
    if name == "replace":
        return S(app("str_replace", "VVV>V", s, a[0].t, a[1].t), c.ty)
    if name == "split":
        if not a:
            return I_.alloc(L(I_.opaque_list_segs(app("split_ws", "V>V", s), Ty("list", (STR,)))))
        ms = a[1] if len(a) > 1 else kw.get("maxsplit")
        if ms is not None:
            if not z3.is_int_value(ms.t):
                raise Unsupported("split maxsplit")
            return split_list(I_, c, a[0], ms.t.as_long())
        return split_list(I_, c, a[0])
    if name == "rsplit":
        ms = a[1] if len(a) > 1 else kw.get("maxsplit")
        if ms is not None and z3.is_int_value(ms.t) and ms.t.as_long() == 1:
            has = app("str_contains", "VV>B", s, a[0].t)
            return I_.alloc(L((U(has, S(app("rpart0", "VV>V", s, a[0].t), STR)), U(TRUE, S(app("rpart2", "VV>V", s, a[0].t), STR)))))
        raise Unsupported("rsplit")
    if name == "splitlines":
        return I_.alloc(L(I_.opaque_list_segs(app("splitlines", "V>V", s), Ty("list", (STR,)))))
    if name == "join":
        segs = I_.segs(args[0])
        if all(isinstance(x, U) and z3.is_true(x.g) for x in segs):
            out = []
            for i, x in enumerate(segs):
                if i:
                    out.append(c)
                out.append(I_.content(x.v))
            return cat(I_, out) if out else pstr("")
        return S(join_term(I_, c, segs), STR)
    if name == "encode":
        return S(app("encode", "V>V", s), BYTES)
    if name == "decode":
        return S(app("decode", "V>V", s), STR)
    if name == "format":
        if isinstance(c.lit, str):
            import string
            out, auto = [], 0
            for text, field, spec, conv in string.Formatter().parse(c.lit):
                if text:
                    out.append(pstr(text))
                if field is None:
                    continue
                if spec or conv or not (field == "" or field.isidentifier() or field.isdigit()):
                    break
                if field == "":
                    field, auto = str(auto), auto + 1
                v = I_.content(a[int(field)] if field.isdigit() else kw[field])
                if not (isinstance(v, S) and v.ty.n == "str"):
                    break
                out.append(v)
            else:
                return cat(I_, out) if out else pstr("")
        return S(I_.fresh("format"), STR)
    if name in ("find", "index", "count", "rfind"):
        return I(app("str_" + name, "VV>I", s, a[0].t))
    if name == "hex":
        return S(app("hex", "V>V", s), STR)
    raise Unsupported("str." + name)


def starts_ends(I_, name, s, p):
    """structural: cat(lit, ...) with a literal pattern"""
    ps = cat_parts(s)
    lp = lit_value(p)
    if isinstance(lp, str) and len(ps) > 1:
        l0 = lit_value(ps[0] if name == "startswith" else ps[-1])
        if isinstance(l0, str):
            if name == "startswith":
                if l0.startswith(lp):
                    return TRUE
                if not lp.startswith(l0):
                    return FALSE
            else:
                if l0.endswith(lp):
                    return TRUE
                if not lp.endswith(l0):
                    return FALSE
    return app("str_" + name, "VV>B", s, p)


def join_term(I_, sep, segs):
    """canonical term of sep.join(list): identical lists give the same term"""
    for (sp, other, t) in I_.st.ghost.get("joins", ()):
        if sp.eq(sep.t):
            try:
                f = I_.list_eq(other, segs)
            except Unsupported:
                continue
            if z3.is_true(f) or I_.solver.quick_unsat(list(I_.st.pc) + [Not(f)], I_.defs, slow=True):
                return t
    if len(segs) == 1 and isinstance(segs[0], G) and segs[0].dom.kind == "list" and z3.is_true(segs[0].g) and not segs[0].dom.rev:
        g = segs[0]
        b = g.body[0] if len(g.body) == 1 else None
        if isinstance(b, U) and z3.is_true(b.g) and isinstance(b.v, S) and b.v.t.eq(uf("at", "VI>V")(g.dom.term, g.var)):
            return app("join_part", "VVII>V", sep.t, g.dom.term, g.dom.lo, g.dom.hi)
    t = I_.fresh("join")
    I_.st.ghost["joins"] = I_.st.ghost.get("joins", ()) + ((sep.t, segs, t),)
    return t


# ---------------------------------------------------------------- paths
def path_join(I_, a, b):
    return S(app("path_join", "VV>V", to_term(a), to_term(b)), PATH)


# ---------------------------------------------------------------- attributes / methods on opaque values
PATH_PROPS = {"name": STR, "parent": PATH, "suffix": STR, "stem": STR, "parts": Ty("tuple*", (STR,)), "parents": Ty("set", (PATH,))}


def attr(I_, c, name, v):
    ty = strip_none(c.ty)
    if ty.n == "Path" and name in PATH_PROPS:
        return S(app("path_" + name, "V>V", c.t), PATH_PROPS[name])
    key = f"{ty.n}.{name}"
    if key in EXT_FIELDS:
        t = EXT_FIELDS[key]
        sig = "V>I" if t.n == "int" else "V>B" if t.n == "bool" else "V>V"
        return I_.wrap(app(key, sig, c.t), t)
    return Bi("m:" + name, v)


EXT_FIELDS = {"TemporaryDirectory.name": STR, "stat.st_mode": TINT, "stat.st_size": TINT, "verneed.name": STR, "vernaux.name": STR, "Symbol.name": STR,
              "DynTag.needed": STR, "DynTag.entry": Ty("DynEntry"), "DynEntry.d_tag": STR, "tmpdir.name": STR}


def set_opaque_attr(I_, c, name, v):
    raise Unsupported(f"set attribute {name} on opaque {c.ty}")


def obj_attr(I_, c, name, v):
    return None


def class_attr(I_, c, name):
    if c.node is None:
        return Bi(f"{c.name}.{name}")
    return None


def exc_attr(I_, c, name):
    return S(I_.fresh("exc_" + name), ANY)


def eq_hook(I_, a, b):
    return None


def get_item(I_, c, k, base):
    if isinstance(c, S):
        n = strip_none(c.ty).n
        key = f"{n}[{c and k.lit if isinstance(k, S) else '?'}]"
        if key in EXT_ITEMS:
            t = EXT_ITEMS[key]
            return I_.wrap(app(key, "V>I" if t.n == "int" else "V>V", c.t), t)
        if n in ("str",):
            if isinstance(k, I):
                return S(app("char_at", "VI>V", c.t, k.t), STR)
    if isinstance(c, O):
        m = I_.class_method(base, "__getitem__")
        if m:
            return I_.call(m, [k], {})
    return None


EXT_ITEMS = {"Symbol[st_shndx]": STR, "Symbol[st_info]": Ty("SymInfo"), "SymInfo[type]": STR, "SymInfo[bind]": STR}


def call_value(I_, c, args, kw):
    return None


# ---------------------------------------------------------------- effects
def effect(I_, name, *args):
    I_.st.trace = I_.st.trace + (U(TRUE, T((pstr(name),) + tuple(I_.freeze(a) for a in args))),)
    I_.st.epoch += 1


def iter_segs(I_, v):
    c = I_.content(v)
    return I_.segs(v)


# ---------------------------------------------------------------- calls
def call(I_, f: Bi, args, kw):
    n = f.name
    if n.startswith("m:"):
        return method(I_, f.self_, n[2:], args, kw)
    g = globals().get("b_" + n)
    if g is not None:
        return g(I_, args, kw)
    if n in EXTERN:
        return EXTERN[n](I_, args, kw)
    if n.startswith("chain"):
        pass
    raise Unsupported("call " + n)


def construct(I_, c, args, kw):
    g = globals().get("c_" + c.name)
    if g is not None:
        return g(I_, args, kw)
    if c.name in EXTERN:
        return EXTERN[c.name](I_, args, kw)
    raise Unsupported("construct " + c.name)


def flat_leaves(segs, vs=(), g=TRUE):
    """[(binders, guard, value)] of all elements"""
    out = []
    for s in segs:
        if isinstance(s, U):
            out.append((vs, And(g, s.g), s.v))
        else:
            out.extend(flat_leaves(s.body, vs + (s.var,), And(g, s.dom.mem(s.var), s.g)))
    return out


def b_len(I_, args, kw):
    c = I_.content(args[0])
    if isinstance(c, T):
        return I(z3.IntVal(len(c.items)))
    if isinstance(c, S):
        if isinstance(c.lit, (str, bytes)):
            return I(z3.IntVal(len(c.lit)))
        ty = strip_none(c.ty)
        n = app("len", "V>I", c.t)
        if ty.n in SETY or ty.n in DICTY:
            p = "in" if ty.n in SETY else "has"
            d, x = z3.Const("ld", V), z3.Const("lx", V)
            key = "len-" + p
            if key not in I_.repo.nn:
                I_.repo.nn.add(key)
                # emptiness, both directions
                axiom("len", z3.ForAll([d, x], Imp(uf(p, "VV>B")(d, x), uf("len", "V>I")(d) > 0), patterns=[uf(p, "VV>B")(d, x)]))
                w = z3.Function("witness_" + p, V, V)
                nonempty = z3.Function("nonempty_" + p, V, BOOL)
                axiom("nonempty_" + p, z3.ForAll([d], Imp(z3.And(nonempty(d), uf("len", "V>I")(d) > 0), uf(p, "VV>B")(d, w(d))), patterns=[nonempty(d)]))
                axiom("nonempty_" + p, z3.ForAll([d], nonempty(d), patterns=[uf("len", "V>I")(d), ] ) if False else z3.ForAll([d], nonempty(d), patterns=[nonempty(d)]))
            nonempty = z3.Function("nonempty_" + p, V, BOOL)
            I_.define(Or(nonempty(c.t), TRUE), None) if False else None
            w = z3.Function("witness_" + p, V, V)
            k2 = (key, c.t.get_id())
            bs = [b for b in I_.st.binders if b.decl().name() in symbols(c.t)]
            I_.defs.append((frozenset(["len"]), fa(bs, Imp(n > 0, uf(p, "VV>B")(c.t, w(c.t))))))
        elif ty.n == "str":
            pass
        I_.keeplen = getattr(I_, "keeplen", [])
        return I(n)
    if isinstance(c, D) and (c.base is not None or any(op.kind == "del" for _, _, op in I_.flat_ops(c.ops))):
        memo = I_.__dict__.setdefault("lenmemo", {})
        if id(c) in memo:
            return memo[id(c)][1]
        n, w = I_.fresh("n", INT), I_.fresh("lw", V)
        I_.define(And(n >= 0, Imp(n > 0, I_.dict_has(c, I_.wrap(w, c.kty)))))
        x = fresh_binder(V)
        I_.define(fa([x], Imp(I_.dict_has(c, I_.wrap(x, c.kty)), n > 0)))
        memo[id(c)] = (c, I(n))
        return I(n)
    if isinstance(c, (L, St, D)):
        segs = I_.segs(c)
        if isinstance(c, D) and not segs:
            return I(z3.IntVal(0))
        distinct = isinstance(c, L) and c.nodup and c.raw is not None
        if distinct:
            segs = c.raw
        elif isinstance(c, L) and all(isinstance(s, U) for s in segs):
            n = z3.IntVal(0)
            for s in segs:
                n = n + (1 if z3.is_true(s.g) else z3.If(s.g, 1, 0))
            return I(z3.simplify(n))
        if isinstance(c, St) and not segs:
            return I(z3.IntVal(0))
        if not distinct and isinstance(c, L) and len(segs) == 1 and isinstance(segs[0], G) and segs[0].dom.kind in ("list", "range") and z3.is_true(segs[0].g) \
                and len(segs[0].body) == 1 and isinstance(segs[0].body[0], U) and z3.is_true(segs[0].body[0].g):
            d = segs[0].dom
            return I(z3.simplify(z3.If(d.hi > d.lo, d.hi - d.lo, z3.IntVal(0))))
        memo = I_.__dict__.setdefault("lenmemo", {})
        k = id(c)
        if k in memo:
            return memo[k][1]
        n = I_.fresh("n", INT)
        ne = seg_nonempty(segs)
        I_.define(And(n >= 0, (n > 0) == ne))
        # at least two: two different elements (set-like) or two positions (list)
        if not distinct and isinstance(c, L) and len(segs) == 1 and isinstance(segs[0], G):
            g = segs[0]
            if len(g.body) == 1 and isinstance(g.body[0], U):
                a, b = rename(g), rename(g)
                two = z3.Exists([a.var, b.var], And(a.dom.mem(a.var), a.g, a.body[0].g, b.dom.mem(b.var), b.g, b.body[0].g, a.var != b.var))
                I_.define((n >= 2) == two)
        elif distinct or isinstance(c, St):
            two, flat = [], flat_leaves(segs)
            for i in range(len(flat)):
                for j in range(i, len(flat)):
                    if i == j and not flat[i][0]:
                        continue
                    va, ga, ea = flat[i]
                    vb, gb, eb = flat[j]
                    sa = Sub([(x, fresh_binder(x.sort())) for x in va])
                    sb = Sub([(x, fresh_binder(x.sort())) for x in vb])
                    two.append(ex([sa.t(x) for x in va] + [sb.t(x) for x in vb],
                                  And(sa.t(ga), sb.t(gb), Not(I_.eq(subst(ea, sa), subst(eb, sb))))))
            I_.define((n >= 2) == Or(two))
        memo[k] = (c, I(n))
        return I(n)
    if isinstance(c, Acc):
        raise Unsupported("len of an accumulator inside its loop")
    if isinstance(c, (O,)):
        m = I_.class_method(args[0], "__len__")
        if m:
            return I_.call(m, [], {})
    raise Unsupported("len " + type(c).__name__ + " " + str(getattr(c, "why", "")))


def _bool_segs(I_, v):
    return I_.segs(v)


def b_any(I_, args, kw):
    return B(seg_member(I_.segs(args[0]), lambda v: I_.truth(v)))


def b_all(I_, args, kw):
    return B(seg_forall(I_.segs(args[0]), lambda v: I_.truth(v)))


def b_implies(I_, args, kw):
    return B(Imp(I_.truth(args[0]), I_.truth(args[1])))


def b_iff(I_, args, kw):
    return B(I_.truth(args[0]) == I_.truth(args[1]))


def b_trace(I_, args, kw):
    return L(I_.st.trace)


def b_bool(I_, args, kw):
    return B(I_.truth(args[0]))


def _minmax(I_, args, kw, op):
    key = kw.get("key")
    default = kw.get("default")

    def kf(v):
        return I_.call(key, [v], {}) if key is not None and not (isinstance(key, S) and key.t.eq(NONE_T)) else v

    def better(a, b):
        """a strictly better than b"""
        return I_.cmp(ast.Lt(), kf(a), kf(b)) if op == "min" else I_.cmp(ast.Gt(), kf(a), kf(b)) if not _has_lt(I_, kf(a)) else I_.cmp(ast.Lt(), kf(b), kf(a))
    if len(args) > 1:
        r = args[0]
        for a in args[1:]:
            ok, c = I_.pure_merge(lambda: B(better(a, r)))
            c = c.t if ok and c is not None else (TRUE if I_.decide(better(a, r)) else FALSE)
            r = I_.vite(c, a, r)
        return r
    segs = I_.segs(args[0])
    if all(isinstance(s, U) and z3.is_true(s.g) for s in segs):
        if not segs:
            if default is not None:
                return default
            raise PyRaise(Exc("ValueError"))
        r = segs[0].v
        for s in segs[1:]:
            r = I_.vite(better(s.v, r), s.v, r)
        return r
    ne = seg_nonempty(segs)
    if not I_.decide(ne):
        if default is not None:
            return default
        raise PyRaise(Exc("ValueError"))
    w = witness(I_, segs)
    ok = I_.forall_in_scope(segs, lambda v: Not(better(v, w)))
    I_.define(ok)
    return w


def _has_lt(I_, v):
    c = I_.content(v)
    return isinstance(c, (S, O)) and I_.class_method(c, "__lt__") is not None


def witness(I_, segs):
    """an arbitrary element, as one value (non-deterministic choice between segments merged by ite)"""
    flat = []

    def walk(ss, chain, g):
        for s in ss:
            if isinstance(s, U):
                flat.append((chain, And(g, s.g), s.v))
            else:
                s = rename(s)
                walk(s.body, chain + (s.var,), And(g, s.dom.mem(s.var), s.g))
    walk(segs, (), TRUE)
    outs = []
    for chain, g, v in flat:
        ws = [I_.fresh("w", x.sort()) for x in chain]
        sb = Sub(list(zip(chain, ws)))
        outs.append((sb.t(g), subst(v, sb)))
    if len(outs) == 1:
        I_.define(outs[0][0])
        return outs[0][1]
    r = outs[-1][1]
    cs = []
    for g, v in outs[:-1][::-1]:
        c = I_.fresh("pick", BOOL)
        r = I_.vite(c, v, r)
        cs.insert(0, c)
    none_before = TRUE
    fs = []
    for (g, v), c in zip(outs[:-1], cs):
        fs.append(Imp(And(none_before, c), g))
        none_before = And(none_before, Not(c))
    fs.append(Imp(none_before, outs[-1][0]))
    I_.define(And(fs))
    return r


def b_min(I_, args, kw):
    return _minmax(I_, args, kw, "min")


def b_max(I_, args, kw):
    return _minmax(I_, args, kw, "max")


def b_sum(I_, args, kw):
    segs = I_.segs(args[0])
    if all(isinstance(s, U) for s in segs):
        n = z3.IntVal(0)
        for s in segs:
            c = I_.content(s.v)
            x = c.t if isinstance(c, I) else z3.If(c.t, 1, 0)
            n = n + (x if z3.is_true(s.g) else z3.If(s.g, x, 0))
        return I(z3.simplify(n))
    return b_len(I_, [L(filter_segs(segs, lambda v: TRUE))], {}) if all(isinstance(x.v, I) and z3.is_int_value(x.v.t) and x.v.t.as_long() == 1 for x in _units(segs)) else I(I_.fresh("sum", INT))


def _units(segs):
    for s in segs:
        if isinstance(s, U):
            yield s
        else:
            yield from _units(s.body)


def b_iter(I_, args, kw):
    return L(I_.segs(args[0]))


def b_next(I_, args, kw):
    c = I_.content(args[0])
    segs = I_.segs(args[0])
    if isinstance(args[0], Ref):
        raise Unsupported("next on a container")

    def empty():
        if len(args) > 1:
            return args[1]
        raise PyRaise(Exc("StopIteration"))
    return I_.first(segs, empty)


def b_filter(I_, args, kw):
    f, coll = args
    segs = I_.segs(coll)
    if isinstance(f, S) and f.t.eq(NONE_T):
        return L(filter_segs(segs, lambda v: I_.truth(v)))
    return desugar(I_, "[x for x in it if f(x)]", {"it": L(segs), "f": f})


def b_map(I_, args, kw):
    f, coll = args[0], args[1]
    if len(args) > 2:
        raise Unsupported("map with several iterables")
    return desugar(I_, "[f(x) for x in it]", {"it": L(I_.segs(coll)), "f": f})


_ast_cache = {}


def desugar(I_, src, env):
    """evaluate a small expression with the given environment (used for higher-order builtins)"""
    if src not in _ast_cache:
        _ast_cache[src] = ast.parse(src, mode="eval").body
    fid = I_.new_frame(parent=I_.st.cur)
    I_.st.frames[fid].update(env)
    old = I_.st.cur
    I_.st.cur = fid
    try:
        v = I_.eval(_ast_cache[src])
    finally:
        I_.st.cur = old
    return I_.content(v)


def b_reversed(I_, args, kw):
    return L(I_.reverse(I_.segs(args[0])))


def b_range(I_, args, kw):
    lo, hi = (z3.IntVal(0), args[0].t) if len(args) == 1 else (args[0].t, args[1].t)
    if len(args) > 2:
        raise Unsupported("range step")
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        return L(tuple(U(TRUE, I(z3.IntVal(i))) for i in range(lo.as_long(), hi.as_long())))
    i = fresh_binder(INT, "i")
    return L((G(i, Dom("range", None, lo, hi), TRUE, (U(TRUE, I(i)),)),))


def b_print(I_, args, kw):
    effect(I_, "print", *[a for a in args])
    return NONE


def b_repr(I_, args, kw):
    return repr_(I_, args[0])


def b_hasattr(I_, args, kw):
    raise Unsupported("hasattr")


def b_zip(I_, args, kw):
    ss = [I_.segs(a) for a in args]
    if all(isinstance(s, U) and z3.is_true(s.g) for x in ss for s in x):
        return L(tuple(U(TRUE, T(t)) for t in zip(*[[s.v for s in x] for x in ss])))
    raise Unsupported("zip")


def b_enumerate(I_, args, kw):
    ss = I_.segs(args[0])
    if all(isinstance(s, U) and z3.is_true(s.g) for s in ss):
        return L(tuple(U(TRUE, T((I(z3.IntVal(i)), s.v))) for i, s in enumerate(ss)))
    if len(ss) == 1 and isinstance(ss[0], G) and ss[0].dom.kind == "list" and z3.is_true(ss[0].g) and not ss[0].dom.rev:
        g = rename(ss[0])
        return L((G(g.var, g.dom, g.g, tuple(U(b.g, T((I(g.var - g.dom.lo), b.v))) for b in g.body)),))
    raise Unsupported("enumerate")


def b_isinstance(I_, args, kw):
    v = I_.content(args[0])
    cl = I_.content(args[1])
    cls = cl.items if isinstance(cl, T) else (cl,)
    return B(Or([isinst(I_, v, c) for c in cls]))


def isinst(I_, v, c):
    if isinstance(c, Bi):
        # type(None)
        return I_.is_none(v) if c.name == "NoneType" else FALSE
    n = c.name
    if isinstance(v, B):
        return z3.BoolVal(n in ("bool", "int", "object"))
    if isinstance(v, I):
        return z3.BoolVal(n in ("int", "object"))
    if isinstance(v, EnumV):
        return z3.BoolVal(n in (v.cls.name, "Enum"))
    if isinstance(v, T):
        return z3.BoolVal(n == "tuple" or v.cls is not None and v.cls.name == n)
    if isinstance(v, O):
        return z3.BoolVal(v.cls.name == n)
    if isinstance(v, Exc):
        return z3.BoolVal(I_.repo.exc_issub(v.cls, n) is True)
    k = I_.kind(v)
    if k in ("l", "s", "d", "t") and not isinstance(v, S):
        return z3.BoolVal({"l": "list", "s": "set", "d": "dict", "t": "tuple"}[k] == n)
    if isinstance(v, S):
        if v.t.eq(NONE_T):
            return FALSE
        alts = v.ty.a if v.ty.n == "Union" else (v.ty,)
        if v.ty.n == "Any":
            return app("isinst_" + n, "V>B", v.t)

        def match(t):
            if t.n == n:
                return True
            if t.n in ("tuple*",) and n == "tuple" or t.n == "defaultdict" and n == "dict":
                return True
            if n in ("Iterable", "Sequence"):
                return t.n in LISTY or t.n == "str"
            a, b = I_.cls_of_ty(t), c
            if a is not None and a.node is not None:
                return any(x.name == n for x in I_.repo.bases(a))
            return False
        ms = [match(t) for t in alts]
        if all(ms):
            return TRUE
        if not any(ms):
            return FALSE
        rest = [t for t, m in zip(alts, ms) if not m]
        if rest == [TNONE]:
            return Not(Eq(v.t, NONE_T))
        f = app("isinst_" + n, "V>B", v.t)
        return And(f, Not(Eq(v.t, NONE_T)))
    return FALSE


def b_getattr(I_, args, kw):
    n = I_.content(args[1])
    if n.lit is None:
        raise Unsupported("getattr with symbolic name")
    try:
        return I_.get_attr(args[0], n.lit)
    except PyRaise as e:
        if len(args) > 2 and e.exc.cls == "AttributeError":
            return args[2]
        raise


def b_super(I_, args, kw):
    fr = I_.st.frames[I_.st.cur]
    cls, self_ = fr.get("$cls"), fr.get("$self")
    return Bi("super", self_, cls)


def b_sorted(I_, args, kw):
    return sorted_(I_, args[0], kw.get("key"), kw.get("reverse"))


def is_str_segs(segs):
    return all(isinstance(u.v, S) and strip_none(u.v.ty).n == "str" for u in _units(segs))


def sorted_(I_, v, key=None, reverse=None):
    c = I_.content(v)
    segs = I_.segs(v)
    rev = False
    if isinstance(c, L) and c.items_of is not None and key is None:
        # items of a dict: the keys are distinct, so the order is the order of the keys
        ks, pair = c.items_of
        return I_.alloc(L(pair(I_.segs(sorted_(I_, St(ks), None, reverse)))))
    if reverse is not None:
        r = I_.truth(reverse)
        if z3.is_true(r):
            rev = True
        elif not z3.is_false(r):
            raise Unsupported("sorted reverse symbolic")
    if all(isinstance(s, U) and z3.is_true(s.g) for s in segs) and key is None:
        vals = [I_.content(s.v) for s in segs]
        if all(isinstance(x, S) and isinstance(x.lit, str) for x in vals):
            return I_.alloc(L(tuple(U(TRUE, pstr(x)) for x in sorted((x.lit for x in vals), reverse=rev))))
        if len(vals) <= 1:
            return I_.alloc(L(segs))
    k = I_.kind(c)
    if key is None and (k in ("s", "d") or isinstance(c, L) and c.nodup or distinct_names(segs)) and is_str_segs(segs):
        x = fresh_binder(V)
        if isinstance(c, L) and c.raw is not None:
            segs = c.raw
        if len(segs) == 1 and isinstance(segs[0], G) and segs[0].dom.kind in ("set", "keys") and z3.is_true(segs[0].g) and len(segs[0].body) == 1 \
                and isinstance(segs[0].body[0], U) and z3.is_true(segs[0].body[0].g) and segs[0].body[0].v.t.eq(segs[0].var):
            d = segs[0].dom
            return I_.alloc(L((G(x, Dom(d.kind, d.term, rev=rev, order="sorted"), TRUE, (U(TRUE, S(x, STR)),)),)))
        return I_.alloc(L((G(x, Dom("pred", segs=segs, rev=rev, order="sorted"), TRUE, (U(TRUE, S(x, STR)),)),)))
    # a fresh list: a permutation of the input, ordered by key
    u = list(_units(segs))
    ty = ANY
    if u and isinstance(u[0].v, S):
        ty = u[0].v.ty
    elif u and isinstance(u[0].v, T):
        raise Unsupported("sorting structured tuples")
    lt = Ty("list", (ty,))
    if isinstance(c, S) and key is None:
        t = app("sorted_rev" if rev else "sorted", "V>V", c.t)
    else:
        t = I_.fresh("sorted")
    at, ln = uf("at", "VI>V"), uf("len", "V>I")
    i, j = z3.Ints("si sj")
    x = z3.Const("sx", V)
    memx = seg_member(segs, lambda e: eq_term(e, x))
    bs = I_.st.binders
    I_.define(z3.ForAll([x], memx == z3.Exists([i], And(0 <= i, i < ln(t), at(t, i) == x))), owner=_own(t))
    I_.define(z3.ForAll([i], Imp(And(0 <= i, i < ln(t)), z3.substitute(memx, (x, at(t, i)))), patterns=[at(t, i)]), owner=_own(t))
    # order
    old = I_.st.binders
    bi, bj = fresh_binder(INT, "si"), fresh_binder(INT, "sj")
    I_.st.binders = old + (bi, bj)
    try:
        a, b = I_.wrap(at(t, bi), ty), I_.wrap(at(t, bj), ty)
        ka = I_.call(key, [a], {}) if key is not None else a
        kb = I_.call(key, [b], {}) if key is not None else b
        bad = I_.cmp(ast.Lt(), kb, ka) if not rev else I_.cmp(ast.Lt(), ka, kb)
    finally:
        I_.st.binders = old
    I_.define(z3.ForAll([bi, bj], Imp(And(0 <= bi, bi < bj, bj < ln(t)), Not(bad)), patterns=[z3.MultiPattern(at(t, bi), at(t, bj))]), owner=_own(t))
    # no duplicates if the input has none (opaque list assumed duplicate free only when stated)
    return I_.alloc(L(I_.opaque_list_segs(t, lt)))


def _own(t):
    return t.decl().name()


# ---------------------------------------------------------------- constructors
def c_set(I_, args, kw):
    if not args:
        return I_.alloc(St(()))
    return I_.alloc(St(I_.segs(args[0])))


def c_frozenset(I_, args, kw):
    if not args:
        return St((), True)
    return St(I_.segs(args[0]), True)


def c_list(I_, args, kw):
    if not args:
        return I_.alloc(L(()))
    c = I_.content(args[0])
    if isinstance(c, Cls) and I_.is_enum(c):
        return I_.alloc(L(tuple(U(TRUE, e) for e in I_.enum_members(c))))
    return I_.alloc(L(I_.segs(args[0])))


def c_tuple(I_, args, kw):
    if not args:
        return T(())
    c = I_.content(args[0])
    if isinstance(c, Cls) and I_.is_enum(c):
        return T(tuple(I_.enum_members(c)))
    segs = I_.segs(args[0])
    if all(isinstance(s, U) and z3.is_true(s.g) for s in segs):
        return T(tuple(s.v for s in segs))
    return L(segs, "tuple")


def c_dict(I_, args, kw):
    if not args:
        return I_.alloc(D(None, tuple(U(TRUE, Op("put", pstr(k), I_.freeze(v))) for k, v in kw.items())))
    c = I_.content(args[0])
    if I_.kind(c) == "d":
        return _shallow(I_, args[0])
    segs = I_.segs(args[0])
    return I_.alloc(D(None, map_segs(segs, lambda p: Op("put", *pair(I_, p)))))


def pair(I_, p):
    return tuple(I_.unpack(p, 2))


def _shallow(I_, v):
    c = I_.content(v)
    d = I_.as_dict(c)
    shared = d.vty.n in ("set", "list") or d.vty.n in DICTY or (d.vty.n not in ("str", "int", "bool", "Path", "Union", "Any", "tuple", "frozenset", "None") and I_.cls_of_ty(d.vty) is not None and not I_.is_enum(I_.cls_of_ty(d.vty)))
    nd = D(d.base, d.ops, d.kty, d.vty, d.default, shared)
    if shared and isinstance(v, Ref) and isinstance(I_.st.heap[v.cid], D):
        I_.st.heap[v.cid] = D(d.base, d.ops, d.kty, d.vty, d.default, True)
    return I_.alloc(nd)


def c_defaultdict(I_, args, kw):
    f = args[0] if args else None
    return I_.alloc(D(None, (), ANY, ANY, f))


def c_str(I_, args, kw):
    return str_(I_, args[0]) if args else pstr("")


def c_bool(I_, args, kw):
    return B(I_.truth(args[0]))


def c_int(I_, args, kw):
    c = I_.content(args[0])
    if isinstance(c, I):
        return c
    if isinstance(c, B):
        return I(z3.If(c.t, 1, 0))
    if c.lit is not None:
        try:
            return I(z3.IntVal(int(c.lit)))
        except ValueError:
            raise PyRaise(Exc("ValueError"))
    if not I_.decide(app("is_int", "V>B", c.t)):
        raise PyRaise(Exc("ValueError", info="int()"))
    return I(app("int_of", "V>I", c.t))


ground("int_of", lambda s: int(s) if isinstance(s, str) and s.isdigit() else NotImplemented)
ground("is_int", lambda s: s.isdigit() if isinstance(s, str) and s.isalnum() else NotImplemented)


def c_Path(I_, args, kw):
    if not args:
        return S(lit("."), PATH)
    c = I_.content(args[0])
    if isinstance(c, L) or any(isinstance(a, tuple) for a in args):
        return S(I_.fresh("path"), PATH)
    if strip_none(c.ty).n == "Path":
        r = c
    else:
        t = c.t
        if z3.is_app(t) and t.decl().name() == "str_of_path":
            r = S(t.arg(0), PATH)
        else:
            r = S(app("mk_path", "V>V", t), PATH)
    for a in args[1:]:
        r = path_join(I_, r, I_.content(a))
    return r


def c_type(I_, args, kw):
    c = I_.content(args[0])
    if isinstance(c, S) and c.t.eq(NONE_T):
        return Bi("NoneType")
    if isinstance(c, O):
        return c.cls
    raise Unsupported("type()")


def c_TypeVar(I_, args, kw):
    return Cls("TypeVar")


# ---------------------------------------------------------------- container methods
def method(I_, recv, name, args, kw):
    c = I_.content(recv)
    if isinstance(c, Bi) and c.name == "super":
        cls = c.extra
        for b in I_.repo.bases(cls):
            m = I_.repo.method(b, name)
            if m:
                node, owner, _ = m
                return I_.call_fn(Fn(node, owner.mod, node.name, cls=owner, self_=c.self_), args, kw)
        return NONE
    if isinstance(c, Bi) and c.name == "regex":
        if name in ("match", "search", "fullmatch"):
            return regex_call(I_, c.extra, name, args[0])
        if name == "sub":
            return S(app(f"re_sub<{c.extra}>", "VV>V", to_term(I_.content(args[0])), to_term(I_.content(args[1]))), STR)
    if isinstance(c, Mod):
        q = f"{c.name}.{name}"
        return ext_call(I_, q, args, kw)
    k = I_.kind(c)
    if k in ("l", "t"):
        return list_method(I_, recv, c, name, args, kw)
    if k == "s":
        return set_method(I_, recv, c, name, args, kw)
    if k == "d":
        return dict_method(I_, recv, c, name, args, kw)
    if isinstance(c, T):
        if name == "index":
            for i, x in enumerate(c.items):
                if I_.decide(I_.eq(x, args[0])):
                    return I(z3.IntVal(i))
            raise PyRaise(Exc("ValueError"))
    if isinstance(c, Cls):
        q = f"{c.name}.{name}"
        if q in EXTERN:
            return EXTERN[q](I_, args, kw)
    if isinstance(c, S):
        ty = strip_none(c.ty)
        if ty.n in ("str", "bytes") or isinstance(c.lit, (str, bytes)) and ty.n != "Path":
            return str_method(I_, c, name, args, kw)
        q = f"{ty.n}.{name}"
        if q in EXTERN:
            return EXTERN[q](I_, [recv if q in STATEFUL else c] + list(args), kw)
    if isinstance(c, O):
        q = f"{c.cls.name}.{name}"
        if q in EXTERN:
            return EXTERN[q](I_, [recv] + list(args), kw)
    raise Unsupported(f"method {name} of {type(c).__name__} {getattr(c, 'ty', '')}")


def ext_call(I_, q, args, kw):
    if q in EXTERN:
        return EXTERN[q](I_, args, kw)
    raise Unsupported("external " + q)


def ident_seg(g):
    """all elements of the domain themselves, under a guard"""
    b = g.body
    if len(b) != 1 or not isinstance(b[0], U) or not isinstance(b[0].v, S):
        return False
    t = b[0].v.t
    return t.eq(g.var) or g.dom.kind == "list" and t.decl().name() == "at" and t.arg(0).eq(g.dom.term) and t.arg(1).eq(g.var)


def distinct_names(segs):
    """the names in one directory are distinct"""
    return len(segs) == 1 and isinstance(segs[0], G) and (segs[0].dom.kind == "pred" and segs[0].dom.order == "sorted" or segs[0].dom.term is not None and z3.is_app(segs[0].dom.term)
                                                                  and segs[0].dom.term.decl().name() in ("walk_dirs", "walk_files")) and ident_seg(segs[0])


def list_method(I_, recv, c, name, args, kw):
    if name == "append":
        I_._mk_op(recv, (U(TRUE, I_.freeze(args[0])),))
        return NONE
    if name == "extend":
        I_._mk_op(recv, map_segs(I_.segs(args[0]), I_.freeze))
        return NONE
    if name == "copy":
        return I_.alloc(L(I_.segs(c)))
    if name == "index":
        segs = I_.segs(c)
        if all(isinstance(s, U) and z3.is_true(s.g) for s in segs):
            eqs = [I_.eq(s.v, args[0]) for s in segs]
            if not I_.decide(Or(eqs)):
                raise PyRaise(Exc("ValueError"))
            r = z3.IntVal(len(eqs) - 1)
            for i in range(len(eqs) - 2, -1, -1):
                r = r if z3.is_false(eqs[i]) else z3.IntVal(i) if z3.is_true(eqs[i]) else z3.If(eqs[i], z3.IntVal(i), r)
            return I(r)
    if name == "sort":
        r = sorted_(I_, recv, kw.get("key"), kw.get("reverse"))
        if isinstance(recv, PRef) and recv.path[0][0] == "field" and len(recv.path) == 1:
            o = I_.st.heap[recv.cid]
            f = dict(o.fields)
            f[recv.path[0][1]] = I_.content(r)
            I_.st.heap[recv.cid] = O(o.cls, f)
        else:
            I_.write(recv, I_.content(r))
        return NONE
    if name == "clear":
        I_.write(recv, L(()))
        return NONE
    if name == "pop" and not isinstance(c, Acc):
        segs = I_.segs(c)
        if all(isinstance(s, U) and z3.is_true(s.g) for s in segs):
            i = args[0].t.as_long() if args else -1
            if not segs:
                raise PyRaise(Exc("IndexError"))
            l = list(segs)
            v = l.pop(i).v
            I_.write(recv, L(tuple(l)))
            return v
    if name == "remove" and not isinstance(c, Acc):
        segs = I_.segs(c)
        if all(isinstance(s, U) and z3.is_true(s.g) for s in segs):
            for i, s in enumerate(segs):
                if I_.decide(I_.eq(s.v, args[0])):
                    I_.write(recv, L(segs[:i] + segs[i + 1:]))
                    return NONE
            raise PyRaise(Exc("ValueError"))
        if not I_.decide(I_.member(c, args[0])):
            raise PyRaise(Exc("ValueError"))
        if isinstance(c, L) and (c.nodup or distinct_names(segs)):
            I_.write(recv, L(filter_segs(segs, lambda v: Not(I_.eq(v, args[0]))), nodup=True,
                            raw=filter_segs(c.raw, lambda v: Not(I_.eq(v, args[0]))) if c.raw is not None else None))
            return NONE
        raise Unsupported("list.remove " + str(segs)[:300])
    if name == "insert" and not isinstance(c, Acc):
        if z3.is_int_value(args[0].t) and args[0].t.as_long() == 0:
            I_.write(recv, L((U(TRUE, I_.freeze(args[1])),) + tuple(I_.segs(c))))
            return NONE
    if name == "reverse" and not isinstance(c, Acc):
        I_.write(recv, L(I_.reverse(I_.segs(c))))
        return NONE
    if name == "count":
        raise Unsupported("list.count")
    raise Unsupported("list." + name)


def set_method(I_, recv, c, name, args, kw):
    if name == "add":
        I_._mk_op(recv, (U(TRUE, I_.freeze(args[0])),))
        return NONE
    if name == "update":
        for a in args:
            I_._mk_op(recv, I_.segs(a))
        return NONE
    if name == "copy":
        return I_.alloc(St(I_.segs(c)))
    if name in ("issubset", "issuperset", "isdisjoint"):
        b = args[0]
        if name == "isdisjoint":
            return B(Not(seg_member(I_.segs(c), lambda v: I_.member(b, v))))
        return B(I_.subset(c, b) if name == "issubset" else I_.subset(b, c))
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        r = c
        for a in args:
            if I_.kind(I_.content(a)) != "s":
                a = St(I_.segs(a))
            r = I_.content(I_.binop({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub", "symmetric_difference": "BitXor"}[name], r, a))
        return I_.alloc(St(I_.segs(r)))
    if isinstance(c, Acc):
        raise Unsupported("set." + name + " on an accumulator")
    if name in ("discard", "remove"):
        if name == "remove" and not I_.decide(I_.member(c, args[0])):
            raise PyRaise(Exc("KeyError"))
        I_.write(recv, St(filter_segs(I_.segs(c), lambda v: Not(I_.eq(v, args[0])))))
        return NONE
    if name == "clear":
        I_.write(recv, St(()))
        return NONE
    if name == "pop":
        segs = I_.segs(c)
        if not I_.decide(seg_nonempty(segs)):
            raise PyRaise(Exc("KeyError"))
        w = witness(I_, segs)
        I_.write(recv, St(filter_segs(segs, lambda v: Not(I_.eq(v, w)))))
        return w
    if name in ("difference_update", "intersection_update"):
        r = I_.binop("Sub" if name.startswith("d") else "BitAnd", c, args[0] if I_.kind(I_.content(args[0])) == "s" else St(I_.segs(args[0])))
        I_.write(recv, I_.content(r))
        return NONE
    raise Unsupported("set." + name)


def dict_method(I_, recv, c, name, args, kw):
    if name == "keys":
        return St(I_.segs(c), True) if not isinstance(c, Acc) else _unsup("keys of an accumulator")
    if name in ("values", "items"):
        if isinstance(c, Acc):
            raise Unsupported("iteration over a dict accumulator")
        d = I_.as_dict(c)
        if d.base is None and (I_.spec or not isinstance(recv, (Ref, PRef))) and len(d.ops) < 8 and I_.distinct_puts(d):
            def g(segs):
                return tuple(U(s.g, s.v.val if name == "values" else T((s.v.key, s.v.val))) if isinstance(s, U) else G(s.var, s.dom, s.g, g(s.body))
                             for s in segs)
            return L(g(d.ops))
        ks = I_.dict_key_segs(d)

        def val(k):
            v = I_.dict_get(d, k)
            if isinstance(recv, (Ref, PRef)):
                v = I_.nested(recv, "key", k, v)
            return v

        def f(segs):
            out = []
            for s in segs:
                if isinstance(s, U):
                    v = val(s.v)
                    out.append(U(s.g, v if name == "values" else T((s.v, v))))
                else:
                    s = rename(s)
                    old = I_.st.binders
                    n = len(I_.st.pc)
                    I_.st.binders = old + (s.var,)
                    I_.st.pc.extend(conj(And(s.dom.mem(s.var), s.g)))
                    try:
                        b = f(s.body)
                    finally:
                        I_.st.binders = old
                        del I_.st.pc[n:]
                    out.append(G(s.var, s.dom, s.g, b))
            return tuple(out)
        return L(f(ks), items_of=(ks, f) if name == "items" and is_str_segs(ks) else None)
    if name == "get":
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        d = I_.as_dict(c) if not isinstance(c, Acc) else _unsup("get on a dict accumulator")
        h = I_.dict_has(d, args[0])
        if z3.is_true(h):
            return I_.nested(recv, "key", args[0], I_.dict_get(d, args[0]))
        if z3.is_false(h):
            return dflt
        v = I_.dict_get(d, args[0])
        if isinstance(v, S) and not is_optional(d.vty) and I_.cls_of_ty(d.vty) and v.ty == d.vty:
            I_.define(Imp(h, v.t != NONE_T))         # the declared value type has no None
        n = I_.nested(recv, "key", args[0], v) if isinstance(recv, (Ref, PRef)) else v
        if isinstance(n, PRef):
            return n if I_.decide(h) else dflt
        try:
            return I_.vite(h, v, dflt)
        except Unsupported:
            return v if I_.decide(h) else dflt
    if name == "setdefault":
        dv = args[1] if len(args) > 1 else NONE
        k = args[0]
        if isinstance(c, Acc):
            fz = I_.freeze(dv)
            if isinstance(fz, (L, St, D)):
                I_._mk_op(recv, (U(TRUE, Op("ensure", I_.freeze(k), fz)),))
                return PRef(recv.cid, (("key", k),)) if isinstance(recv, Ref) else PRef(recv.cid, recv.path + (("key", k),))
            I_._mk_op(recv, (U(TRUE, Op("absent", I_.freeze(k), fz)),))
            return Undef("setdefault result inside its loop")
        fz = I_.freeze(dv)
        I_._mk_op(recv, (U(TRUE, Op("ensure" if isinstance(fz, (L, St, D)) else "absent", I_.freeze(k), fz)),))
        d = I_.as_dict(recv)
        return I_.nested(recv, "key", k, I_.dict_get(d, k))
    if name == "update":
        for a in args:
            ca = I_.content(a)
            if I_.kind(ca) == "d":
                src = I_.debase(I_.as_dict(ca))
                I_._mk_op(recv, src.ops)
            else:
                I_._mk_op(recv, map_segs(I_.segs(a), lambda p: Op("put", *pair(I_, p))))
        for k, v in kw.items():
            I_._mk_op(recv, (U(TRUE, Op("put", pstr(k), I_.freeze(v))),))
        return NONE
    if name == "copy":
        return _shallow(I_, recv)
    if name == "pop":
        d = (I_.own_key(c, I_.content(args[0])) or _unsup("pop on a dict accumulator")) if isinstance(c, Acc) else I_.as_dict(c)
        h = I_.dict_has(d, args[0])
        if not I_.decide(h):
            if len(args) > 1:
                return args[1]
            raise PyRaise(Exc("KeyError"))
        v = I_.freeze(I_.dict_get(d, args[0]))
        if isinstance(v, (L, St, D, O)):
            v = I_.alloc(v)
        I_._mk_op(recv, (U(TRUE, Op("del", args[0])),))
        return v
    if name == "clear":
        I_.write(recv, D(None, (), *( (c.kty, c.vty, c.default) if isinstance(c, D) else ())))
        return NONE
    raise Unsupported("dict." + name)


def _unsup(m):
    raise Unsupported(m)


# ---------------------------------------------------------------- context managers
def cm_enter(I_, cm):
    m = I_.class_method(cm, "__enter__")
    if m is not None:
        return I_.call(m, [], {})
    c = I_.content(cm)
    if isinstance(c, S):
        q = strip_none(c.ty).n + ".__enter__"
        if q in EXTERN:
            return EXTERN[q](I_, [cm], {})
        return cm
    if isinstance(c, Bi) and c.name == "suppress":
        return NONE
    return cm


def cm_exit(I_, cm, exc):
    m = I_.class_method(cm, "__exit__")
    a = [NONE, NONE, NONE] if exc is None else [Cls(exc.cls), exc, S(I_.fresh("tb"), Ty("TracebackType"))]
    if m is not None:
        r = I_.call(m, a, {})
        return I_.truth(r)
    c = I_.content(cm)
    if isinstance(c, Bi) and c.name == "suppress" and exc is not None:
        return z3.BoolVal(any(I_.repo.exc_issub(exc.cls, x.name) for x in c.extra))
    if isinstance(c, S):
        q = strip_none(c.ty).n + ".__exit__"
        if q in EXTERN:
            r = EXTERN[q](I_, [cm] + a, {})
            return None if r is None else I_.truth(r)
    return None


# ---------------------------------------------------------------- external functions
@extern("itertools.chain")
def _chain(I_, args, kw):
    segs = ()
    for a in args:
        segs += tuple(a[1].segs) if isinstance(a, tuple) else tuple(I_.segs(a))
    return L(segs)


@extern("itertools.chain.from_iterable")
def _chain_fi(I_, args, kw):
    return L(bind_segs(I_.segs(args[0]), lambda v: I_.segs(v)))


@extern("copy.deepcopy")
def _deepcopy(I_, args, kw):
    v = args[0]
    saved = I_.st.moved
    r = I_.freeze(v)
    I_.st.moved = saved
    if isinstance(r, S):
        ty = strip_none(r.ty)
        if ty.n in DICTY:
            return I_.alloc(I_.as_dict(r))
        if ty.n in ("list", "set"):
            return I_.alloc(L(I_.segs(r)) if ty.n == "list" else St(I_.segs(r)))
        return r
    if isinstance(r, D):
        return I_.alloc(D(r.base, r.ops, r.kty, r.vty, r.default, False))
    if isinstance(r, (L, St, O)):
        return I_.alloc(r)
    return r


EXTERN["copy.copy"] = lambda I_, a, kw: method(I_, a[0], "copy", [], {})


@extern("dataclasses.replace")
def _replace(I_, args, kw):
    c = I_.content(args[0])
    o = c if isinstance(c, O) else I_.obj_of(c)
    f = dict(o.fields)
    for k, v in kw.items():
        if k not in f:
            raise PyRaise(Exc("TypeError"))
        f[k] = v
    f.pop("$term", None)
    return I_.alloc(O(o.cls, f))


@extern("re.compile")
def _re_compile(I_, args, kw):
    c = I_.content(args[0])
    return Bi("regex", None, c.lit) if c.lit is not None else S(I_.fresh("regex"), Ty("Pattern"))


def regex_call(I_, pattern, how, s):
    c = I_.content(s)
    p = app(re_pred(pattern, how), "V>B", to_term(c))
    # Optional match object
    t = app(f"{how}<{pattern}>", "V>V", to_term(c))
    I_.define(p == (t != NONE_T), owner=t.decl().name())
    return S(t, Ty("Union", (Ty("Match"), TNONE)))


@extern("Match.group")
def _group(I_, args, kw):
    m = I_.content(args[0])
    if len(args) == 1:
        return S(app("match_group0", "V>V", m.t), STR)
    g = I_.content(args[1])
    return S(app("match_group", "VV>V", m.t, to_term(g)), STR)


@extern("functools.lru_cache")
def _lru(I_, args, kw):
    return args[0] if args and isinstance(args[0], Fn) else Bi("identity")


def b_identity(I_, args, kw):
    return args[0]


@extern("contextlib.suppress")
def _suppress(I_, args, kw):
    return Bi("suppress", None, args)


def eff(name, ret=None):
    def f(I_, args, kw):
        effect(I_, name, *args, *kw.values())
        return ret(I_) if ret else NONE
    return f


def world(I_, name, *args):
    """value read from the outside world: a function of its arguments and of the number of effects so far"""
    ts = [to_term(I_.content(a)) for a in args]
    return name + (f"@{I_.st.epoch}" if I_.st.epoch else ""), ts


def w_bool(name):
    def f(I_, args, kw):
        n, ts = world(I_, name, *args)
        return B(app(n, "V" * len(ts) + ">B", *ts))
    return f


def p_fun(name, ty, stable=True):
    """pure function of its arguments"""
    def f(I_, args, kw):
        ts = [to_term(I_.content(a)) for a in args]
        sig = "V" * len(ts) + (">B" if ty == TBOOL else ">I" if ty == TINT else ">V")
        return I_.wrap(app(name, sig, *ts), ty)
    return f


for n in ("exists", "is_file", "is_dir", "is_symlink"):
    EXTERN["Path." + n] = w_bool("path_" + n)
for n in ("is_absolute",):
    EXTERN["Path." + n] = p_fun("path_" + n, TBOOL)
for n in ("absolute", "with_suffix", "with_name", "joinpath", "relative_to", "expanduser"):
    EXTERN["Path." + n] = p_fun("path_" + n, PATH)
EXTERN["Path.is_relative_to"] = lambda I_, a, kw: B(Or(Eq(I_.content(a[0]).t, to_term(I_.content(a[1]))),
                                                       app("in", "VV>B", app("path_parents", "V>V", I_.content(a[0]).t), to_term(I_.content(a[1])))))
EXTERN["Path.as_posix"] = p_fun("str_of_path", STR)
EXTERN["Path.resolve"] = lambda I_, a, kw: S(app("path_resolve", "V>V", I_.content(a[0]).t), PATH)
EXTERN["Path.samefile"] = w_bool("samefile")
EXTERN["Path.cwd"] = lambda I_, a, kw: S(app("cwd", "V>V", I_.st.ghost.get("cwd", z3.Const("cwd0", V))), PATH)
for n in ("unlink", "rename", "replace", "chmod", "write_text", "write_bytes", "symlink_to", "rmdir", "touch"):
    EXTERN["Path." + n] = eff("path_" + n)
EXTERN["Path.mkdir"] = eff("path_mkdir")
EXTERN["os.path.relpath"] = p_fun("relpath", STR)
EXTERN["os.path.basename"] = p_fun("basename", STR)
EXTERN["os.path.dirname"] = p_fun("dirname", STR)
EXTERN["os.path.abspath"] = p_fun("abspath", STR)
EXTERN["os.path.join"] = p_fun("os_path_join", STR)
EXTERN["os.path.isabs"] = p_fun("isabs", TBOOL)
EXTERN["os.path.realpath"] = p_fun("os_realpath", STR)
EXTERN["os.path.normpath"] = p_fun("normpath", STR)


@extern("logging.getLogger")
def _getlogger(I_, args, kw):
    return NONE




# ---------------------------------------------------------------- packaging
def parse_wheel_filename(I_, args, kw):
    f = I_.content(args[0])
    if not I_.spec and I_.decide(app("invalid_wheel_filename", "V>B", f.t)):
        raise PyRaise(Exc("InvalidWheelFilename"))
    return T((S(app("whl_name", "V>V", f.t), STR), S(app("whl_version", "V>V", f.t), Ty("Version")), S(app("whl_build", "V>V", f.t), ANY),
              S(app("whl_tags", "V>V", f.t), Ty("frozenset", (Ty("PkgTag"),)))))


EXTERN["packaging.utils.parse_wheel_filename"] = parse_wheel_filename
EXT_FIELDS.update({"PkgTag.platform": STR, "PkgTag.interpreter": STR, "PkgTag.abi": STR})


# ---------------------------------------------------------------- pyelftools: the tables of an ELF file as it presents them
SECTION = Ty("Section")
EXTERN["ELFFile.get_section_by_name"] = p_fun("elf_section", union(SECTION, TNONE))
EXTERN["Section.iter_symbols"] = p_fun("sec_symbols", Ty("list", (Ty("Symbol"),)))
EXTERN["Section.iter_versions"] = p_fun("sec_versions", Ty("list", (Ty("tuple", (Ty("verneed"), Ty("list", (Ty("vernaux"),)))),)))
EXTERN["Section.iter_tags"] = p_fun("sec_tags", Ty("list", (Ty("DynTag"),)))


def path_open(I_, args, kw):
    """a file opened for reading: its content is a function of the path and of what was written so far"""
    mode = I_.content(args[1]) if len(args) > 1 else kw.get("mode")
    if isinstance(mode, S) and mode.lit in ("w", "wb", "w+"):
        effect(I_, "open_write", args[0])
        return S(app("writer", "V>V", to_term(I_.content(args[0]))), Ty("Writer"))
    if mode is None or not isinstance(mode, S) or mode.lit not in ("r", "rb"):
        raise Unsupported("open for writing")
    n, ts = world(I_, "file_at", args[0])
    return S(app(n, "V>V", *ts), Ty("File"))


EXTERN["Path.open"] = path_open
EXTERN["pyvc_spec.opened"] = lambda I_, a, kw: S(app("file_at", "V>V", to_term(I_.content(a[0]))), Ty("File"))      # as it was when the function was called
EXTERN["File.__exit__"] = lambda I_, a, kw: None
EXTERN["File.__enter__"] = lambda I_, a, kw: a[0]


def elf_file(I_, args, kw):
    f = I_.content(args[0])
    if not I_.spec and not I_.decide(app("is_elf", "V>B", f.t)):
        raise PyRaise(Exc("ELFError"))
    return S(app("elf_file", "V>V", f.t), Ty("ELFFile"))


EXTERN["ELFFile"] = elf_file


# specification-only predicates: pyvc_spec.*
EXTERN["pyvc_spec.is_elf"] = lambda I_, a, kw: B(app("is_elf", "V>B", I_.content(a[0]).t))

EXTERN["platform.architecture"] = lambda I_, a, kw: T((S(z3.Const("platform.bits", V), STR), S(z3.Const("platform.linkage", V), STR)))
EXTERN["platform.machine"] = lambda I_, a, kw: S(z3.Const("platform.machine", V), STR)


# ---------------------------------------------------------------- argparse, shutil
def parser_error(I_, args, kw):
    effect(I_, "parser_error")
    raise PyRaise(Exc("SystemExit"))


EXTERN["ArgumentParser.error"] = parser_error
for n in ("copy2", "copy", "copyfile", "copytree", "rmtree", "move"):
    EXTERN["shutil." + n] = eff("shutil_" + n)


def writer_write(I_, args, kw):
    f = I_.content(args[0])
    if f.t.decl().name() != "writer":
        raise Unsupported("write to an unknown file")
    effect(I_, "write_file", S(f.t.arg(0), PATH), args[1])
    return NONE


EXTERN["Writer.write"] = writer_write
EXTERN["Writer.__enter__"] = lambda I_, a, kw: a[0]
EXTERN["Writer.__exit__"] = lambda I_, a, kw: None


def path_stat(I_, args, kw):
    n, ts = world(I_, "path_stat", args[0])
    return S(app(n, "V>V", *ts), Ty("stat"))


EXTERN["Path.stat"] = path_stat
# status of a file after the first n externally visible actions of the function under contract
EXTERN["pyvc_spec.stat_after"] = lambda I_, a, kw: S(app("path_stat" + (f"@{I_.content(a[1]).t.as_long()}" if I_.content(a[1]).t.as_long() else ""), "V>V",
                                                         to_term(I_.content(a[0]))), Ty("stat"))


def check_call(I_, args, kw):
    effect(I_, "check_call", args[0])
    if not I_.spec and I_.decide(I_.fresh("command_fails", BOOL)):
        raise PyRaise(Exc("CalledProcessError"))
    return I(z3.IntVal(0))


EXTERN["subprocess.check_call"] = check_call


# ---------------------------------------------------------------- working directory, temporary directories, environment, time
def os_chdir(I_, args, kw):
    effect(I_, "chdir", args[0])
    I_.st.ghost["cwd"] = to_term(I_.content(args[0]))
    return NONE


EXTERN["os.chdir"] = os_chdir
EXTERN["os.getcwd"] = lambda I_, a, kw: S(app("str_of_path", "V>V", app("cwd", "V>V", I_.st.ghost.get("cwd", z3.Const("cwd0", V)))), STR)


def c_TemporaryDirectory(I_, args, kw):
    d = args[2] if len(args) > 2 else kw.get("dir", NONE)
    t = S(app(f"temporary_directory@{I_.st.epoch}", "V>V", to_term(I_.content(d))), Ty("TemporaryDirectory"))
    effect(I_, "make_temporary_directory", t)
    return t


def tmp_remove(I_, args, kw):
    effect(I_, "remove_temporary_directory", args[0])
    return NONE


EXTERN["TemporaryDirectory.__enter__"] = lambda I_, a, kw: I_.get_attr(a[0], "name")
EXTERN["TemporaryDirectory.__exit__"] = lambda I_, a, kw: (tmp_remove(I_, a, kw), None)[1]
EXTERN["TemporaryDirectory.cleanup"] = tmp_remove
EXTERN["os.environ.get"] = lambda I_, a, kw: S(app("environ_get", "V>V", to_term(I_.content(a[0]))), union(STR, TNONE))


def from_timestamp(I_, args, kw):
    if not I_.spec and I_.decide(I_.fresh("timestamp_out_of_range", BOOL)):
        raise PyRaise(Exc("OverflowError"))
    return I_.wrap(app("datetime_of", "I>V", I_.as_int(args[0]) if hasattr(I_, "as_int") else I_.content(args[0]).t), Ty("datetime"))


EXTERN["datetime.fromtimestamp"] = from_timestamp
EXTERN["datetime.datetime.fromtimestamp"] = from_timestamp
EXTERN["pyvc_spec.initial_cwd"] = lambda I_, a, kw: S(app("cwd", "V>V", z3.Const("cwd0", V)), PATH)


def it_product(I_, args, kw):
    """itertools.product of finite sequences, the last varying fastest"""
    seqs = [I_.segs(a) for a in args]

    def go(i, items):
        if i == len(seqs):
            return (U(TRUE, T(tuple(items))),)
        return bind_segs([rename(s) if isinstance(s, G) else s for s in seqs[i]], lambda v: go(i + 1, items + [v]))
    return I_.alloc(L(tuple(go(0, []))))


EXTERN["itertools.product"] = it_product


def dedupe_segs(I_, segs, prior):
    """the elements for which no earlier element is equal; prior(v): some element before these segments equals v"""
    out = []
    for k, s in enumerate(segs):
        def pr(v, k=k):
            return Or([prior(v), seg_member(segs[:k], lambda e: I_.eq(e, v))])
        if isinstance(s, U):
            out.append(U(And(s.g, Not(pr(s.v))), s.v))
            continue
        s = rename(s)
        r = rename(s)

        def pr2(v, s=s, r=r, pr=pr):
            same = len(r.body) == 1 and isinstance(r.body[0], U) and isinstance(r.body[0].v, S) and r.body[0].v.t.eq(r.var)
            if same:
                return pr(v)          # the iteration variable itself: no element twice
            return Or([pr(v), exists1(r.var, And(r.dom.mem(r.var), r.dom.before(r.var, s.var), r.g, seg_member(r.body, lambda e: I_.eq(e, v))))])
        out.append(G(s.var, s.dom, s.g, dedupe_segs(I_, s.body, pr2)))
    return tuple(out)


def dedupe(I_, args, kw):
    segs = I_.segs(args[0])
    for other, r in I_.st.ghost.get("dedupes", ()):      # equal lists give the identical value
        try:
            f = I_.list_eq(other, segs)
        except Unsupported:
            continue
        if z3.is_true(f) or I_.solver.quick_unsat(list(I_.st.pc) + [Not(f)], I_.defs, slow=True):
            return I_.alloc(r)
    r = L(dedupe_segs(I_, segs, lambda v: FALSE), nodup=True, raw=segs)
    I_.st.ghost["dedupes"] = I_.st.ghost.get("dedupes", ()) + ((segs, r),)
    return I_.alloc(r)


EXTERN["pyvc_spec.dedupe"] = dedupe


# ---------------------------------------------------------------- digests, CSV, file contents
# content of a file that the function under contract does not write
EXTERN["Path.read_bytes"] = p_fun("file_bytes", BYTES)
# a digest absorbs bytes: absorbing the pieces one after the other is absorbing the whole, absorbing nothing changes nothing
STATEFUL = {"Hash.update", "BinaryIO.read"}
_h, _r = z3.Consts("h r", V)
_n = z3.Int("n")
_absorb, _take, _drop, _len = uf("absorb", "VV>V"), uf("take", "VI>V"), uf("drop", "VI>V"), uf("len", "V>I")
axiom("take", z3.ForAll([_h, _r, _n], _absorb(_absorb(_h, _take(_r, _n)), _drop(_r, _n)) == _absorb(_h, _r), patterns=[_absorb(_absorb(_h, _take(_r, _n)), _drop(_r, _n))]))
axiom("take", z3.ForAll([_r, _n], Imp(And(_n > 0, _len(_take(_r, _n)) <= 0), And(_len(_r) == 0, _len(_drop(_r, _n)) == 0)), patterns=[_take(_r, _n)]))
axiom("absorb", z3.ForAll([_h, _r], Imp(_len(_r) == 0, _absorb(_h, _r) == _h), patterns=[_absorb(_h, _r)]))
axiom("absorb", z3.ForAll([_r], _len(_r) >= 0, patterns=[_len(_r)]))
axiom("drained", z3.ForAll([_r], _len(uf("drained", "V>V")(_r)) == 0, patterns=[uf("drained", "V>V")(_r)]))
NO_BYTES_YET = z3.Const("sha256_initial", V)


def sha256(I_, a, kw):
    if not a:
        return I_.alloc(S(NO_BYTES_YET, Ty("Hash")))
    return S(app("absorb", "VV>V", NO_BYTES_YET, to_term(I_.content(a[0]))), Ty("Hash"))


def hash_update(I_, a, kw):
    if not isinstance(a[0], Ref):
        raise Unsupported("update of a digest that may be shared")
    I_.write(a[0], S(app("absorb", "VV>V", I_.content(a[0]).t, to_term(I_.content(a[1]))), Ty("Hash")))
    return NONE


def reader_read(I_, a, kw):
    """the next n bytes (all that is left without n); empty only at the end"""
    if not isinstance(a[0], Ref):
        raise Unsupported("read of a file that may be shared")
    r = I_.content(a[0]).t
    if len(a) == 1:
        I_.write(a[0], S(app("drained", "V>V", r), Ty("BinaryIO")))
        return S(r, BYTES)
    n = I_.content(a[1]).t
    I_.write(a[0], S(app("drop", "VI>V", r, n), Ty("BinaryIO")))
    return S(app("take", "VI>V", r, n), BYTES)


def whole(I_, a, kw):
    """what a file held when it was handed over"""
    r = a[0]
    while isinstance(r, Ref) and isinstance(I_.st.heap[r.cid], Ref):
        r = I_.st.heap[r.cid]
    if isinstance(r, Ref):
        return S(I_.readers[r.cid], BYTES)
    return S(app("bytes_in", "V>V", to_term(I_.content(r))), BYTES)


EXTERN["hashlib.sha256"] = sha256
EXTERN["Hash.update"] = hash_update
EXTERN["BinaryIO.read"] = reader_read
EXTERN["pyvc_spec.whole"] = whole
EXTERN["pyvc_spec.absorbed"] = lambda I_, a, kw: S(app("absorb", "VV>V", to_term(I_.content(a[0])), to_term(I_.content(a[1]))), Ty("Hash"))
EXTERN["pyvc_spec.unread"] = lambda I_, a, kw: S(I_.content(a[0]).t, BYTES)
EXTERN["Hash.digest"] = p_fun("digest", BYTES)
EXTERN["Hash.hexdigest"] = p_fun("hexdigest", STR)
EXTERN["base64.urlsafe_b64encode"] = p_fun("urlsafe_b64encode", BYTES)


def csv_writer(I_, args, kw):
    f = I_.content(args[0])
    if f.t.decl().name() != "writer" or len(args) > 1 or kw:
        raise Unsupported("csv.writer on an unknown file")
    return S(app("csv_writer", "V>V", f.t), Ty("CsvWriter"))


def csv_writerow(I_, args, kw):
    w = I_.content(args[0])
    if w.t.decl().name() != "csv_writer":
        raise Unsupported("writerow to an unknown writer")
    effect(I_, "writerow", S(w.t.arg(0).arg(0), PATH), args[1])
    return NONE


EXTERN["csv.writer"] = csv_writer
EXTERN["CsvWriter.writerow"] = csv_writerow
# entries of a directory that match a pattern
EXTERN["Path.glob"] = p_fun("glob", Ty("list", (PATH,)))
EXTERN["pyvc_spec.existed"] = lambda I_, a, kw: B(app("path_exists", "V>B", to_term(I_.content(a[0]))))      # before the function was called


# ---------------------------------------------------------------- zip archives, time
def file_read(I_, args, kw):
    f = I_.content(args[0])
    if len(args) > 1 or not f.t.decl().name().startswith("file_at"):
        raise Unsupported("read of an unknown file")
    return S(app("file_bytes", "V>V", f.t.arg(0)), BYTES)


EXTERN["File.read"] = file_read
EXTERN["time.perf_counter"] = lambda I_, a, kw: I(I_.fresh("clock", z3.IntSort()))
EXT_FIELDS.update({"stat.st_mtime": TINT, "ArchiveMember.external_attr": TINT})
EXTERN["datetime.timetuple"] = lambda I_, a, kw: T(tuple(I(app(f"timetuple{k}", "V>I", to_term(I_.content(a[0])))) for k in range(9)))


def c_ZipFile(I_, args, kw):
    mode = args[1] if len(args) > 1 else kw.get("mode", pstr("r"))
    m = I_.content(mode)
    if m.lit == "w":
        effect(I_, "zip_create", args[0])
    elif m.lit != "r":
        raise Unsupported("archive mode")
    return S(app("zip_file", "V>V", to_term(I_.content(args[0]))), Ty("ZipFile"))


EXTERN["ZipFile.__enter__"] = lambda I_, a, kw: a[0]
EXTERN["ZipFile.__exit__"] = lambda I_, a, kw: None
EXTERN["ZipFile.namelist"] = p_fun("zip_names", Ty("list", (STR,)))
EXTERN["ZipFile.getinfo"] = p_fun("zip_member", Ty("ArchiveMember"))
EXTERN["ArchiveMember.is_dir"] = p_fun("member_is_dir", TBOOL)


def zip_extract(I_, args, kw):
    effect(I_, "zip_extract", *args)
    return S(app("extracted", "VV>V", to_term(I_.content(args[1])), to_term(I_.content(args[2]))), STR)


EXTERN["ZipFile.extract"] = zip_extract


def zipinfo_from_file(I_, args, kw):
    """a new ZipInfo for a file, under the given name"""
    m = I_.repo.module("contracts.c14")
    return I_.construct(Cls("ZipInfo", m, m.defs["ZipInfo"][1]), list(args[:2]), {})


EXTERN["zipfile.ZipInfo.from_file"] = EXTERN["ZipInfo.from_file"] = zipinfo_from_file


def zip_writestr(I_, args, kw):
    z, i = I_.content(args[0]), args[1]
    level = kw.get("compresslevel", NONE)
    if len(args) > 3 or set(kw) - {"compresslevel"}:
        raise Unsupported("writestr arguments")
    effect(I_, "zip_write", S(z.t.arg(0), PATH), *(I_.get_attr(i, n) for n in ("source", "filename", "date_time", "compress_type")), args[2], level)
    return NONE


EXTERN["ZipFile.writestr"] = zip_writestr
# the path a member is extracted to
EXTERN["pyvc_spec.extracted_to"] = lambda I_, a, kw: method_path(I_, S(app("extracted", "VV>V", to_term(I_.content(a[1])), to_term(I_.content(a[2]))), STR))


def method_path(I_, s):
    return I_.construct(Cls("Path"), [s], {})
# every directory of a tree; the order of the names in one directory is open (they are distinct)
def os_walk(I_, args, kw):
    top = to_term(I_.content(args[0]))
    t = app("os_walk", "V>V", top)
    segs = I_.opaque_list_segs(t, Ty("list", (STR,)))
    names = Ty("list", (STR,))
    return I_.alloc(L(map_segs(segs, lambda d: T((d, S(app("walk_dirs", "VV>V", top, d.t), names), S(app("walk_files", "VV>V", top, d.t), names))))))


EXTERN["os.walk"] = os_walk
