"""while loops: invariants are found by elimination (Houdini) among the candidates a contract offers.

A contract lists template functions (`loops=[...]`).  A template's parameters are resolved by name (parameters of the function
under contract) or by annotation: `set`/`list`/`dict` range over the containers the loop changes, class names over the values
of that class in scope.  Every instance that holds on entry and is preserved by an arbitrary iteration is an invariant."""
from __future__ import annotations
import ast, itertools
import z3
from .terms import *
from .values import *
from .interp import NORMAL, PyRaise, Infeasible, intern_uid, Undef


def elem_type(I_, v):
    """element type of a collection value, from what it holds"""
    c = v
    if isinstance(c, S):
        return strip_none(c.ty)
    tys = set()

    def vt(x):
        if isinstance(x, S):
            return x.ty
        if isinstance(x, I):
            return TINT
        if isinstance(x, B):
            return TBOOL
        if isinstance(x, T):
            return Ty("tuple", tuple(vt(i) for i in x.items))
        if isinstance(x, O):
            return Ty(x.cls.name)
        if isinstance(x, EnumV):
            return Ty(x.cls.name)
        if isinstance(x, (L, St)):
            return elem_type(I_, x)
        return ANY

    def walk(segs):
        for s in segs:
            if isinstance(s, U):
                tys.add(vt(s.v))
            else:
                walk(s.body)
    if isinstance(c, (L, St)):
        walk(c.segs)
        t = tys.pop() if len(tys) == 1 else ANY
        return Ty("list" if isinstance(c, L) else "set", (t,))
    if isinstance(c, D):
        kty, vty = c.kty, c.vty
        for _, _, op in I_.flat_ops(c.ops):
            if op.kind in ("put", "absent", "ensure"):
                if kty == ANY:
                    kty = vt(op.key)
                if vty == ANY and isinstance(op.val, Val):
                    vty = vt(op.val)
        return Ty("dict", (kty, vty))
    return None


def havoc_value(I_, v, ty, name):
    if isinstance(v, B):
        return B(I_.fresh(name, BOOL))
    if isinstance(v, I):
        return I(I_.fresh(name, INT))
    if isinstance(v, (S, EnumV)):
        sv = I_.scalar(v)
        t = sv.ty if ty is None else union(sv.ty, ty)
        return S(I_.fresh(name), t)
    if isinstance(v, T):
        return T(tuple(havoc_value(I_, x, None, name) for x in v.items), v.cls)
    if isinstance(v, (L, St, D)):
        return S(I_.fresh(name), ty)
    raise Unsupported("havoc of " + type(v).__name__)


def exec_while(I_, st, s):
    W, tys = {}, {}
    for rnd in range(10):
        head = make_head(I_, st, W, tys, rnd)
        outs = iterate(I_, head, s, ())
        new, retype = set(), False
        for x, o in outs:
            for loc, v in changed_locs(head, x, st):
                if loc not in W:
                    new.add((loc))
                t = value_type(I_, loc_value(x, loc)) if o is NORMAL or o[0] == "continue" else None
                if t is not None:
                    old = tys.get(loc)
                    t2 = better_ty(old, t)
                    if t2 != old:
                        tys[loc] = t2
                        retype = True
        for loc in new:
            W[loc] = True
            b = value_type(I_, loc_value(st, loc))
            if b is not None:
                tys[loc] = better_ty(tys.get(loc), b)
        if not new and not retype:
            break
    else:
        raise Unsupported("while loop effects do not stabilise")
    # invariants
    cands = instances(I_, st, W, tys)
    cands = [c for c in cands if holds(I_, st, st, c, entry=True)]
    for _ in range(20):
        head = make_head(I_, st, W, tys, "inv")
        outs = iterate(I_, head, s, cands)
        keep = list(cands)
        for x, o in outs:
            if not (o is NORMAL or o[0] == "continue"):
                continue
            keep = [c for c in keep if holds(I_, x, st, c)]
        if len(keep) == len(cands):
            break
        cands = keep
    res = []
    for x, o in outs:
        if o is NORMAL or o[0] == "continue":
            if x.trace is not head.trace:
                raise Unsupported("effects inside a while loop")
            continue
        if o[0] == "break":
            res.append((x, NORMAL))
        else:
            res.append((x, o))
    # normal exit
    head = make_head(I_, st, W, tys, "exit")

    def leave():
        assume_invs(I_, cands, st)
        c = I_.cond(s.test)
        I_.assume(Not(c))
        induct(I_, W)
        return NORMAL
    for x, o in I_.run(head, leave):
        if o is NORMAL and s.orelse:
            res.extend(I_.exec_block(x, s.orelse))
        else:
            res.append((x, o))
    I_.notes.add("while: " + ", ".join(c[0] for c in cands))
    return res


def better_ty(a, b):
    if a is None:
        return b
    if b is None or a == b:
        return a
    if a.n == b.n and len(a.a) == len(b.a):
        return Ty(a.n, tuple(better_ty(x, y) for x, y in zip(a.a, b.a)))
    if a == ANY:
        return b
    if b == ANY:
        return a
    return union(a, b)


def loc_value(st, loc):
    return st.heap.get(loc[1]) if loc[0] == "h" else st.frames.get(loc[1], {}).get(loc[2])


def value_type(I_, v):
    if isinstance(v, (L, St, D)):
        return elem_type(I_, v)
    if isinstance(v, S):
        return v.ty
    return None


def changed_locs(head, x, st):
    for cid, c in head.heap.items():
        if cid in st.heap and x.heap.get(cid) is not c:
            yield ("h", cid), x.heap.get(cid)
    for fid, fr in head.frames.items():
        if fid not in st.frames:
            continue
        f2 = x.frames.get(fid, {})
        for k, v in f2.items():
            if k.startswith("$"):
                continue
            if fr.get(k) is not v:
                if isinstance(v, Ref) and isinstance(fr.get(k), Ref) and v.cid == fr[k].cid:
                    continue
                yield ("f", fid, k), v


def make_head(I_, st, W, tys, rnd):
    h = st.copy()
    h.uid = intern_uid(h.uid, ("wh", str(rnd)))
    old = I_.st
    I_.st = h
    try:
        for loc in W:
            if loc[0] == "h":
                c = h.heap[loc[1]]
                if isinstance(c, (Ref, PRef)):
                    raise Unsupported("while loop rebinds a reference cell")
                if isinstance(c, O):
                    raise Unsupported("while loop mutates an object")
                ty = tys.get(loc) or value_type(I_, c)
                h.heap[loc[1]] = havoc_value(I_, c, ty, "wl")
            else:
                fr = h.frames[loc[1]]
                if loc[2] not in fr:
                    fr[loc[2]] = Undef("assigned in a while loop")
                elif isinstance(fr[loc[2]], Ref):
                    c = I_.content(fr[loc[2]])
                    fr[loc[2]] = I_.alloc(havoc_value(I_, c, tys.get(loc) or value_type(I_, c), "wl"))
                elif isinstance(fr[loc[2]], Undef):
                    pass
                else:
                    fr[loc[2]] = havoc_value(I_, fr[loc[2]], tys.get(loc), "wv")
    finally:
        I_.st = old
    return h


def iterate(I_, head, s, cands):
    """outcomes of one arbitrary iteration"""
    def test():
        assume_invs(I_, cands, head)
        c = I_.decide(I_.cond(s.test))
        return ("go",) if c else ("stop",)
    outs = []
    for x, o in I_.run(head, test):
        if o[0] == "raise":
            outs.append((x, o))
        elif o[0] == "go":
            outs.extend(I_.exec_block(x, s.body))
    return outs


def assume_invs(I_, cands, st0):
    for name, con, fn, env in cands:
        I_.assume(formula(I_, con, fn, env))


def formula(I_, con, fn, env):
    e2 = {}
    for k, v in env.items():
        if isinstance(v, tuple) and v and v[0] in ("h", "f"):
            r = Ref(v[1]) if v[0] == "h" else I_.st.frames[v[1]][v[2]]
            e2[k] = r
        else:
            e2[k] = v
    return con.spec_formula(I_, fn, e2)


def holds(I_, x, st0, cand, entry=False):
    name, con, fn, env = cand
    out = []

    def go():
        g = formula(I_, con, fn, env)
        return ("f", g)
    for y, o in I_.run(x, go):
        if o[0] == "raise":
            return False
        if not (z3.is_true(o[1]) or I_.solver.quick_unsat(list(y.pc) + [Not(o[1])], I_.defs, slow=True)):
            return False
    return True


def instances(I_, st, W, tys):
    con = I_.under_contract
    if con is None or not con.loops:
        return []
    res = []
    # containers the loop changes, by kind; nested-frame variables pointing at them count once
    cont = {"set": [], "list": [], "dict": [], "int": [], "bytes": []}
    for loc in W:
        v = loc_value(st, loc)
        if isinstance(v, Ref):
            v = st.heap.get(v.cid)
        ty = tys.get(loc)
        k = None
        if isinstance(v, St) or isinstance(v, S) and strip_none(v.ty).n in SETY:
            k = "set"
        elif isinstance(v, L) or isinstance(v, S) and strip_none(v.ty).n in LISTY:
            k = "list"
        elif isinstance(v, D) or isinstance(v, S) and strip_none(v.ty).n in DICTY:
            k = "dict"
        elif isinstance(v, I):
            k = "int"
        elif isinstance(v, S) and strip_none(v.ty).n == "bytes":
            k = "bytes"
        if k:
            cont[k].append(loc)
    m = I_.repo.module(con.mod)
    for fname in con.loops:
        node = m.defs[fname][1]
        choices, names = [], []
        for a in node.args.args:
            names.append(a.arg)
            ann = a.annotation
            if ann is None:
                if a.arg not in I_.root_env:
                    choices.append([])
                else:
                    choices.append([I_.root_env[a.arg]])
                continue
            t = ann.id if isinstance(ann, ast.Name) else "?"
            if t in cont:
                choices.append(cont[t])
            else:
                found = []
                for fid, fr in st.frames.items():
                    if fid == "root" or fid.startswith("m:"):
                        continue
                    for k, v in fr.items():
                        if k.startswith("$") or not isinstance(v, (S, Ref, T)):
                            continue
                        c = I_st_content(st, v)
                        n = strip_none(c.ty).n if isinstance(c, S) else c.cls.name if isinstance(c, O) else None
                        if n == t and not any(isinstance(f, S) and isinstance(c, S) and f.t.eq(c.t) for f in found):
                            found.append(v)
                choices.append(found)
        for combo in itertools.product(*choices):
            locs = [c for c in combo if isinstance(c, tuple)]
            if len(set(locs)) != len(locs):
                continue
            res.append((fname + str(tuple(str(c) if isinstance(c, tuple) else "." for c in combo)), con, fname, dict(zip(names, combo))))
            if len(res) > 60:
                return res
    return res


def I_st_content(st, v):
    while isinstance(v, Ref):
        v = st.heap[v.cid]
    return v


def induct(I_, W):
    """instances of the leastness of inductive predicates for the sets a loop has computed"""
    con = I_.under_contract
    if con is None:
        return
    for loc in W:
        v = loc_value(I_.st, loc)
        if isinstance(v, Ref):
            v = I_.content(v)
        if isinstance(v, S) and strip_none(v.ty).n in ("set", "list"):
            I_.induction_sets.append((I_.st.binders, v))
            I_.induct_on(v)
