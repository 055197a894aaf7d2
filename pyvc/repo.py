"""Source index of the tree under verification: modules, functions, classes and their declared field types."""
from __future__ import annotations
import ast, os, pathlib
from .values import *
from .interp import BUILTIN_EXC


class Module:
    def __init__(self, name, tree, text, is_pkg=False):
        self.name, self.tree, self.text, self.is_pkg = name, tree, text, is_pkg
        self.defs = {}
        self.collect(tree.body)

    def collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.defs[n.name] = ("fn", n)
            elif isinstance(n, ast.ClassDef):
                self.defs[n.name] = ("cls", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.defs[n.target.id] = ("assign", n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[(a.asname or a.name).split(".")[0]] = ("import", (a.name if a.asname else a.name.split(".")[0], None))
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.defs[a.asname or a.name] = ("import", (base, a.name))
            elif isinstance(n, ast.If):
                self.collect(n.body)
                self.collect(n.orelse)
            elif isinstance(n, ast.Try):
                self.collect(n.body)
                for h in n.handlers:
                    for k in h.body:
                        pass


class Repo:
    def __init__(self, root, extra=None):
        self.root = pathlib.Path(root)
        self.mods = {}
        self.nn = set()
        self.extra = {k: pathlib.Path(v) for k, v in (extra or {}).items()}
        self._fields, self._enum = {}, {}
        self.field_override = {}
        self.enum_classes = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        m = None
        p = None
        if name in self.extra:
            p, pkg = self.extra[name], False
        elif name.split(".")[0] == "auditwheel":
            b = self.root.joinpath("src", *name.split("."))
            if (b / "__init__.py").exists():
                p, pkg = b / "__init__.py", True
            elif b.with_suffix(".py").exists():
                p, pkg = b.with_suffix(".py"), False
        if p is not None:
            text = p.read_text()
            m = Module(name, ast.parse(text, str(p)), text, pkg)
        self.mods[name] = m
        return m

    def all_modules(self):
        base = self.root / "src"
        for p in sorted((base / "auditwheel").rglob("*.py")):
            if "_vendor" in p.parts:
                continue
            n = ".".join(p.relative_to(base).with_suffix("").parts)
            yield self.module(n.removesuffix(".__init__"))

    def resolve(self, mod, name):
        d = mod.defs.get(name)
        if d is None:
            return None
        kind, x = d
        if kind in ("fn", "cls", "assign"):
            return kind, mod, x
        base, attr = x
        return self._import(base, attr)

    def _import(self, base, attr):
        m = self.module(base)
        if m is None:
            return ("ext", None, base if attr is None else f"{base}.{attr}")
        if attr is None:
            return ("mod", None, base)
        r = self.resolve(m, attr)
        if r is None:
            sub = self.module(f"{base}.{attr}")
            if sub is not None:
                return ("mod", None, f"{base}.{attr}")
            raise Unsupported(f"import {base}.{attr}")
        return r

    def resolve_import(self, mod, node, alias):
        tmp = Module(mod.name, ast.Module([ast.Import([alias]) if isinstance(node, ast.Import) else
                                           ast.ImportFrom(node.module, [alias], node.level)], []), "", mod.is_pkg)
        return self.resolve(tmp, (alias.asname or alias.name).split(".")[0])

    # ---- classes
    def class_by_name(self, name):
        if not hasattr(self, "_cls"):
            self._cls = {}
            for m in list(self.all_modules()) + [self.module(n) for n in self.extra]:
                for k, (kind, x) in m.defs.items():
                    if kind == "cls":
                        self._cls.setdefault(k, Cls(k, m, x))
        return self._cls.get(name)

    def deco_name(self, d):
        if isinstance(d, ast.Call):
            d = d.func
        if isinstance(d, ast.Attribute):
            return d.attr
        if isinstance(d, ast.Name):
            return d.id
        return "?"

    def is_dataclass(self, c):
        return any(self.deco_name(d) == "dataclass" for d in c.node.decorator_list)

    def is_frozen(self, c):
        for d in c.node.decorator_list:
            if self.deco_name(d) == "dataclass" and isinstance(d, ast.Call):
                return any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
        return False

    def bases(self, c):
        out = []
        for b in c.node.bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n is None:
                continue
            r = self.resolve(c.mod, n)
            if r and r[0] == "cls":
                out.append(Cls(n, r[1], r[2]))
            else:
                out.append(Cls(n))
        return out

    def namedtuple_fields(self, c):
        if c.node is None or not any(b.name == "NamedTuple" for b in self.bases(c)):
            return None
        return [n.target.id for n in c.node.body if isinstance(n, ast.AnnAssign)]

    def is_enum(self, c):
        return any(b.name in ("Enum", "IntEnum", "StrEnum") for b in self.bases(c))

    def enum_members(self, c, interp):
        if c.name not in self._enum:
            out = []
            for n in c.node.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                    out.append((n.targets[0].id, n.value))
            self._enum[c.name] = [EnumV(c, k, interp.eval_in_module(c.mod, v)) for k, v in out]
        return self._enum[c.name]

    def method(self, c, name):
        if c.node is None:
            return None
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return n, c, [self.deco_name(d) for d in n.decorator_list]
        for b in self.bases(c):
            if b.node is not None:
                r = self.method(b, name)
                if r:
                    return r
        return None

    def class_attr(self, c, name):
        if c.node is None:
            return None
        for n in c.node.body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == name:
                return n.value
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                return n.value
        for b in self.bases(c):
            r = self.class_attr(b, name)
            if r is not None:
                return r
        return None

    def fields(self, c):
        """declared field types: dataclass annotations, NamedTuple annotations, or annotated self.x in __init__"""
        if c.node is None:
            return None
        if c.name in self._fields:
            return self._fields[c.name]
        out = {}
        for b in self.bases(c):
            if b.node is not None:
                out.update(self.fields(b) or {})
        if self.is_dataclass(c) or self.namedtuple_fields(c):
            for n in c.node.body:
                if isinstance(n, ast.AnnAssign):
                    out[n.target.id] = self.parse_ty(n.annotation)
        else:
            for m in c.node.body:
                if not isinstance(m, ast.FunctionDef):
                    continue
                ann = {a.arg: a.annotation for a in m.args.args + m.args.kwonlyargs}
                for n in ast.walk(m):
                    if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(n.target.value, ast.Name) and n.target.value.id == "self":
                        t = self.parse_ty(n.annotation)
                        if t.n == "dict" and isinstance(n.value, ast.Call) and self.deco_name(n.value.func) == "defaultdict":
                            t = Ty("defaultdict", t.a)
                        out[n.target.attr] = t
                    elif isinstance(n, ast.Assign):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" and t.attr not in out:
                                if isinstance(n.value, ast.Name) and ann.get(n.value.id) is not None and m.name == "__init__":
                                    out[t.attr] = self.parse_ty(ann[n.value.id])
        for k, v in self.field_override.get(c.name, {}).items():
            out[k] = v
        self._fields[c.name] = out
        return out

    def field_defaults(self, c):
        out = {}
        for b in self.bases(c):
            if b.node is not None:
                out.update(self.field_defaults(b))
        for n in c.node.body:
            if isinstance(n, ast.AnnAssign) and n.value is not None:
                v = n.value
                if isinstance(v, ast.Call) and self.deco_name(v.func) == "field":
                    for k in v.keywords:
                        if k.arg == "default":
                            out[n.target.id] = k.value
                        elif k.arg == "default_factory":
                            out[n.target.id] = ("factory", k.value)
                else:
                    out[n.target.id] = v
        return out

    # ---- exceptions
    def exc_base(self, c):
        if c.node is None:
            return c.name if c.name in BUILTIN_EXC else None
        for b in self.bases(c):
            if b.node is None:
                if b.name in BUILTIN_EXC:
                    return b.name
            elif self.exc_base(b):
                return b.name
        return None

    def exc_issub(self, name, sup):
        """True / False / None (unknown)"""
        if name == "AnyException":
            if sup in ("Exception", "BaseException"):
                return True
            return None
        seen = 0
        n = name
        while n is not None and seen < 20:
            if n == sup:
                return True
            seen += 1
            if n in BUILTIN_EXC:
                n = BUILTIN_EXC[n]
                continue
            c = self.class_by_name(n)
            n = self.exc_base(c) if c else None
        return False

    # ---- functions
    def function(self, qual):
        """'module:Class.name' or 'module:name' -> Fn or None"""
        mn, q = qual.split(":")
        m = self.module(mn)
        if m is None:
            return None
        if ".<locals>." in q:
            out, name = q.split(".<locals>.")
            o = self.function(f"{mn}:{out}")
            if o is None:
                return None
            for n in ast.walk(o.node):
                if isinstance(n, ast.FunctionDef) and n.name == name and n is not o.node:
                    f = Fn(n, o.mod, name)
                    f.outer = o
                    return f
            return None
        parts = q.split(".")
        d = m.defs.get(parts[0])
        if d is None:
            return None
        if len(parts) == 1:
            return Fn(d[1], m, parts[0]) if d[0] == "fn" else None
        if d[0] != "cls":
            return None
        c = Cls(parts[0], m, d[1])
        r = self.method(c, parts[1])
        if r is None:
            return None
        node, owner, deco = r
        f = Fn(node, owner.mod, node.name, cls=owner)
        f.deco = deco
        f.owner = c
        return f

    def is_generator(self, node):
        if getattr(node, "_isgen", None) is None:
            g = False
            stack = list(node.body)
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    g = True
                    break
                stack.extend(ast.iter_child_nodes(n))
            node._isgen = g
        return node._isgen

    # ---- types
    def parse_ty(self, n):
        if n is None:
            return ANY
        if isinstance(n, str):
            n = ast.parse(n, mode="eval").body
        if isinstance(n, ast.Constant):
            if n.value is None:
                return TNONE
            if isinstance(n.value, str):
                return self.parse_ty(n.value)
            return ANY
        if isinstance(n, ast.Name):
            return {"str": STR, "int": TINT, "bool": TBOOL, "Path": PATH, "None": TNONE, "Any": ANY, "list": Ty("list", (ANY,)),
                    "dict": Ty("dict", (ANY, ANY)), "set": Ty("set", (ANY,)), "object": ANY}.get(n.id, Ty(n.id))
        if isinstance(n, ast.Attribute):
            return self.parse_ty(ast.Name(n.attr))
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return union(self.parse_ty(n.left), self.parse_ty(n.right))
        if isinstance(n, ast.Subscript):
            b = self.parse_ty(n.value)
            sl = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if b.n == "Optional":
                return union(self.parse_ty(sl[0]), TNONE)
            if b.n == "Literal":
                return STR
            if b.n in ("Iterable", "Iterator", "Sequence", "Generator", "Collection"):
                return Ty("list", (self.parse_ty(sl[0]),))
            if b.n in ("Mapping", "MutableMapping"):
                return Ty("dict", tuple(map(self.parse_ty, sl)))
            if b.n == "tuple":
                if len(sl) == 2 and isinstance(sl[1], ast.Constant) and sl[1].value is Ellipsis:
                    return Ty("tuple*", (self.parse_ty(sl[0]),))
                return Ty("tuple", tuple(map(self.parse_ty, sl)))
            if b.n in ("list", "set", "frozenset", "dict", "defaultdict", "type"):
                return Ty(b.n, tuple(map(self.parse_ty, sl)))
            return Ty(b.n)
        return ANY
