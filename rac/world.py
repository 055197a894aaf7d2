"""Synthetic wheels: a JSON-serialisable specification of a wheel and of the libraries around it, a builder that writes real files, a
random generator, and an independent oracle that computes from the specification what auditwheel's documented rules demand."""
from __future__ import annotations
import base64, functools, hashlib, json, os, pathlib, re, zipfile
from fnmatch import fnmatch
from rac.elfgen import elf

REPO = pathlib.Path(os.environ.get("VERIF_REPO", "/repo"))
SKIPCASE = object()


class Ambiguous(Exception):
    """the specification has a shape the oracle does not judge"""


class Expect(Exception):
    """the analysis must end with this error"""


# ---------------------------------------------------------------- building
def elf_bytes(spec, sub):
    s = {k: v for k, v in spec.items() if k not in ("links",)}
    for k in ("rpath", "runpath", "interp"):
        if s.get(k) is not None:
            s[k] = sub(s[k])
    s["symbols"] = [tuple(x) for x in s.get("symbols", [])]
    s["verneed"] = [(a, list(b)) for a, b in s.get("verneed", [])]
    if "payload" in s:
        s["payload"] = s["payload"].encode()
    return elf(**s)


def wheel_name(w):
    return f"{w.get('name', 'pkg')}-1.0-{w.get('py', 'cp39-cp39')}-{w['plat']}.whl"


def ext_root(tmp):
    return tmp / "ext"


def build(w, tmp):
    """write ext dirs and the wheel; returns (wheel path, ldpaths string)"""
    tmp = pathlib.Path(os.path.realpath(tmp))
    ext = ext_root(tmp)
    sub = lambda s: s.replace("{EXT}", str(ext))
    ext.mkdir(exist_ok=True)
    for d in w.get("dirs", []):
        (ext / d).mkdir(parents=True, exist_ok=True)
    for f in w.get("ext", []):
        p = ext / f["path"]
        p.parent.mkdir(parents=True, exist_ok=True)
        if "link" in f:
            os.symlink(f["link"], p)
        elif "elf" in f:
            p.write_bytes(elf_bytes(f["elf"], sub))
        else:
            p.write_text(f["text"])
        if "mode" in f and "link" not in f:
            p.chmod(f["mode"])
    di = f"{w.get('name', 'pkg')}-1.0.dist-info"
    ents = [(f["path"], elf_bytes(f["elf"], sub) if "elf" in f else f.get("text", "").encode(), f.get("mode", 0o644)) for f in w["files"]]
    tags = w.get("tags") or [f"{w.get('py', 'cp39-cp39')}-{p}" for p in w["plat"].split(".")]
    ents.append((f"{di}/METADATA", f"Metadata-Version: 2.1\nName: {w.get('name', 'pkg')}\nVersion: 1.0\n".encode(), 0o644))
    ents.append((f"{di}/WHEEL", ("Wheel-Version: 1.0\nGenerator: t\nRoot-Is-Purelib: " + w.get("purelib", "false") + "\n" + "".join(f"Tag: {t}\n" for t in tags)).encode(), 0o644))
    rec = "".join(f"{p},sha256={base64.urlsafe_b64encode(hashlib.sha256(b).digest()).rstrip(b'=').decode()},{len(b)}\n" for p, b, _ in ents) + f"{di}/RECORD,,\n"
    ents.append((f"{di}/RECORD", rec.encode(), 0o644))
    whl = tmp / "in" / wheel_name(w)
    whl.parent.mkdir(exist_ok=True)
    with zipfile.ZipFile(whl, "w", zipfile.ZIP_DEFLATED) as z:
        for p, b, m in ents:
            zi = zipfile.ZipInfo(p, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = (0o100000 | m) << 16
            zi.compress_type = zipfile.ZIP_DEFLATED
            z.writestr(zi, b)
    return whl, ":".join(str(ext / d) for d in w.get("ld", []))


# ---------------------------------------------------------------- catalogue (read from the policy files, not from the code)
BASE = {"x86_64_v2": "x86_64", "x86_64_v3": "x86_64", "x86_64_v4": "x86_64", "arm64_v8a": "aarch64"}
MUSLSO = {"x86_64": "x86_64", "i686": "x86", "aarch64": "aarch64", "s390x": "s390x", "ppc64le": "ppc64le", "armv7l": "armv7", "riscv64": "riscv64",
          "loongarch64": "loongarch64"}


class Pol:
    def __init__(self, name, aliases, prio, syms, wl, bl):
        self.name, self.aliases, self.prio, self.syms, self.wl, self.bl = name, aliases, prio, syms, wl, bl

    def __repr__(self):
        return self.name


@functools.lru_cache(None)
def catalogue(libc, arch):
    fn = {"glibc": "manylinux", "musl": "musllinux", "android": "android"}[libc]
    raw = json.loads((REPO / "src/auditwheel/policy" / f"{fn}-policy.json").read_text())
    base = BASE.get(arch, arch)
    res = []
    for p in raw:
        if p["name"] != "linux" and base not in p["symbol_versions"]:
            continue
        wl = set(p["lib_whitelist"])
        if libc == "musl" and "libc.so" in wl:
            wl.remove("libc.so")
            wl.add(f"libc.musl-{MUSLSO[base]}.so.1")
        syms = {} if p["name"] == "linux" else {k: frozenset(f"{k}_{x}" for x in v) for k, v in p["symbol_versions"][base].items()}
        res.append(Pol(f"{p['name']}_{base}", tuple(f"{a}_{base}" for a in p["aliases"]), p["priority"], syms, frozenset(wl),
                       {k: frozenset(v) for k, v in p["blacklist"].items()}))
    res.sort(key=lambda p: p.prio)
    if libc == "musl":
        res = res[:2]
    return res


def satisfied(pol, versions):
    for v in versions:
        ns = v.split("_", 1)[0]
        if ns in pol.syms and v not in pol.syms[ns]:
            return False
    return True


def best(cat, vs):
    allv = {v for s in vs.values() for v in s}
    return max((p for p in cat if satisfied(p, allv)), key=lambda p: p.prio)


# ---------------------------------------------------------------- oracle
LIBPY = re.compile(r"libpython\d+\.\d+m?.so(\.\d)*")
LOADER = lambda n: "ld-linux" in n or n in ("ld64.so.2", "ld64.so.1")
OSABI_COMPAT = {0, 3}       # NONE / GNU
ISA = {8: "x86_64_v4", 4: "x86_64_v3", 2: "x86_64_v2"}
LEVEL = {"x86_64": 0, "x86_64_v2": 1, "x86_64_v3": 2, "x86_64_v4": 3}


class Lib:
    def __init__(self, soname, path, real, node=None, needed=()):
        self.soname, self.path, self.real, self.node, self.needed = soname, path, real, node, tuple(needed)

    def key(self):
        return (self.soname, self.path, self.real, self.needed)


class Tree:
    pass


def arch_of(spec):
    """(baseline, extension, error)"""
    a = spec.get("arch", "x86_64")
    if a in ("sparc", "mips"):
        return None, None, "unknown"
    if a == "armv7l":
        fl = spec.get("flags", 0x05000400)
        if fl is not None and ((fl & 0xFF000000) != 0x05000000 or not fl & 0x400):
            return None, None, "arm"
    ext = None
    if a == "x86_64" and spec.get("isa") is not None:
        if spec.get("sections") is False:
            return a, None, None
        v = spec["isa"] if isinstance(spec["isa"], (list, tuple)) else [spec["isa"]]
        if len(v) > 1:
            raise Ambiguous
        v = v[0]
        for b in (8, 4, 2):
            if v & b:
                return a, ISA[b], None
        if v & ~1:
            return a, None, "isa"
    return a, ext, None


class Oracle:
    """what auditwheel must find for world w; /W stands for the unpacked wheel"""

    def __init__(self, w, ext):
        self.w, self.ext = w, str(ext)
        self.fs = {}
        for f in w["files"]:
            self.fs["/W/" + f["path"]] = f
        for f in w.get("ext", []):
            self.fs[f"{self.ext}/{f['path']}"] = f
        self.dirset = {os.path.dirname(p) for p in self.fs} | {f"{self.ext}/{d}" for d in w.get("dirs", [])}
        for d in list(self.dirset):
            while d not in ("/", ""):
                self.dirset.add(d)
                d = os.path.dirname(d)

    def real(self, p):
        for _ in range(20):
            f = self.fs.get(p)
            if f is None or "link" not in f:
                return p
            p = os.path.normpath(os.path.join(os.path.dirname(p), f["link"]))
        raise Ambiguous

    def elfs(self):
        for f in self.w["files"]:
            if "elf" in f and not os.path.basename(f["path"]).endswith(".py"):
                yield f["path"], f["elf"]

    def dirs(self, s, origin):
        out = []
        if not s:
            return out
        for e in s.split(":"):
            if e == "":
                e = "/W"
            e = e.replace("{EXT}", self.ext)
            e2 = e.replace("${ORIGIN}", origin).replace("$ORIGIN", origin)
            if "$" in e2:
                raise Ambiguous
            if not e2.startswith("/"):
                e2 = "/" + e2           # ld paths are taken below root
            e2 = os.path.normpath(e2).replace("//", "/")
            if e2 not in out and e2 in self.dirset:
                out.append(e2)
        return out

    def compatible(self, a, b):
        x, y = a.get("arch", "x86_64"), b.get("arch", "x86_64")
        ca, cb = a.get("osabi", 0), b.get("osabi", 0)
        if x != y:
            return False
        return ca == cb or {ca, cb} <= OSABI_COMPAT

    def find(self, req, name, dirs):
        for d in dirs:
            p = os.path.join(d, name)
            r = self.real(p)
            f = self.fs.get(r)
            if f is None:
                if r in self.dirset:
                    raise Ambiguous
                continue
            if "elf" not in f:
                continue
            if self.compatible(req, f["elf"]):
                return p, r
        return None, None

    def tree(self, fn, exclude=()):
        spec = self.fs["/W/" + fn]["elf"]
        t = Tree()
        t.fn, t.spec, t.libs, t.libc = fn, spec, {}, None
        conf = [f"{self.ext}/{d}" for d in self.w.get("ld", [])]
        conf = [d for k, d in enumerate(conf) if d in self.dirset and d not in conf[:k]]
        interp = []
        env = self.dirs(":".join("{EXT}/" + d for d in self.w.get("env", [])), "")
        base = f"/W/{fn}"
        if spec.get("interp"):
            ip = spec["interp"].replace("{EXT}", self.ext)
            b = os.path.basename(ip)
            t.interp = ip
            t.libs[b] = Lib(b, ip, self.real(ip), spec)
            t.libc = "musl" if b.startswith("ld-musl-") else "glibc"
            interp = [os.path.dirname(ip), "/usr" + os.path.dirname(ip)]
        for n in spec.get("needed", ()):
            want = "musl" if n.startswith(("libc.musl-", "ld-musl-")) else "glibc" if n == "libc.so.6" or n.startswith(("ld-linux-", "ld64.so.")) else None
            if want:
                if t.libc is None:
                    t.libc = want
                if t.libc != want:
                    raise Expect("InvalidLibcError")
        if t.libc is None:
            nm = os.path.basename(fn)
            if nm.endswith(("-arm-linux-musleabihf.so", "-linux-musl.so")):
                t.libc = "musl"
            elif nm.endswith(("-arm-linux-gnueabihf.so", "-linux-gnu.so")):
                so = nm[:-3].split(".")[-1].split("-")
                if so[0] == "cpython" and re.match(r"3(1[1-9]|[2-9]\d)", so[1]):
                    t.libc = "glibc"

        def paths(s, at):
            org = os.path.dirname(at)
            run = self.dirs(s.get("runpath"), org)
            rp = [] if run else self.dirs(s.get("rpath"), org)
            return rp, run
        frp, frun = paths(spec, base)

        def visit(s, at):
            rp, run = paths(s, at)
            alld = frp + rp + run + env + frun + conf + interp
            gone = set()
            for n in s.get("needed", ()):
                if n in t.libs or n in gone:
                    continue
                if any(fnmatch(n, e) for e in exclude):
                    gone.add(n)
                    continue
                if LIBPY.fullmatch(n):
                    t.libs[n] = Lib(n, None, None)
                    continue
                p, r = self.find(s, n, alld)
                if r is not None and any(fnmatch(r, e) for e in exclude):
                    if r.startswith("/W/"):
                        raise Ambiguous
                    gone.add(n)
                    continue
                t.libs[n] = Lib(n, p, r)
                if r is None:
                    continue
                nd = visit(self.fs[r]["elf"], r)
                t.libs[n] = Lib(n, p, r, self.fs[r]["elf"], nd)
            return [n for n in s.get("needed", ()) if n not in gone]
        t.rpath, t.runpath = frp, frun
        t.needed = visit(spec, base)
        return t

    def undefined(self, spec):
        if spec.get("sections") is False:
            return set()
        return {""} | {n for n, b, _, d in spec.get("symbols", []) if not d and b != "weak"}

    def versions(self, spec):
        res = {}
        if spec.get("sections") is False:
            return res
        for lib, vs in spec.get("verneed", []):
            if lib.startswith("ld-linux") or lib in ("ld64.so.1", "ld64.so.2"):
                continue
            for v in vs:
                res.setdefault(lib, set()).add(v)
        return res

    def extension(self, fn, spec):
        mod = os.path.basename(fn).split(".", 1)[0]
        if spec.get("sections") is False:
            return None
        for n, _, ty, d in spec.get("symbols", []):
            if d and ty == "func":
                if n == "PyInit_" + mod:
                    return 3
                if n in ("init" + mod, "_cffi_pypyinit_" + mod):
                    return 2
        return None

    def refs(self, t, cat, libc):
        """policy name -> (libs {soname: real}, blacklist)"""
        out = {}
        for p in cat:
            libs, bl = {}, {}
            if p is not cat[0]:
                ok = lambda n: not (LOADER(n) or (libc == "android" and LIBPY.fullmatch(n)) or n in p.wl)
                todo, seen = [n for n in t.needed if ok(n)], set()
                while todo:
                    n = todo.pop()
                    if n in seen:
                        continue
                    seen.add(n)
                    todo += [d for d in t.libs[n].needed if ok(d)]
                for n in seen:
                    r = t.libs[n].real
                    if r is None or not r.startswith("/W/"):
                        libs[n] = r
                und = self.undefined(t.spec) | {"*"}
                for k in p.bl:
                    if k in t.needed and p.bl[k] & und:
                        bl[k] = sorted(p.bl[k] & und)
            out[p.name] = (libs, bl)
        return out

    def elfdata(self, libc, arch, exclude=()):
        """C23: raises Expect(error class name)"""
        files = list(self.elfs())
        if any("purelib" in fn.split("/")[:-1] for fn, _ in files):
            # the error is raised after the loop; another error may come first
            seen = []
            for fn, s in files:
                if "purelib" in fn.split("/")[:-1]:
                    break
                seen.append((fn, s))
            self._scan(seen, libc, arch, exclude)
            raise Expect("RuntimeError")
        return self._scan(files, libc, arch, exclude, True)

    def _scan(self, files, libc, arch, exclude, final=False):
        D = Tree()
        D.vs, D.ucs2, D.pyfpe, D.full, D.nonpy, D.refs, D.ignored = {}, False, False, {}, {}, {}, []
        invalid, cat, any_ = [], None, False
        for fn, s in files:
            t = self.tree(fn, exclude)
            a, ext, err = arch_of(s)
            if a is None:
                invalid.append(fn)
                continue
            if arch is None:
                arch = a
            elif a != BASE.get(arch, arch):
                invalid.append(fn)
                continue
            if t.libc is not None:
                if libc is None:
                    libc = t.libc
                elif libc != t.libc:
                    D.ignored.append(fn)
                    continue
            if cat is None and libc is not None:
                if BASE.get(arch, arch) == "ppc64" or libc == "android":
                    raise Ambiguous
                cat = catalogue(libc, arch)
            any_ = True
            for k, v in self.versions(s).items():
                D.vs.setdefault(k, set()).update(v)
            py = self.extension(fn, s)
            if py:
                if cat is None:
                    raise Expect("InvalidLibcError")
                D.full[fn] = t
                if s.get("sections") is not False:
                    D.pyfpe |= any(n in ("PyFPE_jbuf", "PyFPE_dummy", "PyFPE_counter") and not d and ty in ("func", "notype") for n, _, ty, d in s.get("symbols", []))
                    D.ucs2 |= py == 2 and any("PyUnicodeUCS2_" in n and not d and ty == "func" for n, _, ty, d in s.get("symbols", []))
                D.refs[fn] = self.refs(t, cat, libc)
            else:
                D.nonpy[fn] = t
        if not final:
            return None
        if not any_:
            raise Expect("NonPlatformWheelError")
        self.fixup(D.full, D.nonpy)
        needed = {n for t in [*D.full.values(), *D.nonpy.values()] for n in t.needed}
        if cat is None:
            libc = "glibc"
            cat = catalogue(libc, arch)
        for fn, t in D.nonpy.items():
            if os.path.basename(fn) not in needed:
                D.full[fn] = t
            D.refs[fn] = self.refs(t, cat, libc)
        D.cat, D.libc, D.arch = cat, libc, arch
        return D

    def fixup(self, full, nonpy):
        done = [t for t in [*full.values(), *nonpy.values()] if all(x.real is not None for x in t.libs.values())]
        new = {}
        for fn, t in nonpy.items():
            if all(x.real is not None for x in t.libs.values()):
                continue
            opts = [self.complete(t, c) for c in done if any(x.real == "/W/" + fn for x in c.libs.values())]
            if not opts:
                continue
            if any({k: v.key() for k, v in o.items()} != {k: v.key() for k, v in opts[0].items()} for o in opts):
                raise Ambiguous
            new[fn] = opts[0]
        for fn, libs in new.items():
            nonpy[fn].libs = libs

    def complete(self, t, ref):
        libs = dict(t.libs)
        todo = []
        for n, x in t.libs.items():
            if x.real is None and n in ref.libs:
                libs[n] = ref.libs[n]
                todo += ref.libs[n].needed
        while todo:
            n = todo.pop()
            if n not in libs and n in ref.libs:
                libs[n] = ref.libs[n]
                todo += ref.libs[n].needed
        return libs

    def isa_over(self, spec, arch):
        _, ext, err = arch_of(spec)
        if err:
            raise Ambiguous
        return ext is not None and LEVEL[ext] > LEVEL.get(arch, 0)

    def verdicts(self, D, disable_isa, allow_graft, req):
        V = Tree()
        cat = D.cat
        linux, high = cat[0], cat[-1]
        merged = {p.name: ({}, {}) for p in cat}
        for fn in D.full:
            for p in cat:
                libs, bl = D.refs[fn][p.name]
                ml, mb = merged[p.name]
                for k, v in libs.items():
                    if k in ml and ml[k] != v:
                        raise Ambiguous
                    ml[k] = v
                for k, v in bl.items():
                    mb[k] = sorted(set(mb.get(k, [])) | set(v))
        V.merged = merged
        V.per = {}
        combos = {}
        for p in cat[1:]:
            vs = {k: set(v) for k, v in D.vs.items()}
            for n, r in merged[p.name][0].items():
                if r is not None:
                    for k, v in self.versions(self.fs[r]["elf"]).items():
                        vs.setdefault(k, set()).update(v)
            combos[p.name] = vs
            b = best(cat, vs)
            V.per[p.name] = b if b.prio < p.prio else p
        if cat[1:]:
            V.sym = max(V.per.values(), key=lambda p: p.prio)
            V.vs = [combos[q] for q in combos if V.per[q] is V.sym]
        else:
            V.sym, V.vs = best(cat, D.vs), [D.vs]
        V.ref = max((p for p in cat if not merged[p.name][0]), key=lambda p: p.prio, default=linux)
        V.black = max((p for p in cat if not merged[p.name][1]), key=lambda p: p.prio, default=linux)
        cnt = {p.name: len(merged[p.name][0]) for p in cat}
        if req in (None, "auto"):
            g = min((cnt[p.name] for p in cat[1:]), default=0)
        else:
            hit = [p for p in cat if p.name == f"{req}_{BASE.get(D.arch, D.arch)}" or f"{req}_{BASE.get(D.arch, D.arch)}" in p.aliases]
            if not hit:
                raise Ambiguous
            g = cnt[hit[0].name]
        V.graft = max((p for p in cat if cnt[p.name] <= g), key=lambda p: p.prio)
        V.machine = high
        if not disable_isa:
            ext_names = {n for p in cat[1:] for n, r in merged[p.name][0].items() if r is not None}
            for fn, t in D.full.items():
                if self.isa_over(t.spec, D.arch):
                    V.machine = linux
                for x in t.libs.values():
                    if x.soname in ext_names and x.real is not None and x.node is not None:
                        if self.isa_over(x.node, D.arch):
                            wl = [p for p in cat if x.soname in p.wl]
                            lim = max(wl, key=lambda p: p.prio) if wl else linux
                            if lim.prio < V.machine.prio:
                                V.machine = lim
        V.ucs = linux if D.ucs2 else high
        V.pyfpe = linux if D.pyfpe else high
        cand = [V.sym, V.ucs, V.pyfpe, V.black, V.machine]
        if req is not None:
            cand.append(V.graft)
        if not allow_graft:
            cand.append(V.ref)
        V.overall = min(cand, key=lambda p: p.prio)
        return V


# ---------------------------------------------------------------- generator
NAMES = ["libfoo.so.1", "libbar.so.2", "libbaz.so", "libqux-3.so.3.1", "liba.b.so.5"]
SYS = ["libz.so.1", "libexpat.so.1", "libm.so.6", "libgcc_s.so.1", "libstdc++.so.6", "libmvec.so.1", "libX11.so.6"]
EXTRA_SYMS = ["PyFPE_jbuf", "PyFPE_counter", "PyFPE_dummy", "PyUnicodeUCS2_AsUTF8String", "x_PyUnicodeUCS2_", "PyUnicodeUCS4_x", "free", "malloc", "PyFPE"]


@functools.lru_cache(None)
def version_pool(libc, arch):
    cat = catalogue(libc, arch)
    seen, order = set(), []
    for p in reversed(cat[1:]):
        for ns in sorted(p.syms):
            for v in sorted(p.syms[ns] - seen):
                order.append(v)
                seen.add(v)
    return order


@functools.lru_cache(None)
def black_pool(libc, arch):
    return sorted({(k, s) for p in catalogue(libc, arch) for k, v in p.bl.items() for s in v})


def pick_versions(rng, libc, arch, hard=0.25):
    pool = version_pool(libc, arch)
    if not pool:
        return []
    out = []
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        if rng.random() < hard:
            out.append(rng.choice(pool))
        else:
            out.append(rng.choice(pool[: max(1, len(pool) // 4)]))
    if rng.random() < 0.04:
        out.append(rng.choice(["GLIBC_2.99", "FOO_1.0", "GLIBC_PRIVATE", "OPENSSL_1_1_0"]))
    return sorted(set(out))


def rand_elf(rng, libc, arch, needs, *, root, fn, py=None, loc="w", knobs=None):
    k = dict(isa=0.05, black=0.15, ucs=0.05, fpe=0.05, runpath=0.15, hard=0.25, noversion=0.4)
    k.update(knobs or {})
    e = dict(arch=arch, needed=list(needs))
    if rng.random() < 0.9 and not any("libc" in n for n in needs) and rng.random() < k.get("libcp", 0.8):
        e["needed"].append("libc.so.6" if libc == "glibc" else f"libc.musl-{MUSLSO.get(arch, 'x86_64')}.so.1")
    if rng.random() > k["noversion"]:
        vs = pick_versions(rng, libc, arch, k["hard"])
        libs = [n for n in e["needed"] if not n.startswith("libpython")]
        if libs and vs:
            h = rng.randrange(len(vs) + 1)
            parts = [(rng.choice(libs), vs[:h]), (rng.choice(libs), vs[h:])]
            if rng.random() < 0.1:
                parts.append(("ld-linux-x86-64.so.2", ["GLIBC_2.99"]))
            e["verneed"] = [[a, b] for a, b in parts if b]
    syms = [["foo", "global", "func", False], ["opt", "weak", "notype", False], ["bar", "global", "func", True]]
    for p, names in ((k["ucs"], [n for n in EXTRA_SYMS if "UCS" in n]), (k["fpe"], [n for n in EXTRA_SYMS if "FPE" in n])):
        if rng.random() < p * 2:
            syms.append([rng.choice(names), rng.choice(["global", "global", "weak"]), rng.choice(["func", "func", "notype", "object"]), rng.random() < 0.25])
    bp = black_pool(libc, arch)
    if rng.random() < k["black"] and bp:
        for _ in range(rng.choice([1, 1, 2])):
            lib, s = rng.choice(bp)
            if s != "*":
                syms.append([s, rng.choice(["global", "global", "weak"]), "func", rng.random() < 0.2])
            if rng.random() < 0.8 and lib not in e["needed"]:
                e["needed"].append(lib)
    mod = os.path.basename(fn).split(".", 1)[0]
    if py == 3:
        syms.append([f"PyInit_{mod}", "global", "func", True])
    elif py == 2:
        syms.append([rng.choice([f"init{mod}", f"_cffi_pypyinit_{mod}"]), "global", "func", True])
    elif rng.random() < 0.15:
        syms.append(rng.choice([[f"PyInit_{mod}", "global", "object", True], [f"PyInit_{mod}", "global", "func", False], ["PyInit_other", "global", "func", True]]))
    rng.shuffle(syms)
    e["symbols"] = syms
    if arch == "x86_64" and rng.random() < k["isa"] * 2:
        e["isa"] = rng.choice([0, 1, 2, 3, 4, 7, 8, 15, 12])
    if root:
        e["runpath" if rng.random() < k["runpath"] else "rpath"] = root
        if rng.random() < 0.05:
            e["rpath"], e["runpath"] = root, rng.choice(["$ORIGIN", "{EXT}/d1", "/nonexistent", root])
    return e


def rand_world(rng, **kn):
    libc = kn.get("libc") or ("glibc" if rng.random() < 0.85 else "musl")
    arch = kn.get("arch") or rng.choice(["x86_64"] * 6 + ["aarch64", "i686", "armv7l", "s390x"])
    w = dict(name=rng.choice(["pkg", "pkg", "my_pkg2"]), plat=kn.get("plat") or ("linux_" + arch), arch=arch, libc=libc, files=[], ext=[], dirs=["d0", "d1"],
             ld=rng.choice([["d0"], ["d0", "d1"], ["d1", "d0"], ["d0", "d0", "nope"]]))
    other = "aarch64" if arch == "x86_64" else "x86_64"
    names = NAMES[: rng.choice([1, 2, 3, 5])]
    use_py = rng.random() < kn.get("libpython", 0.06)
    # external libraries
    for d in ("d0", "d1"):
        have = kn.get("have", 0.75)
        for n in names + (SYS if have > 0.9 else SYS[: rng.choice([0, 2, 7])]):
            if rng.random() > (have if d == w["ld"][0] else 0.3):
                continue
            needs = [m for m in names + SYS if m != n and rng.random() < 0.18]
            if rng.random() < 0.05:
                needs.append(n)
            if use_py and rng.random() < kn.get("libpython_ext", 0.0):
                needs.append("libpython3.9.so.1.0")
            sloppy = have <= 0.9 or rng.random() < 0.1
            a = other if sloppy and rng.random() < 0.06 else arch
            e = rand_elf(rng, libc, a, needs, root=rng.choice([None, None, "{EXT}/d1", "$ORIGIN", "${ORIGIN}/../d0"]), fn=n, loc="e", knobs=kn.get("knobs"))
            e["soname"] = n
            e["payload"] = f"{n}{d}"
            if sloppy and rng.random() < 0.03:
                w["ext"].append(dict(path=f"{d}/{n}", text="GROUP ( libfoo.so.1 )"))
                continue
            if sloppy and rng.random() < 0.04:
                e["osabi"] = rng.choice([3, 6, 9])
            r = rng.random()
            if r < 0.2:
                w["ext"] += [dict(path=f"{d}/{n}.9", elf=e), dict(path=f"{d}/{n}", link=f"{n}.9")]
            elif r < 0.3:
                w["dirs"].append("store")
                w["ext"] += [dict(path=f"store/{d}-{n}", elf=e), dict(path=f"{d}/{n}", link=f"../store/{d}-{n}")]
            else:
                w["ext"].append(dict(path=f"{d}/{n}", elf=e, mode=rng.choice([0o644, 0o755, 0o444, 0o555])))
    # bundled libraries
    nm = w["name"]
    bundled = []
    for n in rng.sample(["libin1.so", "libin2.so.1", "libin3.so", NAMES[0]], rng.choice([0, 0, 1, 2, 3])):
        d = rng.choice([f"{nm}.libs", f"{nm}", f"{nm}/sub"]) if have <= 0.9 or rng.random() < 0.15 else f"{nm}.libs"
        bundled.append((d, n))
    roots = ["$ORIGIN", f"$ORIGIN/../{nm}.libs", "$ORIGIN/sub", f"$ORIGIN:$ORIGIN/../{nm}.libs:{{EXT}}/d1", "{EXT}/d1", None, None, f"/nonexistent:$ORIGIN/../../{nm}.libs", f"${{ORIGIN}}/../{nm}.libs"]

    if have > 0.9:
        L = f"{nm}.libs"
        roots = [f"$ORIGIN:$ORIGIN/../{L}:$ORIGIN/../../{L}:$ORIGIN/{L}", f"$ORIGIN/../{L}:$ORIGIN/../../{L}:/nonexistent:$ORIGIN/{L}:{{EXT}}/d1:$ORIGIN",
                 f"${{ORIGIN}}/../{L}:$ORIGIN/../../{L}:$ORIGIN/{L}:$ORIGIN::$ORIGIN"]

    def needs_for(self_name):
        ns = [m for m in names if rng.random() < 0.45] + [m for m in SYS if rng.random() < 0.15] + [b for _, b in bundled if b != self_name and rng.random() < 0.5]
        if rng.random() < kn.get("missing", 0.08):
            ns.append("libmissing.so.7")
        if use_py and rng.random() < 0.6:
            ns.append(rng.choice(["libpython3.9.so.1.0", "libpython3.9m.so"]))
        if rng.random() < 0.1 and libc == "glibc":
            ns.append({"x86_64": "ld-linux-x86-64.so.2"}.get(arch, "ld-linux-aarch64.so.1"))
        return list(dict.fromkeys(ns))
    mk = lambda fn, py: dict(path=fn, elf=rand_elf(rng, libc, arch, needs_for(os.path.basename(fn)), root=rng.choice(roots), fn=fn, py=py, knobs=kn.get("knobs")), mode=rng.choice([0o644, 0o755]))
    for d, n in bundled:
        w["files"].append(mk(f"{d}/{n}", None))
    for i in range(rng.choice([0, 1, 1, 1, 2, 3])):
        py = 2 if rng.random() < 0.25 else 3
        suf = rng.choice([".so", ".cpython-39-x86_64-linux-gnu.so", ".abi3.so", ".cpython-312-x86_64-linux-gnu.so" if libc == "glibc" else ".so"])
        w["files"].append(mk(rng.choice([f"{nm}/_ext{i}{suf}", f"_ext{i}{suf}", f"{nm}/sub/_ext{i}{suf}"]), py))
    if rng.random() < kn.get("script", 0.12):
        w["files"].append(mk(f"{nm}-1.0.data/scripts/tool", None))
    if rng.random() < 0.07:
        e = rand_elf(rng, libc, other, ["libfoo.so.1"], root=None, fn="x", py=rng.choice([None, 3]), knobs=kn.get("knobs"))
        w["files"].append(dict(path=f"{nm}/other.so", elf=e))
    if rng.random() < 0.06:
        e = rand_elf(rng, "musl" if libc == "glibc" else "glibc", arch, ["libbar.so.2"], root=None, fn="oth", py=3, knobs=kn.get("knobs"))
        w["files"].append(dict(path=f"{nm}/oth.so", elf=e))
    if rng.random() < kn.get("pure", 0.04):
        w["files"].append(mk(f"{nm}-1.0.data/purelib/{nm}/p.so", 3))
    w["files"] += [dict(path=f"{nm}/__init__.py", text="x = 1\n"), dict(path=f"{nm}/data.bin", text="data")]
    if rng.random() < 0.1:
        w["files"].append(dict(path=f"{nm}/strange.py", elf=rand_elf(rng, libc, arch, ["libfoo.so.1"], root=None, fn="strange.py")))
    rng.shuffle(w["files"])
    return w
