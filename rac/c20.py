"""SBOM of grafted libraries, with whichprovides replaced by a table"""
import copy, json, pathlib
from urllib.parse import quote
from rac.base import SKIP, patched
from rac import rep, world as W
RULE = "random wheel names (also unparsable), lists of grafted files and tables of providing packages (several files of one package, none, odd characters); one case in a hundred repairs a synthetic wheel and reads the SBOM it holds"


def cases(rng, tier):
    paths = ["/usr/lib/libA.so.1", "/usr/lib64/libB-2.so", "/opt/x y/libC.so", "/usr/lib/\u00fcber.so", "/lib/libD.so.6", "/usr/local/lib/libA.so.1"]
    pk = [["deb", "liba", "1.0-2", "debian"], ["rpm", "b+c", "2:3.4%5", None], ["apk", "d", "0", "alpine"], ["deb", "liba", "1.1", "debian"]]
    names = ["pkg-1.0-cp39-cp39-linux_x86_64.whl", "my_pkg-2!1.0+l.1-cp39-abi3-manylinux_2_17_x86_64.manylinux2014_x86_64.whl", "a.b-0.0.1-1-py3-none-any.whl", "bad.whl", "pkg-x-py3-none-any.whl", "p\u00e9-1-py3-none-any.whl"]
    while True:
        if rng.random() < 0.01:
            yield dict(kind="repair", case=rep.rand_case(rng, libpython=0.05, script=0.05, have=1.0, missing=0.0,
                                                         knobs=dict(hard=0.0, fpe=0.0, ucs=0.0, isa=0.0, black=0.0, noversion=0.9)))
        fs = [rng.choice(paths) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
        yield dict(name=rng.choice(names), files=fs, prov={p: rng.choice(pk) for p in paths if rng.random() < 0.6}, none=rng.random() < 0.1)


def check_repair(case, tmp):
    """the SBOM inside a repaired wheel"""
    import zipfile
    from auditwheel import sboms as S
    from auditwheel._vendor.whichprovides import ProvidedBy
    if not hasattr(S, "whichprovides"):
        return SKIP
    seen = []

    def which(fp):
        fp = [fp] if isinstance(fp, str) else list(fp)
        seen.extend(fp)
        return {p: ProvidedBy("deb", "p-" + pathlib.Path(p).name, "1", distro="debian") for p in dict.fromkeys(fp)}
    with patched(S, whichprovides=which):
        r = rep.run(case, tmp)
    if r is SKIP or r.expect or r.too_high or r.missing or r.error is not None or len(r.wheels) != 1:
        return SKIP
    src = {p for libs in r.files.values() for k, p in libs.items() if p is not None and not W.LIBPY.fullmatch(k)}
    with zipfile.ZipFile(r.wheels[0]) as z:
        at = [n for n in z.namelist() if n.endswith(".dist-info/sboms/auditwheel.cdx.json")]
        boms = [json.loads(z.read(n)) for n in at]
    if not src:
        return f"an SBOM in a wheel without grafted libraries: {at}" if at else None
    if not seen:
        return SKIP
    if len(boms) != 1:
        return f"{len(boms)} SBOMs in a wheel with grafted libraries"
    c = boms[0]["components"]
    name, ver = r.wheels[0].name.split("-")[:2]
    purl = f"pkg:pypi/{quote(name, safe='')}@{quote(ver, safe='')}?file_name={quote(r.wheels[0].name, safe='')}"
    if c[0]["purl"] != purl or boms[0]["metadata"]["component"] != c[0]:
        return f"the SBOM describes {c[0]['purl']}, the repaired wheel is {purl}"
    want = sorted("p-" + p.rsplit("/", 1)[-1] for p in map(str, src))
    got = sorted(x["name"] for x in c[1:])
    if got != want:
        return f"components {got}, grafted {want}"
    return None


def check(case, tmp):
    if case.get("kind") == "repair":
        return check_repair(case["case"], tmp)
    from auditwheel import sboms as S
    from auditwheel._vendor.whichprovides import ProvidedBy
    import re
    seen = []

    def which(fp):
        fp = [fp] if isinstance(fp, str) else list(fp)
        seen.append(fp)
        return {} if case["none"] else {p: ProvidedBy(*case["prov"][p][:3], **({"distro": case["prov"][p][3]} if case["prov"][p][3] else {})) for p in dict.fromkeys(fp) if p in case["prov"]}
    if not hasattr(S, "whichprovides"):
        return SKIP
    err = res = None
    with patched(S, whichprovides=which):
        try:
            res = S.create_sbom_for_wheel(case["name"], [pathlib.Path(f) for f in case["files"]])
        except Exception as e:  # noqa: BLE001
            err = e
    if not case["files"]:
        return None if err is None and res is None else f"without grafted files: {err or res}"
    m = re.match(r"^((.+?)-(\d[^-]*))(-\d[^-]*)?-([a-z][^-]*)-([^-]+)-([^-]+)\.whl$", case["name"])
    if not m:
        return None if isinstance(err, ValueError) else f"unparsable wheel name gives {err or res}"
    if err:
        return f"{type(err).__name__}: {err}"
    known = {} if case["none"] else {f: case["prov"][f] for f in dict.fromkeys(case["files"]) if f in case["prov"]}
    if not known:
        return None if res is None else "an SBOM without identified packages"
    if res is None:
        return f"no SBOM although {sorted(known)} are identified"
    json.dumps(res)
    name, ver = m.group(2), m.group(3)
    purl = f"pkg:pypi/{quote(name, safe='')}@{quote(ver, safe='')}?file_name={quote(case['name'], safe='')}"
    c = res["components"]
    if res["metadata"]["component"] != c[0] or (c[0]["name"], c[0]["version"], c[0]["purl"]) != (name, ver, purl):
        return f"first component / metadata {c[0]}, expected {name} {ver} {purl}"
    want = sorted((n, v, ProvidedBy(t, n, v, **({"distro": d} if d else {})).purl) for t, n, v, d in known.values())
    got = sorted((x["name"], x["version"], x["purl"]) for x in c[1:])
    if got != want:
        return f"components {got}, expected {want}"
    refs = [x["bom-ref"] for x in c]
    if len(set(refs)) != len(refs):
        return f"component references are not unique: {refs}"
    deps = res["dependencies"]
    if sorted(d["ref"] for d in deps) != sorted(refs):
        return f"dependency entries {[d['ref'] for d in deps]}, components {refs}"
    top = [d for d in deps if d["ref"] == refs[0]][0]
    if sorted(top["dependsOn"]) != sorted(refs[1:]):
        return f"edges from the wheel {top['dependsOn']}, components {refs[1:]}"
    if any(d.get("dependsOn") for d in deps if d is not top):
        return "edges from a library"
    return None
