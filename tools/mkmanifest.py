import json, pathlib
V = pathlib.Path("/verif")
checks = json.loads((V / "checks.json").read_text())
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
na = json.loads((V / "not_applicable.json").read_text()) if (V / "not_applicable.json").exists() else {}
out = dict(version=1, setup_cmd="python3-vt tools/selftest.py --quick", checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        out["checks"].append(dict(property=i, quick_cmd=f"python3-vt check.py {i}", thorough_cmd=f"python3-vt check.py {i} --thorough",
                                  evidence_file=f"evidence/{i}.json", technique=c["technique"], level=c["level"], level_note=c["level_note"]))
    else:
        out["not_applicable"].append(dict(property=i, reason=na.get(i, "no check built yet")))
(V / "MANIFEST.json").write_text(json.dumps(out, indent=1) + "\n")
