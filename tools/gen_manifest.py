import json, pathlib
V = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in open(V / "properties.jsonl")]
TECH = "contract-based deductive verification: obligations generated from /repo's source by an AST symbolic executor and discharged by z3; run-time evaluation of the same contracts as bounded stand-in for functions out of the verifier's reach"
checks = []
for p in props:
    checks.append({"property": p["id"], "quick_cmd": f"python3 run.py {p['id']} --tier quick", "thorough_cmd": f"python3 run.py {p['id']} --tier thorough", "technique": TECH, "level": "proof",
                   "level_note": "see DESIGN.md section " + p["id"]})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "hooks": {"guard": "none", "enable": "no hooks: the contracts are sidecar contracts in /verif/engine/contracts, applied to the source as it stands in /repo; /repo only has fix commits"}, "checks": checks, "not_applicable": []}
json.dump(m, open(V / "MANIFEST.json", "w"), indent=1)
