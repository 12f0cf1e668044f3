#!/usr/bin/env python3
"""One check:  run.py PROPERTY [--tier quick|thorough]

1. engine  (python3-vt): generates the obligations of the property's contracts from /repo's current source and
   discharges them (z3).  Writes work/<id>.engine.json.
2. harness (/opt/venv/bin/python): evaluates the same contracts at run time on the real code: stand-in for what
   the engine cannot reach, search for / replay of failing inputs.  Writes work/<id>.harness.json.
Exit 0: nothing violated.  Exit 1 + VIOLATION line: violated.  Exit 3: the check itself could not run.
"""
import argparse, json, os, pathlib, subprocess, sys, time

V = pathlib.Path(__file__).resolve().parent
WORK = V / "work"
PY_REAL = "/opt/venv/bin/python"
PY_ENG = "python3-vt"


def sh(cmd, timeout, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", **(env or {}))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def known_lines(prop):
    out = []
    f = V / "known_findings.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        if line.startswith(f"known: property={prop} "):
            out.append(line[len(f"known: property={prop} "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    WORK.mkdir(exist_ok=True)
    (V / "evidence").mkdir(exist_ok=True)
    # ---- engine and harness side by side
    eng_out, har_out = WORK / f"{prop}.engine.json", WORK / f"{prop}.harness.json"
    for f in (eng_out, har_out):
        if f.exists():
            f.unlink()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    eng = None
    budget = 420 if tier == "quick" else 3000
    if (V / "engine" / "prove.py").exists():
        eng = subprocess.Popen([PY_ENG, str(V / "engine" / "prove.py"), prop, tier, str(eng_out)], stdout=open(WORK / f"{prop}.engine.log", "w"), stderr=subprocess.STDOUT, env=env, start_new_session=True)
    rc, log = sh([PY_REAL, str(V / "harness" / "main.py"), prop, tier, str(seed), str(har_out)], 700 if tier == "quick" else 7200)
    if rc != 0 or not har_out.exists():
        # the package does not even import, or the harness is broken
        rc2, log2 = sh([PY_REAL, "-c", "import sys; sys.path.insert(0, '/repo/src'); import meshio"], 60)
        if rc2 != 0:
            rp = WORK / f"replay-{prop}-import.txt"
            rp.write_text(log2)
            if eng:
                eng.kill()
            print(f"VIOLATION property={prop} replay={rp}")
            print(log2[-2000:])
            sys.exit(1)
        print(log[-4000:])
        print(f"harness failed with status {rc}")
        sys.exit(3)
    har = json.loads(har_out.read_text())
    E = {"obligations": [], "functions": [], "assumptions": [], "solver_s": 0.0, "queries": 0}
    if eng:
        try:
            eng.wait(max(5, budget - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            os.killpg(eng.pid, 9)
        if eng_out.exists():
            E = json.loads(eng_out.read_text())
        else:
            print((WORK / f"{prop}.engine.log").read_text()[-3000:])
            print("engine gave no result: every obligation is undecided, only the stand-in decides")
            E["obligations"] = [{"name": "engine", "status": "undecided", "detail": "the engine gave no result"}]
    obl = E["obligations"]
    refuted = [o for o in obl if o["status"] == "refuted"]
    # obligations that fail because of a listed finding (the frame obligations name the writer and the object)
    kno = [l.split(" ", 2)[2].strip() for l in (V / "known_findings.txt").read_text().splitlines() if l.startswith(f"known-obligation: property={prop} ")]
    fkeys = lambda o: (o.get("detail") or "").splitlines()[0][7:].split("; ") if (o.get("detail") or "").startswith("frame: ") else [o["name"]]
    known_obl = [o for o in refuted if all(k in kno for k in fkeys(o))]
    for k in sorted({k for o in known_obl for k in fkeys(o)}):
        print(f"KNOWN-FINDING: property={prop} frame obligation fails for {k}")
    refuted = [o for o in refuted if o not in known_obl]
    undecided = [o for o in obl if o["status"] == "undecided"]
    discharged = [o for o in obl if o["status"] == "discharged"]
    # ---- verdict
    kn = known_lines(prop)
    viol = []
    for text, n in har["known"].items():
        if any(k.startswith(text) or text.startswith(k) for k in kn):
            print(f"KNOWN-FINDING: property={prop} {text}")
        else:
            har["fails"].append({"family": "known", "case": None, "failures": [text]})
            har["nfails"] += 1
    if har["nfails"]:
        f = har["fails"][0]
        rp = WORK / f"replay-{prop}.json"
        rp.write_text(json.dumps({"property": prop, "family": f["family"], "case": f["case"], "failures": f["failures"],
                                  "failed_obligations": [{k: o.get(k) for k in ("name", "function", "detail")} for o in refuted],
                                  "replay_cmd": f"{PY_REAL} {V}/harness/main.py {prop} {tier} {seed} /dev/stdout {rp}", "others": har["fails"][1:20]}, indent=1))
        viol.append((str(rp), ""))
    elif refuted:
        o = refuted[0]
        rp = WORK / f"replay-{prop}-obligation.json"
        rp.write_text(json.dumps({"property": prop, "failed_obligations": refuted, "note": "the verifier refuted these obligations; no failing input was found on the real code"}, indent=1))
        confirmed = [o for o in refuted if o.get("replayed")]
        viol.append((str(rp), "" if confirmed else " no-failing-input-found"))
    ev = {
        "property": prop, "tier": tier, "seed": seed,
        "level": "proof" if any(not o.get("bounded") for o in discharged) else "exploration",
        "coverage": {
            "obligations": len(obl), "discharged": len(discharged), "discharged_without_bound": sum(1 for o in discharged if not o.get("bounded")), "undecided": [o["name"] for o in undecided], "refuted": [o["name"] for o in refuted], "refuted_by_known_finding": [o["name"] for o in known_obl],
            "bounded_obligations": {"count": sum(1 for o in obl if o.get("bounded")), "names": [o["name"] for o in obl if o.get("bounded")], "bound": sorted({o["bounded"] for o in obl if o.get("bounded")})},
            "obligation_names": [o["name"] for o in obl], "functions_under_contract": E["functions"], "backend": E.get("backend", "none"),
            "solver_s": round(E["solver_s"], 3), "solver_queries": E["queries"], "checker_cmd": f"{PY_ENG} {V}/engine/prove.py {prop} {tier} OUT.json",
            "trusted_base": E.get("trusted_base", []),
            "evaluations": har["evaluated"] + har["skipped"], "distinct_nontrivial": har["evaluated"],
            "rule": "bounded stand-in: the run-time contract evaluated on the real code over generated meshes / files / calls of the families listed; distinct by case description, non-trivial if inside the contract's precondition",
            "families": har["families"], "samples": har["samples"],
        },
        "assumptions": E["assumptions"] + ["functions not listed under functions_under_contract are covered only by the bounded stand-in"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    (V / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
    print(f"{prop}: obligations {len(obl)} discharged {len(discharged)} refuted {len(refuted)} undecided {len(undecided)}; stand-in cases {har['evaluated']} failing {har['nfails']}; {ev['wall_s']} s")
    for rp, suffix in viol:
        if har["nfails"]:
            print(json.dumps(har["fails"][0])[:1500])
        for o in refuted[:5]:
            print("refuted obligation:", o["name"], str(o.get("detail"))[:400])
        print(f"VIOLATION property={prop} replay={rp}{suffix}")
    sys.exit(1 if viol else 0)


if __name__ == "__main__":
    main()
