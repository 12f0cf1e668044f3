"""prove.py PROPERTY TIER OUT.json : generate the obligations of a property's contracts from /repo/src and discharge them."""
import importlib, json, multiprocessing as mp, os, pathlib, sys, time, traceback
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
if os.environ.get("PYTHONHASHSEED") != "0" and __name__ == "__main__":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="0"))


def contracts(prop):
    try:
        m = importlib.import_module("engine.contracts." + prop.lower())
    except ModuleNotFoundError as e:
        if e.name != "engine.contracts." + prop.lower():
            raise
        return []
    return m.CONTRACTS


STRICT = os.environ.get("VP_STRICT", "C01 C02 C03 C04 C05 C06 C09 C16").split()


def one(args):
    prop, i, tier, verbose = args
    from engine import core, obl, interp, npm, libm  # noqa: F401
    C = contracts(prop)[i]
    name, fn = C[0], C[1]
    opts = C[2] if len(C) > 2 else {}
    t0 = time.time()
    obl.OBS = obl.Obs()
    obl.CUR.update(verbose=verbose, timeout=(opts.get("timeout") or 12000) * (1 if tier == "quick" else 4))
    core.CTX.strict = opts.get("strict", prop in STRICT or "data")
    core.CTX.deadline = t0 + opts.get("budget", 240) * (1 if tier == "quick" else 4)
    res = {"contract": name, "note": None}
    feas = [0]

    def run():
        fn()
        if not feas[0] and not core.CTX.infeasible():
            feas[0] = 1
    try:
        n = core.explore(run, opts.get("paths"))
        res["paths"] = n
        if not feas[0]:
            res["note"] = "no feasible path: the contract would hold vacuously"
    except core.Unsupported as e:
        res["note"] = "left the verified subset: " + str(e)
        if verbose:
            traceback.print_exc()
    except core.Undecided as e:
        res["note"] = str(e)
    except RecursionError:
        res["note"] = "recursion"
    except Exception as e:
        res["note"] = "engine error: " + repr(e)[:300]
        if verbose:
            traceback.print_exc()
    obs = obl.OBS.d
    if res["note"]:
        for o in obs.values():
            if o["status"] == "discharged":
                o["status"], o["detail"] = "undecided", res["note"]
        obs.setdefault("all", {"status": "undecided", "detail": res["note"], "paths": 0})
    if not obs:
        obs["all"] = {"status": "undecided", "detail": "no obligation was reached", "paths": 0}
    res["obligations"] = [dict(name=f"{name}/{k}", function=opts.get("functions", [name]), bounded=opts.get("bounded"), **v) for k, v in obs.items()]
    res["functions"] = sorted(interp.FUNCS_RUN)
    res["assumptions"] = sorted(core.CTX.assumptions)
    res["solver_s"], res["queries"], res["wall"] = core.CTX.solver_time, core.CTX.nqueries, time.time() - t0
    return res


def main():
    prop, tier, out = sys.argv[1:4]
    only = sys.argv[4] if len(sys.argv) > 4 else None
    C = contracts(prop)
    jobs = [(prop, i, tier, bool(only)) for i, c in enumerate(C) if not only or only in c[0]]
    if only:
        rs = []
        for j in jobs:
            if len(jobs) == 1:
                rs.append(one(j))
            else:
                with mp.get_context("spawn").Pool(1) as p:
                    rs += p.map(one, [j])
    elif jobs:
        with mp.get_context("spawn").Pool(min(8, len(jobs)), maxtasksperchild=1) as p:
            rs = p.map(one, jobs, chunksize=1)
    else:
        rs = []
    E = {"obligations": [], "functions": [], "assumptions": [], "solver_s": 0.0, "queries": 0, "backend": "z3 " + __import__("z3").get_version_string(), "contracts": []}
    for r in rs:
        E["obligations"] += r["obligations"]
        E["functions"] = sorted(set(E["functions"]) | set(r["functions"]))
        E["assumptions"] = sorted(set(E["assumptions"]) | set(r["assumptions"]))
        E["solver_s"] += r["solver_s"]
        E["queries"] += r["queries"]
        E["contracts"].append({k: r.get(k) for k in ("contract", "note", "paths", "wall")})
        if only:
            print(r["contract"], "note:", r["note"], "paths", r.get("paths"), f"{r['wall']:.1f}s")
    if only:
        for o in E["obligations"]:
            print(o["status"], o["name"], "" if o["status"] == "discharged" else (o["detail"] or "")[:1500])
    from engine import trusted
    E["trusted_base"] = trusted.base(prop)
    pathlib.Path(out).write_text(json.dumps(E, indent=1))


if __name__ == "__main__":
    main()
