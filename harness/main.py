"""Evaluate the run-time contracts of one property:  main.py PROP TIER SEED OUT.json [REPLAYCASE.json]"""
import importlib, json, multiprocessing as mp, os, pathlib, sys, time, traceback, warnings
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")
sys.dont_write_bytecode = True
sys.path.insert(0, str(pathlib.Path(__file__).parent))
sys.path.insert(0, os.environ.get("VP_SRC", "/repo/src"))
warnings.simplefilter("ignore")

MODULES = ["core_props", "table_props", "vtk_props", "fmt_props", "cli_props"]


def load():
    fams = {}
    for m in MODULES:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for k, v in mod.FAMS.items():
            fams.setdefault(k, []).extend(v)
    return fams


FAMS = None


def one(job):
    prop, fi, case = job
    from roundtrip import limit, Timeout
    name, _, check = FAMS[prop][fi]
    try:
        with limit(15):
            r = check(case)
    except Timeout:
        r = ["no result within 15 s"]
    except Exception:
        r = ["contract evaluation raised: " + traceback.format_exc(limit=-4)]
    except SystemExit:
        r = ["the code called sys.exit"]
    return r


def worker(conn):
    while True:
        k = conn.recv()
        if k is None:
            os._exit(0)
        conn.send([one(j) for j in k])


HARD = 50


def run_pool(jobs, nproc):
    """own pool: a worker that hangs in native code, or dies, is replaced and its case is reported"""
    ctx = mp.get_context("fork")
    size = max(1, min(16, len(jobs) // (nproc * 8) or 1))
    todo = [list(range(i, min(i + size, len(jobs)))) for i in range(0, len(jobs), size)][::-1]
    res = [None] * len(jobs)
    live = {}

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b,), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None, 0]

    def give(c):
        if todo:
            k = todo.pop()
            live[c][1], live[c][2] = k, time.time()
            c.send([jobs[i] for i in k])
        else:
            live[c][1] = None
            c.send(None)
            del live[c]

    for _ in range(nproc):
        spawn()
    for c in list(live):
        give(c)
    from multiprocessing.connection import wait
    while live:
        for c in wait(list(live), timeout=2):
            k = live[c][1]
            try:
                out = c.recv()
            except (EOFError, OSError):
                out = None
            if out is None:
                del live[c]
                if len(k) == 1:
                    res[k[0]] = ["the process died"]
                else:
                    todo.extend([i] for i in k)
                spawn()
                give(list(live)[-1])
                continue
            for i, r in zip(k, out):
                res[i] = r
            give(c)
        now = time.time()
        for c in list(live):
            p, k, t = live[c]
            if k and now - t > HARD + 45 * (len(k) - 1):
                p.kill()
                del live[c]
                if len(k) == 1:
                    res[k[0]] = [f"no result within {HARD} s"]
                else:
                    todo.extend([i] for i in k)
                spawn()
                give(list(live)[-1])
    return res


def main():
    global FAMS
    prop, tier, seed, out = sys.argv[1:5]
    t0 = time.time()
    import meshio
    src = os.environ.get("VP_SRC", "/repo/src")
    assert os.path.abspath(meshio.__file__).startswith(src), meshio.__file__
    FAMS = load()
    if len(sys.argv) > 5:
        rec = json.load(open(sys.argv[5]))
        names = [f[0] for f in FAMS[prop]]
        r = one((prop, names.index(rec["family"]), rec["case"]))
        json.dump({"failures": r}, open(out, "w"))
        print(r)
        return
    jobs = []
    fam_counts = {}
    for fi, (name, cases, check) in enumerate(FAMS.get(prop, [])):
        for case in cases(tier, int(seed)):
            jobs.append((prop, fi, case))
    seen = set()
    uniq = []
    for j in jobs:
        k = (j[1], json.dumps(j[2], sort_keys=True))
        if k not in seen:
            seen.add(k)
            uniq.append(j)
    nproc = int(os.environ.get("VP_JOBS", "8"))
    res = run_pool(uniq, nproc)
    fails, skipped, known = [], 0, {}
    for (p, fi, case), r in zip(uniq, res):
        name = FAMS[p][fi][0]
        if r is None:
            skipped += 1
            continue
        fam_counts[name] = fam_counts.get(name, 0) + 1
        for x in r:
            if x.startswith("KNOWN: "):
                known[x[7:]] = known.get(x[7:], 0) + 1
        r = [x for x in r if not x.startswith("KNOWN: ")]
        if r:
            fails.append({"family": name, "case": case, "failures": r})
    json.dump({"evaluated": len(uniq) - skipped, "skipped": skipped, "families": fam_counts, "fails": fails[:200], "nfails": len(fails), "known": known,
               "samples": [{"family": FAMS[p][fi][0], "case": c} for p, fi, c in uniq[:: max(1, len(uniq) // 5)][:5]], "wall_s": time.time() - t0}, open(out, "w"))


if __name__ == "__main__":
    main()
