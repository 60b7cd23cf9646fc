#!/usr/bin/env python3-vt
"""prove.py Cxx OUT.json [tier]: generate and discharge the obligations of one property"""
import sys, os, json, time, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import warnings
warnings.simplefilter("ignore")
import core, engine, transform, traceback


FIELDS = ("obls", "incomplete", "assumptions", "paths", "reach", "solver_s")


def run_one(E, c):
    t1 = time.time()
    try:
        c(E)
    except engine.Unsupported as u:
        E.incomplete.append(dict(where=c.__name__, reason=str(u), at=engine.site(u)))
    except Exception as ex:
        E.incomplete.append(dict(where=c.__name__, reason="engine: %s: %s" % (type(ex).__name__, str(ex)[:300]), at=engine.site(ex)))
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    if os.environ.get("VC_DEBUG"):
        print("-- %s %.2fs" % (c.__name__, time.time() - t1), flush=True)


def child(E, c, path):
    import pickle
    run_one(E, c)
    pickle.dump({f: getattr(E, f) for f in FIELDS}, open(path, "wb"))


def run_all(E, cs):
    """contracts are independent: each in a process of its own"""
    jobs = int(os.environ.get("VC_JOBS", "6"))
    if len(cs) < 2 or jobs < 2:
        for c in cs:
            run_one(E, c)
        return
    import multiprocessing, tempfile, pickle, shutil
    mp = multiprocessing.get_context("fork")
    d = tempfile.mkdtemp(prefix="vcprove")
    todo, live, res = list(enumerate(cs)), [], {}
    while todo or live:
        while todo and len(live) < jobs:
            i, c = todo.pop(0)
            f = os.path.join(d, "%d.pkl" % i)
            p = mp.Process(target=child, args=(E, c, f))
            p.start()
            live.append((p, i, c, f))
        time.sleep(0.02)
        for q in list(live):
            if not q[0].is_alive():
                q[0].join()
                live.remove(q)
                try:
                    res[q[1]] = pickle.load(open(q[3], "rb"))
                except Exception as ex:
                    res[q[1]] = dict(incomplete=[dict(where=q[2].__name__, reason="worker ended without a result", at="")])
            elif time.time() > E.deadline + 60:
                q[0].kill()
    shutil.rmtree(d, ignore_errors=True)
    for i in sorted(res):
        r = res[i]
        for f in ("obls", "incomplete"):
            getattr(E, f).extend(r.get(f, []))
        E.assumptions |= set(r.get("assumptions", ()))
        for f in ("paths", "reach", "solver_s"):
            setattr(E, f, getattr(E, f) + r.get(f, 0))


def split(fn, name, cases):
    """one contract per case"""
    out = []
    for c in cases:
        g = (lambda c: lambda E: fn(E, c))(c)
        g.__name__ = "%s[%s]" % (name, c)
        out.append(g)
    return out


def main():
    pid, out = sys.argv[1], sys.argv[2]
    import gc
    gc.set_threshold(200000, 20, 100)
    tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
    t0 = time.time()
    E = engine.Engine(tier)
    E.deadline = t0 + (400 if tier == "quick" else 520)
    spec = importlib.util.spec_from_file_location("contract_" + pid, os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts", pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    assumptions = []
    try:
        spec.loader.exec_module(m)
        E.copt = transform.Loader(E)
        assumptions = list(getattr(m, "ASSUMPTIONS", []))
        only = sys.argv[4:]
        cs = [c for c in m.CONTRACTS if not only or c.__name__ in only]
        run_all(E, cs)
    except Exception as ex:
        E.incomplete.append(dict(where="load", reason="%s: %s" % (type(ex).__name__, str(ex)[:300]), at=engine.site(ex)))
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
    res = dict(property=pid, obligations=[dict(name=o.name, status=o.status, backend=o.backend, time=o.time, detail=o.detail) for o in E.obls],
               incomplete=E.incomplete, functions=sorted(set(getattr(m, "FUNCTIONS", []))), assumptions=assumptions + sorted(E.assumptions),
               paths=E.paths, reach=E.reach, wall_s=round(time.time() - t0, 2), solver_s=round(E.solver_s, 2))
    json.dump(res, open(out, "w"), indent=1)
    if out != "/dev/stdout":
        bad = [o for o in E.obls if o.status != "proved"]
        print("%s: %d obligations, %d proved, %d failed, incomplete %s, paths %d, %.1fs" % (
            pid, len(E.obls), len(E.obls) - len(bad), len(bad), [(i["where"], i["reason"], i["at"]) for i in E.incomplete], E.paths, time.time() - t0))
        if not os.environ.get("VC_DEBUG"):
            for o in bad:
                print("  FAILED", o.name, o.detail[:300])


if __name__ == "__main__":
    main()
