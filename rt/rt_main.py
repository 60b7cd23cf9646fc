"""run the executable contracts of one property on the real code
usage: rt_main.py PROP SEED TIER BUDGET_S OUT.json [--case FILE]"""
import sys, os, json, time, hashlib, traceback, warnings, io, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common, reg
import numpy as np


def load(pid):
    n = int(pid[1:])
    if n <= 12:
        import ops
    elif n in (13, 14, 15, 16, 17, 18, 25, 26):
        import solvers
    elif n <= 24:
        import stoch
    else:
        import misc
    return reg.CONTRACTS[pid]


def run_case(cls, case):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            r = cls.check(case)
        except reg.Bad as e:
            return "bad", None, str(e)
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [f"{os.path.basename(t.filename)}:{t.lineno} {t.name}" for t in tb if "/copt/" in t.filename]
            return "bad", None, "unexpected %s: %s at %s" % (type(e).__name__, str(e)[:200], loc[-3:] or [f"{os.path.basename(t.filename)}:{t.lineno}" for t in tb][-3:])
    if isinstance(r, reg.KF):
        return "kf", r.key, str(r)
    return "ok", None, None


def main():
    pid, seed, tier, budget, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], float(sys.argv[4]), sys.argv[5]
    cs = load(pid)
    if "--case" in sys.argv:
        rec = json.load(open(sys.argv[sys.argv.index("--case") + 1]))
        cls = [c for n, c, _ in cs if n == rec["contract"]][0]
        st, key, msg = run_case(cls, rec["case"])
        print(st, key, msg)
        sys.exit(1 if st == "bad" else 0)
    res = dict(property=pid, evaluations=0, distinct=0, samples=[], kf={}, violation=None, contracts={})
    seen = set()
    t0 = time.time()
    tot = sum(w for _, _, w in cs)
    viol = None
    for name, cls, w in cs:
        stop = t0 + budget
        share = time.time() + max(0.0, (stop - time.time())) * w / tot
        tot -= w
        rng = np.random.RandomState((seed * 7919 + int(hashlib.md5((pid + name).encode()).hexdigest()[:6], 16)) % (2 ** 31))
        cases = iter(cls.fixed(tier)) if hasattr(cls, "fixed") else iter(())
        n = 0
        lim = getattr(cls, "limit", {"quick": 1500, "thorough": 10 ** 6})[tier]
        while (time.time() < share or n < 5) and n < lim:
            case = next(cases, None)
            if case is None:
                if not hasattr(cls, "gen"):
                    break
                case = cls.gen(rng, tier)
            n += 1
            h = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()
            new = h not in seen
            seen.add(h)
            st, key, msg = run_case(cls, case)
            res["evaluations"] += 1
            if st == "kf":
                k = res["kf"].setdefault(key, dict(msg=msg, count=0, case=case))
                k["count"] += 1
            elif new:
                res["distinct"] += 1
            if n <= 1 and len(res["samples"]) < 4:
                res["samples"].append(dict(contract=name, case=case))
            if st == "bad":
                viol = dict(contract=name, case=case, message=msg)
                break
        res["contracts"][name] = n
        if viol:
            break
    res["violation"] = viol
    res["wall_s"] = time.time() - t0
    json.dump(res, open(out, "w"))


if __name__ == "__main__":
    main()
