#!/usr/bin/env python3-vt
"""check.py Cxx -- decide one property on the current tree of /repo.

1. deductive part (vc/prove.py): contracts over the functions in /repo/copt, extracted
   from the current source; every verification condition is discharged by z3/cvc5;
2. the same contracts in executable form (rt/), run on the real code: a replayable
   failing input where an obligation fails, and a test of the trusted stubs."""
import sys, os, json, subprocess, time, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VT = "python3-vt"
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(HERE, "known_findings.txt")


def known_keys(pid):
    out = {}
    for line in open(KNOWN):
        line = line.strip()
        if line.startswith("known: "):
            f = line.split(None, 3)
            p = f[1].split("=", 1)[1]
            if p == pid:
                out[f[2].split("=", 1)[1]] = f[3]
    return out


def run(cmd, timeout, env=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True, env=env)
    return p


def finish(p, timeout):
    try:
        out, _ = p.communicate(timeout=max(1, timeout))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return None, out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="copt-check-")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTHONHASHSEED="0", TMPDIR=tmp, HOME=tmp)
    repdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    try:
        return decide(pid, tier, seed, t0, tmp, env, repdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def rt_run(pid, seed, tier, budget, tmp, env, tag):
    out = os.path.join(tmp, "rt-%s.json" % tag)
    return run([PY, os.path.join(HERE, "rt", "rt_main.py"), pid, str(seed), tier, str(budget), out], 0, env), out


def rt_get(p, out, timeout):
    rc, log = finish(p, timeout)
    if rc == 0 and os.path.exists(out):
        return json.load(open(out)), None
    return None, (log or "")[-1500:]


def decide(pid, tier, seed, t0, tmp, env, repdir):
    quick = tier == "quick"
    contract = os.path.join(HERE, "vc", "contracts", pid + ".py")
    have_vc = os.path.exists(contract)
    vc, vc_log = None, None
    vcout = os.path.join(tmp, "vc.json")
    if have_vc:
        pv = run([VT, os.path.join(HERE, "vc", "prove.py"), pid, vcout, tier], 0, env)
    budget = 10 if quick else 150
    pr, rtout = rt_run(pid, seed, tier, budget, tmp, env, "a")
    rt, rt_err = rt_get(pr, rtout, budget * 3 + 120)
    if have_vc:
        rc, vc_log = finish(pv, (470 if quick else 640) - (time.time() - t0))
        if os.path.exists(vcout):
            vc = json.load(open(vcout))
    if vc is None:
        vc = dict(obligations=[], incomplete=[dict(where="prove.py", reason=("no contract script" if not have_vc else
                  "prover did not finish: " + (vc_log or "")[-400:]))], functions=[], bounded=[], assumptions=[], reach=0)
    failed = [o for o in vc["obligations"] if o["status"] not in ("proved", "bounded-ok")]
    lines, viol = [], []
    known = known_keys(pid)

    # the real code could not even be imported / the runner crashed: that is a break of every property
    if rt is None:
        rep = os.path.join(repdir, pid + "-import.json")
        json.dump(dict(property=pid, kind="runner failed on the real code", log=rt_err), open(rep, "w"), indent=1)
        viol.append("VIOLATION property=%s replay=%s" % (pid, rep))
        rt = dict(evaluations=0, distinct=0, samples=[], kf={}, violation=None, contracts={})
    extra = 0
    if failed and not rt["violation"] and not viol:
        # search a failing input for the failed obligation: more seeds, deeper cases
        for j in range(3 if quick else 6):
            if quick and time.time() - t0 > 640:
                break
            p, o = rt_run(pid, seed + 1000 * (j + 1), "thorough" if j % 2 else tier, 25, tmp, env, "b%d" % j)
            r2, _ = rt_get(p, o, 150)
            if r2:
                extra += r2["evaluations"]
                if r2["violation"]:
                    rt["violation"] = r2["violation"]
                    break
    if rt["violation"]:
        rep = os.path.join(repdir, pid + "-case.json")
        v = dict(rt["violation"])
        v.update(property=pid, failed_obligations=[dict(name=o["name"], detail=o.get("detail")) for o in failed],
                 replay="%s %s/rt/rt_main.py %s 1 quick 1 /dev/null --case <this file>" % (PY, HERE, pid))
        json.dump(v, open(rep, "w"), indent=1)
        print("contract %s fails on the real code: %s" % (v["contract"], v["message"]))
        viol.append("VIOLATION property=%s replay=%s" % (pid, rep))
    for k, d in sorted(rt["kf"].items()):
        if k in known:
            lines.append("KNOWN-FINDING: property=%s %s (%s; %d inputs of this run)" % (pid, k, known[k], d["count"]))
        else:
            rep = os.path.join(repdir, pid + "-" + k + ".json")
            json.dump(dict(property=pid, case=d["case"], message=d["msg"]), open(rep, "w"), indent=1)
            viol.append("VIOLATION property=%s replay=%s" % (pid, rep))
    if failed and not viol:
        rep = os.path.join(repdir, pid + "-obligation.json")
        json.dump(dict(property=pid, kind="failed obligation", failed=failed), open(rep, "w"), indent=1)
        for o in failed[:5]:
            print("obligation not discharged: %s [%s]" % (o["name"], o["status"]))
        viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rep))
    # listed findings that no longer show up are not printed
    nob = len(vc["obligations"])
    proved = [o for o in vc["obligations"] if o["status"] == "proved"]
    bounded = [o for o in vc["obligations"] if o["status"] == "bounded-ok"]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    chk = [c for c in man["checks"] if c["property"] == pid]
    level = chk[0]["level"] if chk else "exploration"
    if level == "proof" and not proved:
        level = "other"      # nothing was proved on this run: do not report it as a proof
    backs = {}
    for o in proved:
        backs[o.get("backend", "?")] = backs.get(o.get("backend", "?"), 0) + 1
    cov = dict(
        obligations=nob, discharged=len(proved), checker_cmd="python3-vt vc/prove.py %s /dev/stdout" % pid,
        trusted_base=vc.get("assumptions", []) + ["CPython, numpy and scipy as used by the stubs' contracts", "z3 / cvc5", "vc/ (VC generator)"],
        obligations_bounded=len(bounded), discharged_by=backs,
        solver_s=round(sum(o.get("time", 0) for o in vc["obligations"]), 3),
        functions_under_contract=vc.get("functions", []), paths=vc.get("paths", 0),
        reachability_checks=vc.get("reach", 0),
        beyond_reach=vc.get("incomplete", []),
        obligation_names=[dict(name=o["name"], status=o["status"], backend=o.get("backend")) for o in vc["obligations"]][:400],
        evaluations=rt["evaluations"] + extra, distinct_nontrivial=rt["distinct"],
        rule="executable form of the contracts on the real code, inputs drawn from VERIF_SEED (and a fixed list of corner "
             "cases); a case is non-trivial when its postcondition was evaluated to the end, distinct by its JSON encoding",
        samples=rt["samples"] or ["none"], bounded_contracts=rt["contracts"],
        explanation="deductive part: obligations/discharged; executable contracts on the real code: evaluations (bounded, not counted as proved)")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=vc.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for l in lines:
        print(l)
    print("%s: %d/%d obligations proved, %d bounded, %d beyond reach; %d executable evaluations; %.1fs" % (
        pid, len(proved), nob, len(bounded), len(vc.get("incomplete", [])), rt["evaluations"] + extra, time.time() - t0))
    for v in viol:
        print(v)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
