#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]  --  decides one property from /repo's current source."""
import os, sys, time, json, re, hashlib
if os.environ.get("PYTHONHASHSEED") != "0":      # same order of everything in every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.setrecursionlimit(20000)
import registry, run
from extract import extract, AnalysisError

KF = os.path.join(HERE, "known-findings.txt")


def known(pid):
    out = {}
    if os.path.exists(KF):
        for l in open(KF):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = registry.PROPS[pid]
    specs = [os.path.join(HERE, "spec", s) for s in P.get("specs", [])]
    try:
        prog = extract(None, extra=specs)
    except AnalysisError as e:
        print("NO ANSWER: %s" % e)
        return 3
    rel = lambda f: os.path.relpath(f, prog["repo"]) if f and f.startswith(prog["repo"]) else f
    viol, inconcl, obligations, discharged, fns, samples, detail = [], [], 0, 0, set(), [], []
    for b, err in prog["broken_specs"]:
        inconcl.append("claims of %s no longer parse against this tree: %s" % (b, err.strip().splitlines()[-1:] or err))
    keys = []
    for rx in P.get("claims", []):
        keys += [k for k in run.claims(prog, rx) if k not in keys]
    limit = P.get("limit", 300 if tier == "quick" else 700)
    results = run.run_all(prog, keys, jobs=8, limit=limit, budget=(600 if tier == "quick" else 820) - (time.time() - t0)) if keys else []
    lab = P.get("labels")
    for r in results:
        fns.update(r["functions"])
        name = r["claim"].split("::", 1)[-1] if "::" in r["claim"] else r["claim"]
        mod = r["claim"].split("::")[0].replace("claims_", "")
        cname = mod + "." + name.replace("claim_", "")
        if r["error"]:
            inconcl.append("%s: %s" % (cname, r["error"][-400:]))
        for (l, v, d, line) in r["obligations"]:
            if lab and not re.search(lab, l):
                continue
            obligations += 1
            key = re.sub(r"[^A-Za-z0-9_.:'-]+", "_", "%s:%s" % (cname, l))
            if v == "ok":
                discharged += 1
                if len(samples) < 12:
                    samples.append("%s: %s — %s" % (cname, l, d))
            elif v == "diff":
                viol.append((key, "%s: the computed result is not the required one" % cname + " [%s]" % l,
                             dict(claim=r["claim"], obligation=l, spec="%s:%s" % (os.path.basename(r["file"] or ""), line), difference=d,
                                  functions=r["functions"])))
            else:
                inconcl.append("%s: %s: %s" % (cname, l, d))
        detail.append(dict(claim=cname, wall=r["wall"], functions=len(r["functions"]), obligations=len(r["obligations"])))
    rules = []
    for ps in P.get("passes", []):
        res = ps(prog, tier)
        rules.append(dict(rule=res.rule, sites=res.sites, held=res.held, examples=res.samples[:6]))
        obligations += res.sites
        discharged += res.held
        fns.update(res.functions)
        inconcl += res.notes
        for key, text, where in res.violations:
            viol.append((key, text, where))
    kf = known(pid)
    code = 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    new = []
    for key, text, d in viol:
        if key in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf[key], key))
        else:
            new.append((key, text, d))
    rp = os.path.join(HERE, "evidence", "replay-%s.json" % pid)
    if os.path.exists(rp):
        os.remove(rp)
    if new:
        code = 1
        json.dump(dict(property=pid, violations=[dict(key=k, what=t, detail=d) for k, t, d in new], rerun="python3 /verif/check.py %s" % pid),
                  open(rp, "w"), indent=1, default=str)
    for i in inconcl[:40]:
        print("UNDECIDED: %s" % str(i)[:400])
    for key, text, d in new:
        print("  %s\n    %s" % (text, json.dumps(d, default=str)[:700]))
    for key, text, d in new[:1]:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "other"), wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=P.get("assumptions", []) + registry.COMMON_ASSUMPTIONS)
    cov = dict(obligations=obligations, discharged=discharged, undecided=len(inconcl), units_analysed=len(prog["units"]),
               functions_analysed=len(fns), functions=sorted(fns)[:400], claims=detail, rules=rules, samples=samples, undecided_items=[str(i)[:300] for i in inconcl[:30]],
               known_findings=[k for k, _, _ in viol if k in kf], explanation=P["how"],
               checker_cmd="python3 /verif/check.py %s %s" % (pid, tier), trusted_base=registry.TRUSTED)
    ev["coverage"] = cov
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violations, %d functions of %d units analysed, %.1f s"
          % (pid, obligations, discharged, len(inconcl), len(new), len(fns), len(prog["units"]), time.time() - t0))
    return code


if __name__ == "__main__":
    sys.exit(main())
