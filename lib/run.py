"""Runs claims: abstract both sides, compare normal forms."""
import os, re, sys, time, traceback, signal, multiprocessing as mp
import terms as T
from engine import Engine, Give
from verdict import compare, compare_fail, OK, DIFF, UNKNOWN

OPAQUE = {"gwm::CRSDistance::distance", "gwm::CRSSTDistance::distance", "gwm::BandwidthWeight::weight"}
PROG = None


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def claims(prog, pat):
    rx = re.compile(pat)
    out = []
    for key, f in sorted(prog["functions"].items()):
        if f["n"].startswith("claim_") and f.get("body") is not None and rx.search(f["q"]):
            out.append(key)
    return out


def run_claim(key, limit=400, opaque=OPAQUE):
    """-> dict(claim, obligations=[(label, verdict, detail)], notes, functions)"""
    f = PROG["functions"][key]
    mode = "fail" if "_fail" in f["n"] or "_reports" in f["n"] else "value"
    t0 = time.time()
    res = dict(claim=f["q"], file=f.get("file"), line=f.get("l"), obligations=[], notes=[], functions=[], error=None)
    if mp.parent_process() is not None:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    op = set(opaque)
    if "_stdist" in f["n"]:
        op.discard("gwm::CRSSTDistance::distance")
    if "_raw" in f["n"]:
        op = set()
    e = Engine(PROG, mode=mode, opaque=op)
    e.nostop = "_reports" in f["n"]
    try:
        try:
            e.run_claim(f)
        except (Give, T.TooBig, RecursionError) as x:
            res["error"] = "analysis gave up: %s %s" % (type(x).__name__, x)
        for c in e.checks:
            lab, kind, x, y, line = c[:5]
            try:
                if kind == "fails_as":
                    v, d = compare_fail(x, y)
                elif kind == "reports":
                    v, d = compare_fail(x, y, ("SING",), "no exception reaches the caller", "an exception in every case in which")
                    if v == UNKNOWN and e.systems and isinstance(x, T.Poly) and x == T.C(0):
                        v, d = DIFF, dict(what="%d systems of equations are solved and none of them being singular raises an exception" % e.systems)
                else:
                    v = OK
                    if mode == "value" and len(c) > 5 and c[5] is not None and kind != "throws":
                        v, d = compare(c[5], T.C(0), False, c[6])
                        if v == DIFF:
                            d = dict(found="an exception leaves the library", condition=d)
                    if v != DIFF:
                        v2, d2 = compare(x, y, kind == "same_shape", c[6])
                        if v == OK or v2 == DIFF:
                            v, d = v2, d2
            except (T.TooBig, RecursionError, Give) as ex:
                v, d = UNKNOWN, type(ex).__name__
            res["obligations"].append((lab, v, d, line))
    except Timeout:
        res["error"] = "time limit"
    except MemoryError:
        res["error"] = "memory limit"
    except Exception as x:
        res["error"] = "internal: " + traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    res["notes"] = e.notes[:60]
    res["functions"] = sorted({PROG["functions"][k]["q"] for k in e.analysed if not PROG["functions"][k]["q"].startswith(("claims_", "Ref"))})
    res["wall"] = round(time.time() - t0, 2)
    return res


def run_all(prog, keys, jobs=8, limit=400, budget=None):
    """every claim in a forked worker of its own; what the time budget does not reach is reported as undecided"""
    global PROG
    PROG = prog
    t0 = time.time()
    if jobs == 1:
        return [run_claim(k, limit) for k in keys]
    ctx = mp.get_context("fork")
    out = {}
    p = ctx.Pool(min(jobs, len(keys)), maxtasksperchild=1)
    try:
        rs = {k: p.apply_async(run_claim, (k, limit)) for k in keys}
        for k in keys:
            left = None if budget is None else max(0.1, budget - (time.time() - t0))
            try:
                out[k] = rs[k].get(left)
            except mp.TimeoutError:
                out[k] = dict(claim=prog["functions"][k]["q"], file=prog["functions"][k].get("file"), line=0, obligations=[], notes=[],
                              functions=[], error="time budget of the check used up", wall=0)
    finally:
        p.terminate()
        p.join()
    return [out[k] for k in keys]
