"""P11: no exception leaves a parallel region, and what a handler there catches is looked at after the region."""
from effects import Program
from races import Result, omps, strip, rel

# forms that throw when the system cannot be solved (the forms with output arguments return false instead)
THROWS = {"arma::inv": 1, "arma::inv_sympd": 1, "arma::pinv": 1, "arma::chol": 1, "arma::svd": 1, "arma::eig_sym": 1, "arma::solve": 2, "arma::eig_gen": 1}


class Contain:
    def __init__(self, prog):
        self.prog = prog
        self.P = Program(prog)
        self.memo = {}
        self.unread = set()     # decompositions whose success is not looked at: they leave empty matrices, whose use throws
        self.res = Result("inside every `omp parallel` region each operation that can throw on user data (matrix inverses and solvers, throw, calls that let one through) lies in "
                          "a try block of that region whose handler takes every std::exception and sets a flag that the function examines after the region")

    def callees(self, e):
        k = e["k"]
        if k == "pmcall":
            return self.P.pm_targets(e["f"])
        if k == "mcall" and e.get("inroot"):
            return self.P.targets(e["fn"], e.get("virt"))[0]
        if k in ("call", "ctor", "op"):
            f = self.P.fn.get(e.get("fn"))
            return [e["fn"]] if f and "body" in f else []
        return []

    def throwing(self, e):
        k = e.get("k")
        if k == "throw":
            return "throw"
        if k == "call" and e.get("q") in THROWS:
            n = sum(1 for a in e["a"] if not a.get("def"))
            opt = sum(1 for a in e["a"] if not a.get("def") and "opts" in (a.get("t") or ""))
            if n - opt <= THROWS[e["q"]] or id(e) in self.unread:
                return e["q"]
        if k == "mcall" and not e.get("inroot") and e["m"] == "i" and not e["a"]:
            return "inverse"
        if k in ("call", "mcall", "pmcall", "ctor", "op"):
            for t in self.callees(e):
                if self.lets_through(t):
                    return self.P.fn[t]["q"].split("::")[-1]
        return None

    def lets_through(self, key):
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        if "/spatialweight/" in (self.P.fn[key].get("file") or ""):
            # distances and weights throw only for a focus outside the prepared points: a precondition the loops keep
            return False
        out = []
        self.walk(self.P.fn[key].get("body"), None, out, [])
        self.memo[key] = any(t is None or not self.total(t, rethrow=True) for _, _, t in out)
        return self.memo[key]

    def total(self, trys, rethrow=False):
        """the handlers take every std::exception (and do not throw again)"""
        for h in trys["h"]:
            t = h.get("t")
            if t in (None, "", "...") or t == "std::exception":
                return not self.has_throw(h["body"])
        return False

    def has_throw(self, n):
        if isinstance(n, dict):
            return n.get("k") == "throw" or any(self.has_throw(v) for v in n.values())
        if isinstance(n, list):
            return any(self.has_throw(v) for v in n)
        return False

    def walk(self, n, t, out, handlers):
        """(what, line, innermost try) of every operation that can throw"""
        if isinstance(n, list):
            for x in n:
                self.walk(x, t, out, handlers)
        elif isinstance(n, dict):
            if n.get("k") == "block":
                self.unread.update(id(strip(x)) for x in n["s"] if isinstance(x, dict) and strip(x).get("k") == "call")
            if n.get("k") == "try":
                self.walk(n["body"], n, out, handlers)
                for h in n["h"]:
                    self.walk(h["body"], t, out, handlers)
                return
            if n.get("k"):
                w = self.throwing(n)
                if w:
                    out.append((w, n.get("l"), t))
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.walk(v, t, out, handlers)

    def writes(self, n, out):
        if isinstance(n, list):
            for x in n:
                self.writes(x, out)
        elif isinstance(n, dict):
            if n.get("k") == "asg" or (n.get("k") == "op" and n.get("o") in ("=", "+=")):
                x = strip(n["x"] if n["k"] == "asg" else n["a"][0])
                while x.get("k") in ("idx", "op", "mcall"):
                    x = strip(x.get("b") or x.get("o") if x["k"] != "op" else x["a"][0])
                    if not isinstance(x, dict):
                        break
                if isinstance(x, dict) and x.get("k") == "var":
                    out.add(("var", x["id"]))
                elif isinstance(x, dict) and x.get("k") == "mem":
                    out.add(("mem", x["q"]))
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.writes(v, out)

    def reads_after(self, f, region):
        """variables examined by conditions, returns or expressions after the region (in source order of the function)"""
        seen = [False]
        out = set()
        links = []

        def names(n):
            if isinstance(n, list):
                for x in n:
                    names(x)
            elif isinstance(n, dict):
                if n.get("k") == "var":
                    out.add(("var", n["id"]))
                elif n.get("k") == "mem":
                    out.add(("mem", n["q"]))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        names(v)

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
            elif isinstance(n, dict):
                if n is region:
                    seen[0] = True
                    return
                if n.get("k") in ("if", "cond", "while", "do", "switch") and seen[0]:
                    names(n["c"])
                if n.get("k") == "call" and not n.get("inroot") and (n.get("q") or "").startswith("MPI_") and seen[0]:
                    # a flag exchanged with the other processes: what is examined is what arrives
                    got = set(out)
                    out.clear()
                    names(n["a"])
                    links.append(set(out))
                    out.clear()
                    out.update(got)
                if n.get("k") == "ret" and seen[0] and n.get("e"):
                    names(n["e"])
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        go(v)
        go(f.get("body"))
        for l in links:
            if l & out:
                out |= l
        return out

    def run(self):
        n = 0
        for key, f in sorted(self.P.fn.items()):
            rs = []
            omps(f.get("body"), rs)
            for r in rs:
                n += 1
                out = []
                self.walk(r["body"], None, out, [])
                where = "%s:%s" % (rel(self.prog, f["file"]), r["l"])
                self.res.functions.add(key)
                after = None
                if not out:
                    self.res.sites += 1
                    self.res.held += 1
                    continue
                for what, line, t in out:
                    self.res.sites += 1
                    short = "%s:%s" % (f["q"].replace("gwm::", ""), what)
                    if t is None or not self.total(t):
                        self.res.violations.append(("escapes:" + short, "%s: an exception of %s would leave the parallel region" % (f["q"], what),
                                                    dict(region=where, line=line)))
                        continue
                    if after is None:
                        after = self.reads_after(f, r)
                    ok = True
                    for h in t["h"]:
                        w = set()
                        self.writes(h["body"], w)
                        if not (w & after):
                            ok = False
                    if not ok:
                        self.res.violations.append(("lost:" + short, "%s: an exception of %s caught in the parallel region is not reported afterwards" % (f["q"], what),
                                                    dict(region=where, line=line, handler=t["h"][0].get("l"))))
                        continue
                    self.res.held += 1
                    if len(self.res.samples) < 20:
                        self.res.samples.append("%s (%s): %s contained and reported" % (f["q"], where, what))
        return self.res


def run(prog, tier="quick"):
    return Contain(prog).run()


class Criteria(Contain):
    """P09: nothing leaves the evaluation of a candidate, and what is caught there makes the criterion infinite"""
    ROOTS = ("getCriterion", "bandwidthCriterion", "criterionFunction", "criterion_function")

    def __init__(self, prog):
        super().__init__(prog)
        self.res = Result("the evaluation of a candidate (every implementation of getCriterion and everything it calls through the selected criterion function) lets no exception through, and "
                          "each handler on the way either ends the evaluation with the largest number, rethrows, or sets a flag that is examined before the criterion is returned")
        self.hmemo = {}

    def dblmax(self, e):
        e = strip(e)
        return isinstance(e, dict) and (e.get("k") == "flt" and str(e.get("v", e.get("n", ""))).startswith("1.7976931348623"))

    def reached(self, key, seen):
        if key in seen:
            return
        seen.add(key)
        calls = []

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
            elif isinstance(n, dict):
                if n.get("k") in ("call", "mcall", "pmcall", "ctor", "op"):
                    calls.extend(self.callees(n))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        go(v)
        go(self.P.fn[key].get("body"))
        for c in calls:
            if "/spatialweight/" not in (self.P.fn[c].get("file") or ""):
                self.reached(c, seen)

    def run(self):
        roots = [k for k, f in sorted(self.P.fn.items()) if f["q"].split("::")[-1] in self.ROOTS and "body" in f]
        allr = set()
        for k in roots:
            f = self.P.fn[k]
            seen = set()
            self.reached(k, seen)
            allr |= seen
            self.res.sites += 1
            out = []
            self.walk(f["body"], None, out, [])
            bad = [(w, l) for w, l, t in out if t is None or not self.total(t, rethrow=True)]
            if bad:
                # name the innermost function that lets it through
                for w, l, fn in self.blame(k, set()):
                    self.res.violations.append(("aborts:%s:%s" % (self.P.fn[fn]["q"].replace("gwm::", ""), w),
                                                "%s: an exception of %s in %s leaves the evaluation of a candidate" % (f["q"], w, self.P.fn[fn]["q"]),
                                                dict(where="%s:%s" % (rel(self.prog, self.P.fn[fn]["file"]), l))))
            else:
                self.res.held += 1
                self.res.samples.append("%s: nothing escapes (%d functions)" % (f["q"], len(seen)))
        for k in sorted(allr):
            f = self.P.fn[k]
            self.res.functions.add(k)
            ts = []
            self.tries(f.get("body"), ts)
            for t in ts:
                for h in t["h"]:
                    self.res.sites += 1
                    if self.has_throw(h["body"]) or self.returns_max(h["body"]):
                        self.res.held += 1
                        continue
                    w = set()
                    self.writes(h["body"], w)
                    if w & self.reads_after(f, t):
                        self.res.held += 1
                    else:
                        self.res.violations.append(("swallowed:%s" % f["q"].replace("gwm::", ""), "%s: a failure caught while a candidate is evaluated leaves no trace in the criterion" % f["q"],
                                                    dict(where="%s:%s" % (rel(self.prog, f["file"]), h.get("l") or t.get("l")))))
        return self.res

    def tries(self, n, out):
        if isinstance(n, list):
            for x in n:
                self.tries(x, out)
        elif isinstance(n, dict):
            if n.get("k") == "try":
                out.append(n)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    self.tries(v, out)

    def returns_max(self, n):
        if isinstance(n, list):
            return any(self.returns_max(x) for x in n)
        if isinstance(n, dict):
            if n.get("k") == "ret" and n.get("e"):
                return True if self.dblmax(n["e"]) else False
            return any(self.returns_max(v) for v in n.values() if isinstance(v, (dict, list)))
        return False

    def blame(self, key, seen):
        if key in seen:
            return []
        seen.add(key)
        out = []
        self.walk(self.P.fn[key].get("body"), None, out, [])
        res = []
        for w, l, t in out:
            if t is not None and self.total(t, rethrow=True):
                continue
            if w == "throw" or w in THROWS or w == "inverse":
                res.append((w, l, key))
        if not res:
            calls = set()

            def go(n):
                if isinstance(n, list):
                    for x in n:
                        go(x)
                elif isinstance(n, dict):
                    if n.get("k") in ("call", "mcall", "pmcall", "ctor", "op"):
                        calls.update(c for c in self.callees(n) if self.lets_through(c))
                    for v in n.values():
                        if isinstance(v, (dict, list)):
                            go(v)
            go(self.P.fn[key].get("body"))
            for c in sorted(calls):
                res += self.blame(c, seen)
        return res


def criteria(prog, tier="quick"):
    return Criteria(prog).run()
