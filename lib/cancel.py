"""P10: every loop over observations, candidates or iterations asks for the cancellation flag before each unit of work."""
import os
from effects import Program
from races import Result, strip, decls, rel

UNIT_CALLS = {"arma::inv", "arma::inv_sympd", "arma::pinv", "arma::solve", "arma::svd", "arma::svd_econ", "arma::eig_sym", "arma::eig_gen", "arma::chol", "arma::qr",
              "arma::qr_econ", "arma::det", "arma::princomp"}
UNIT_METHODS = {"gwm::SpatialWeight::weightVector", "gwm::Weight::weight", "gwm::Distance::distance"}
LEAF_DIRS = ("spatialweight",)


def is_stop_call(e):
    return isinstance(e, dict) and e.get("k") == "mcall" and e.get("q") == "gwm::ITelegram::stop"


class Cancel:
    def __init__(self, prog):
        self.prog = prog
        self.P = Program(prog)
        self.memo = {}
        self.polls_memo = {}
        self.res = Result("in every loop outside the distance and weight classes whose body performs a unit of work (weights or distances of an observation, a matrix "
                          "decomposition, or a call that performs one unguarded) the first unit of every iteration is preceded by a question to ITelegram::stop() that records "
                          "Status::Terminated and leaves the iteration; loops over variables or dimensions inside an iteration that asked need not ask again")
        self.record = False
        self.cur = None
        self.decl = {}

    # ---- what a call does
    def leaf(self, f):
        return any("/%s/" % d in (f.get("file") or "") for d in LEAF_DIRS)

    def callees(self, e):
        k = e["k"]
        if k == "pmcall":
            return self.P.pm_targets(e["f"])
        if k == "mcall" and e.get("inroot"):
            return self.P.targets(e["fn"], e.get("virt"))[0]
        if k in ("call", "ctor", "op"):
            f = self.P.fn.get(e.get("fn"))
            return [e["fn"]] if f and "body" in f else []
        return []

    def unit(self, e):
        """e itself is a unit of work (not counting its operands)"""
        k = e.get("k")
        if k == "mcall":
            if e.get("q") in UNIT_METHODS or any(m.split("::")[-1] == e.get("m") and (e.get("q") or "").startswith("gwm::") and
                                                  m.rsplit("::", 1)[0] in self.bases(e.get("q", "").rsplit("::", 1)[0]) for m in UNIT_METHODS):
                return "%s" % e["m"]
            if not e.get("inroot") and e["m"] == "i" and not e["a"]:
                return "inverse"
        if k == "call" and e.get("q") in UNIT_CALLS:
            return e["q"]
        if k in ("call", "mcall", "pmcall", "ctor", "op"):
            for t in self.callees(e):
                f = self.P.fn[t]
                if not self.leaf(f) and self.unguarded(t):
                    return f["q"].split("::")[-1]
        return None

    def bases(self, c):
        out, todo = set(), [c]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            todo += self.prog["classes"].get(x, {}).get("bases", [])
        return out

    def unguarded(self, key):
        """calling the function performs a unit of work that no question inside precedes"""
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False
        f = self.P.fn[key]
        saved = (self.record, self.cur, self.decl)
        self.record, self.cur = False, f
        self.decl = {}
        decls(f.get("body"), self.decl)
        w = []
        self.block(f["body"], False, w)
        self.record, self.cur, self.decl = saved
        self.memo[key] = bool(w)
        return self.memo[key]

    # ---- the question
    def polls(self, e, depth=0):
        """evaluating e asks the telegram"""
        if is_stop_call(e):
            return True
        if isinstance(e, dict):
            if e.get("k") in ("mcall", "call", "pmcall") and depth < 4:
                for t in self.callees(e):
                    if self.fn_polls(t, depth + 1):
                        return True
            return any(self.polls(v, depth) for kk, v in e.items() if isinstance(v, (dict, list)))
        if isinstance(e, list):
            return any(self.polls(v, depth) for v in e)
        return False

    def fn_polls(self, key, depth):
        """a short helper (no loops) that asks"""
        if key not in self.polls_memo:
            self.polls_memo[key] = False
            b = self.P.fn[key].get("body")
            self.polls_memo[key] = not self.has_loop(b) and self.polls(b, depth)
        return self.polls_memo[key]

    def has_loop(self, n):
        if isinstance(n, dict):
            return n.get("k") in ("for", "while", "do", "rfor") or any(self.has_loop(v) for v in n.values())
        if isinstance(n, list):
            return any(self.has_loop(v) for v in n)
        return False

    def terminates(self, n, depth=0):
        """assigns Status::Terminated somewhere in n (or in a helper n calls)"""
        if isinstance(n, dict):
            if n.get("k") == "enum" and n.get("n") == "gwm::Status::Terminated":
                return True
            if n.get("k") in ("mcall", "call") and depth < 4:
                for t in self.callees(n):
                    if not self.has_loop(self.P.fn[t].get("body")) and self.terminates(self.P.fn[t].get("body"), depth + 1):
                        return True
            return any(self.terminates(v, depth) for v in n.values())
        if isinstance(n, list):
            return any(self.terminates(v, depth) for v in n)
        return False

    def leaves(self, s):
        """the statement always leaves the iteration"""
        if not isinstance(s, dict):
            return False
        k = s.get("k")
        if k in ("break", "continue", "ret"):
            return True
        if k == "expr":
            return s["e"].get("k") == "throw"
        if k == "throw":
            return True
        if k == "block":
            return any(self.leaves(x) for x in s["s"])
        if k == "if":
            return self.leaves(s.get("x")) and self.leaves(s.get("y"))
        return False

    def resolve(self, c, n=0):
        """a condition kept in a local variable"""
        c = strip(c)
        if c.get("k") == "var" and n < 4:
            d = self.decl.get(c["id"])
            if d and d.get("i"):
                return self.resolve(d["i"], n + 1)
        return c

    # ---- statements: returns the state after; collects unguarded units in w
    def exprs(self, e, checked, w):
        if isinstance(e, list):
            for x in e:
                self.exprs(x, checked, w)
        elif isinstance(e, dict):
            if e.get("k") == "lambda":
                self.block(e["body"], checked, w)
                return
            u = self.unit(e)
            if u and not checked:
                w.append((u, e.get("l")))
            for v in e.values():
                if isinstance(v, (dict, list)):
                    self.exprs(v, checked, w)

    def block(self, s, checked, w):
        if not isinstance(s, dict):
            return checked
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                checked = self.block(x, checked, w)
            return checked
        if k == "if":
            c = self.resolve(s["c"])
            if self.polls(c):
                neg = c.get("k") == "un" and c["o"] == "!"
                yes, no = (s.get("y"), s.get("x")) if neg else (s.get("x"), s.get("y"))
                # the branch taken when the caller wants to stop must do no work
                self.block(yes, False, w)
                noted = self.terminates(yes) or self.terminates(c)
                if not noted and self.record:
                    self.unrecorded.append(s.get("l"))
                inner = self.block(no, True, w)
                return checked or self.leaves(yes)
            self.exprs(s["c"], checked, w)
            a = self.block(s.get("x"), checked, w)
            b = self.block(s.get("y"), checked, w) if s.get("y") else checked
            return (a or self.leaves(s.get("x"))) and (b or self.leaves(s.get("y")))
        if k in ("for", "while", "do", "rfor"):
            self.loop(s, checked, w)
            return checked
        if k == "omp":
            return self.block(s["body"], checked, w)
        if k == "try":
            r = self.block(s["body"], checked, w)
            for h in s["h"]:
                self.block(h["body"], checked, w)
            return checked or r
        if k == "switch":
            self.exprs(s["c"], checked, w)
            self.block(s["body"], checked, w)
            return checked
        if k in ("case", "default"):
            return self.block(s["s"], checked, w)
        if k == "decl":
            for d in s["d"]:
                if d.get("i"):
                    self.exprs(d["i"], checked, w)
            return checked
        self.exprs({kk: v for kk, v in s.items() if kk != "k"}, checked, w)
        if s.get("e"):
            pass
        return checked

    def bound(self, s):
        """what the loop counts: 'var' variables/dimensions/constants, 'obs' observations, '?'"""
        if s["k"] == "rfor":
            t = strip(s["r"]).get("t") or ""
            return "var" if "vector<" in t and "vector<double" not in t and "vector<unsigned" not in t else "?"
        c = s.get("c")
        c = strip(c) if c else None
        if s["k"] != "for" or not c or c.get("k") != "bin":
            return "?"
        found = set()

        def look(e, n=0):
            e = strip(e)
            if not isinstance(e, dict):
                return
            k = e.get("k")
            if k == "int":
                found.add("var")
            elif k == "mem" and e["n"] == "n_rows":
                found.add("obs")
            elif k == "mem" and e["n"] in ("n_cols", "n_slices"):
                found.add("var")
            elif k == "mem" and e["n"] in ("first", "second"):
                found.add("obs")
            elif k == "mcall" and e["m"] == "size":
                found.add("var")
            elif k == "var" and n < 5:
                d = self.decl.get(e["id"])
                if d and d.get("i"):
                    look(d["i"], n + 1)
                else:
                    found.add("?")
            elif k == "bin":
                look(e["x"], n)
                look(e["y"], n)
            elif k == "ctor" and len(e["a"]) == 1:
                look(e["a"][0], n)
            else:
                found.add("?")
        # the side that is not the counter
        cnt = {d["id"] for d in (s.get("init") or {}).get("d", [])}
        sides = [x for x in (strip(c["x"]), strip(c["y"])) if not (x.get("k") == "var" and x["id"] in cnt)]
        for x in sides:
            look(x)
        if found and found <= {"var"}:
            return "var"
        return "obs" if "obs" in found else "?"

    def loop(self, s, checked, w):
        b = self.bound(s)
        start = checked if b == "var" else False
        inner = []
        if s["k"] == "for" and s.get("init"):
            self.block(s["init"], checked, w)
        if s.get("c"):
            # `while (!stop())` asks in its condition
            if self.polls(s["c"]):
                start = True
            self.exprs(s["c"], start, inner)
        self.block(s["body"], start, inner)
        if b == "var":
            w += inner
            return
        if self.record:
            # does this loop perform units itself, i.e. would it have any if nothing were asked?
            units = self.direct_units(s["body"])
            if units:
                self.res.sites += 1
                where = "%s:%s" % (rel(self.prog, self.cur["file"]), s.get("l"))
                if inner:
                    self.res.violations.append(("cancel:%s:%s" % (self.cur["q"].replace("gwm::", ""), inner[0][0]),
                                                "%s: a loop performs %s without asking whether to stop" % (self.cur["q"], inner[0][0]),
                                                dict(loop=where, work=inner[:4])))
                else:
                    self.res.held += 1
                    if len(self.res.samples) < 40:
                        self.res.samples.append("%s (%s): asks before %s" % (self.cur["q"], where, ", ".join(sorted({u for u, _ in units}))[:80]))
        if inner:
            w += inner

    def direct_units(self, body):
        out = []

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                if n.get("k") in ("for", "while", "do", "rfor") and self.bound(n) != "var":
                    return
                u = self.unit(n)
                if u:
                    out.append((u, n.get("l")))
                for v in n.values():
                    if isinstance(v, (dict, list)):
                        walk(v)
        walk(body)
        return out

    def run(self):
        for key, f in sorted(self.P.fn.items()):
            if "body" not in f or self.leaf(f) or "/spec/" in (f.get("file") or ""):
                continue
            self.record, self.cur = True, f
            self.unrecorded = []
            self.decl = {}
            decls(f["body"], self.decl)
            n0 = self.res.sites
            self.block(f["body"], False, [])
            polls = 0
            if self.unrecorded:
                for l in sorted(set(self.unrecorded)):
                    self.res.sites += 1
                    self.res.violations.append(("unrecorded:%s" % f["q"].replace("gwm::", ""), "%s: stops without recording that it was cancelled" % f["q"],
                                                dict(where="%s:%s" % (rel(self.prog, f["file"]), l))))
            if self.res.sites > n0:
                self.res.functions.add(key)
        return self.res


def run(prog, tier="quick"):
    return Cancel(prog).run()
