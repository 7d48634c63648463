"""P12: no two threads of a parallel region access the same location, one of them writing."""
import os
from effects import Program, Walker

SCALAR = ("bool", "int", "unsigned", "long", "double", "float", "char", "size_t", "gwm::Status")


class Result:
    def __init__(self, rule):
        self.rule = rule
        self.sites = self.held = 0
        self.samples, self.notes, self.violations = [], [], []
        self.functions = set()


def omps(n, out):
    """outermost parallel regions"""
    if isinstance(n, dict):
        if n.get("k") == "omp" and "parallel" in n["d"]:
            out.append(n)
            return
        for v in n.values():
            omps(v, out)
    elif isinstance(n, list):
        for v in n:
            omps(v, out)


def strip(e):
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["e"]
    return e


def canon(e):
    e = strip(e)
    if isinstance(e, dict):
        return tuple(sorted((k, canon(v)) for k, v in e.items() if k not in ("l", "t", "arrow", "b" if e.get("k") == "mem" and e["b"].get("k") == "this" else "l")))
    if isinstance(e, list):
        return tuple(canon(x) for x in e)
    return e


def decls(n, out):
    if isinstance(n, dict):
        if n.get("k") == "decl":
            for d in n["d"]:
                out[d["id"]] = d
        for v in n.values():
            decls(v, out)
    elif isinstance(n, list):
        for v in n:
            decls(v, out)


class Region(Walker):
    """walks one parallel region; work-shared loops make their variable the iteration"""

    def stmt(self, s, env):
        if isinstance(s, dict) and s.get("k") == "omp":
            self.private(s, env)
            d = s["d"]
            if "for" in d.split() and s["body"].get("k") == "for":
                f = s["body"]
                collapse = any(c["c"] == "collapse" for c in s["cl"])
                if collapse:
                    self.unknown.append(("collapsed loops", f.get("l")))
                if f.get("init"):
                    super().stmt(f["init"], env)
                vs = self.loop_var(f)
                if not vs and f.get("init", {}).get("k") == "expr" and f["init"]["e"].get("k") == "asg":
                    x = strip(f["init"]["e"]["x"])
                    vs = [x["id"]] if x.get("k") == "var" else []
                for v in vs:
                    env[v] = ("priv", "iter")
                self.stmt(f["body"], env)
                return
            if "single" in d or "master" in d or "masked" in d:
                # one thread only: harmless unless others touch the same data outside
                self.unknown.append(("%s construct" % d, s.get("l")))
            if "sections" in d or "task" in d:
                self.unknown.append(("%s construct" % d, s.get("l")))
        return super().stmt(s, env)

    def private(self, s, env):
        for c in s["cl"]:
            if c["c"] in ("private", "firstprivate", "lastprivate", "reduction", "linear"):
                for e in c.get("e") or []:
                    e = strip(e)
                    if e.get("k") == "var":
                        env[e["id"]] = ("priv", "other")


def overlap(p, q):
    """can the two paths denote overlapping storage touched by different threads?  returns 'no', 'yes', 'maybe'"""
    verdict = "yes"
    for a, b in zip(p, q):
        if a[0] == "f" and b[0] == "f":
            if a[1] != b[1] and "?" not in (a[1], b[1]):
                return "no"
        elif a[0] == "ix" and b[0] == "ix":
            da, db = dict(a[1]), dict(b[1])
            for d in set(da) & set(db):
                if da[d] == db[d] and da[d] in ("iter", "thread"):
                    return "no"
                if {da[d], db[d]} & {"other"}:
                    verdict = "maybe"
            # a vector indexed both as v(i) and v.row(i)
        elif a[0] != b[0]:
            if a[0] == "deref" or b[0] == "deref":
                verdict = "maybe" if verdict == "maybe" else verdict
            break
    return verdict


def describe(a):
    r = {"var": lambda: a.root[2], "this": lambda: "this", "glob": lambda: a.root[1]}.get(a.root[0], lambda: "?")()
    for p in a.path:
        if p[0] == "f":
            r += "." + p[1]
        elif p[0] == "ix":
            r += "[" + ",".join({"iter": "own iteration", "thread": "own thread"}.get(c, c) for _, c in p[1]) + "]"
    return r.replace("this.", "")


def run(prog, tier="quick"):
    P = Program(prog)
    res = Result("in every `omp parallel` region, followed through every call (overrides, stored member pointers): each shared location that is written is "
                 "accessed only at an index of the own iteration or own thread, or under critical/atomic, or only ever receives one constant")
    regions = 0
    for key, f in sorted(P.fn.items()):
        rs = []
        omps(f.get("body"), rs)
        for r in rs:
            regions += 1
            w = Region(P)
            env = {"this": None}
            w.stack = [key]
            w.stmt(r, env)
            res.functions |= w.visited | {key}
            region(prog, P, f, r, w, res)
            threads(prog, f, r, w, res)
    if regions == 0:
        res.notes.append("no parallel region found")
    return res


def rel(prog, p):
    return os.path.relpath(p, prog["repo"]) if p and p.startswith("/") else p


def region(prog, P, f, r, w, res):
    groups = {}
    for a in w.acc:
        top = next((p[1] for p in a.path if p[0] == "f"), "") if a.root[0] == "this" else ""
        groups.setdefault((a.root, top), []).append(a)
    where = "%s:%s" % (rel(prog, f["file"]), r["l"])
    for (root, top), accs in sorted(groups.items(), key=str):
        ws = [a for a in accs if a.rw == "w"]
        if not ws:
            continue
        res.sites += 1
        name = describe(accs[0]).split("[")[0]
        bad = maybe = None
        # flags: only ever set, always to the same constant
        exempt = set()
        byloc = {}
        for a in ws:
            byloc.setdefault(tuple(p for p in a.path), []).append(a)
        for loc, l in byloc.items():
            if all(a.const is not None for a in l) and len({a.const for a in l}) == 1:
                exempt.add(loc)
            elif all((a.type or "") == "std::exception" and a.op == "=" for a in l):
                exempt.add(loc)
        for a in ws:
            if a.path in exempt:
                continue
            for b in accs:
                if b.path in exempt and b.rw == "w":
                    pass
                if a.crit and b.crit:
                    continue
                o = overlap(a.path, b.path)
                if o == "yes":
                    bad = bad or (a, b)
                elif o == "maybe":
                    maybe = maybe or (a, b)
        if bad:
            a, b = bad
            res.violations.append(("race:%s:%s" % (f["q"].replace("gwm::", ""), name),
                                   "%s: every thread of the parallel loop writes %s" % (f["q"], describe(a)),
                                   dict(region=where, write="%s in %s line %s (%s)" % (describe(a), a.fn, a.line, a.op or "="),
                                        other="%s %s in %s line %s" % ("write" if b.rw == "w" else "read", describe(b), b.fn, b.line))))
        elif maybe:
            a, b = maybe
            res.notes.append("%s: %s: index %s not understood (line %s)" % (where, f["q"], describe(a), a.line))
        else:
            res.held += 1
            if len(res.samples) < 40:
                res.samples.append("%s %s: %s" % (f["q"], where, "; ".join(sorted({describe(a) for a in ws}))[:160]))
    for u in sorted(set(map(str, w.unknown))):
        res.notes.append("%s: %s" % (where, u))


def threads(prog, f, r, w, res):
    """per-thread slots: there is one for every thread of the team"""
    used = {}
    for a in w.acc:
        for p in a.path:
            if p[0] == "ix":
                for d, c in p[1]:
                    if c == "thread" and a.root[0] == "var":
                        used[(a.root, d)] = a
    if not used:
        return
    nt = [c["e"][0] for c in r["cl"] if c["c"] == "num_threads"]
    ds = {}
    decls(f.get("body"), ds)
    for (root, d), a in sorted(used.items(), key=str):
        res.sites += 1
        dec = ds.get(root[1])
        where = "%s:%s" % (rel(prog, f["file"]), r["l"])
        init = strip(dec.get("i")) if dec else None
        args = []
        if init and init.get("k") == "ctor":
            args = init["a"]
            while len(args) == 1 and strip(args[0]).get("k") == "ctor":
                args = strip(args[0])["a"]
        if not args or d >= len(args):
            res.notes.append("%s: %s: size of the per-thread slots not found" % (where, root[2]))
            continue
        size = strip(args[d])
        if nt:
            if canon(size) == canon(nt[0]):
                res.held += 1
            elif size.get("k") == "call" and size.get("q") == "omp_get_max_threads":
                res.notes.append("%s: %s sized by omp_get_max_threads under num_threads" % (where, root[2]))
            elif size.get("k") in ("int",) or size.get("k") == "mem":
                res.violations.append(("slots:%s:%s" % (f["q"].replace("gwm::", ""), root[2]), "%s: %s has a slot count other than the number of threads" % (f["q"], root[2]),
                                       dict(region=where, declared=dec.get("l"))))
            else:
                res.notes.append("%s: %s: slot count not compared with the number of threads" % (where, root[2]))
        else:
            if size.get("k") == "call" and size.get("q") in ("omp_get_max_threads",):
                res.held += 1
            else:
                res.violations.append(("slots:%s:%s" % (f["q"].replace("gwm::", ""), root[2]),
                                       "%s: the team may have more threads than %s has slots (no num_threads clause)" % (f["q"], root[2]),
                                       dict(region=where, declared=dec.get("l"))))
