"""P29: every allocation has exactly one owner that releases it exactly once; nothing is used after release.

A path-sensitive typestate analysis of every function.  A state maps pointer variables and owning members to null,
uninitialised, a token (an object allocated here, the object an owning member held on entry, what a parameter points to)
or something borrowed, and each token to owned or released.  Owning members are the ones a destructor of the class deletes.
Parameters that may denote the object itself or what one of its owning members points to are analysed both ways."""
import re
from effects import Program
from races import Result, rel, strip

N, U, B = ("N",), ("U",), ("B",)
LIMIT = 400


def is_ptr(t):
    return bool(t) and t.rstrip().endswith("*") and "(" not in t


class State:
    __slots__ = ("env", "tok")

    def __init__(self, env=None, tok=None):
        self.env, self.tok = dict(env or {}), dict(tok or {})

    def copy(self):
        return State(self.env, self.tok)

    def key(self):
        return (frozenset(self.env.items()), frozenset(self.tok.items()))


def dedupe(sts):
    seen = {}
    for s in sts:
        seen.setdefault(s.key(), s)
    return list(seen.values())


class Stop(Exception):
    pass


class Owner:
    def __init__(self, prog):
        self.prog = prog
        self.P = Program(prog)
        self.fn = self.P.fn
        self.cls = prog["classes"]
        self.res = Result("on every path of every function each object obtained from new, a cloning function or a gsl allocator is released exactly once by the matching release or ends up "
                          "in exactly one owning member or in the returned value; no pointer is used after what it points to was released; constructors leave owning members initialised, classes with owning "
                          "members define or delete copying, deletion through a base class is virtual")
        self.owned = {}          # class -> set of member q deleted by its destructor
        for k, f in self.fn.items():
            if f["n"].startswith("~") and "body" in f:
                for e in self.dels(f["body"]):
                    t = strip(e["e"])
                    if t.get("k") == "mem":
                        self.owned.setdefault(f["cls"], set()).add(t["q"])
        self.sums = {}
        self.reported = set()

    def dels(self, n):
        if isinstance(n, dict):
            if n.get("k") == "del":
                yield n
            for v in n.values():
                yield from self.dels(v)
        elif isinstance(n, list):
            for v in n:
                yield from self.dels(v)

    def bases(self, c):
        out = [c]
        for b in self.cls.get(c, {}).get("bases", []):
            b = b if isinstance(b, str) else b.get("q") or b.get("n")
            out += self.bases(b)
        return out

    def related(self, a, b):
        return a in self.bases(b) or b in self.bases(a)

    def fields(self, c):
        """owning members of a class, also inherited: q -> class of what it points to"""
        out = {}
        for b in self.bases(c):
            for q in self.owned.get(b, ()):
                for fl in self.cls.get(b, {}).get("fields", []):
                    if fl["q"] == q:
                        out[q] = re.sub(r"^const |[ *]+$", "", fl["pt"])
        return out

    def summary(self, key):
        """what a call returns ('own' object, 'borrow', 'field:q'), which owning members of the object it may replace, which parameters it takes over"""
        if key in self.sums:
            return self.sums[key]
        self.sums[key] = {"ret": {"borrow"}, "frees": set(), "takes": set()}
        f = self.fn.get(key)
        if not f or "body" not in f:
            return self.sums[key]
        r = Run(self, f, quiet=True)
        try:
            r.go()
        except Stop:
            return self.sums[key]
        self.sums[key] = {"ret": r.rets or {"borrow"}, "frees": r.frees, "takes": r.takes}
        return self.sums[key]

    def call_summary(self, e):
        ks = self.P.targets(e["fn"], e.get("virt"))[0] if e["k"] == "mcall" else [e.get("fn")] if "body" in self.fn.get(e.get("fn"), {}) else []
        out = {"ret": set(), "frees": set(), "takes": set()}
        for k in ks:
            s = self.summary(k)
            for x in out:
                out[x] |= s[x]
        if not ks:
            out["ret"] = {"borrow"}
        return out

    def run(self):
        res = self.res
        for key, f in sorted(self.fn.items()):
            if "body" not in f:
                continue
            r = Run(self, f)
            try:
                r.go()
            except Stop as s:
                res.notes.append("%s: %s" % (key, s))
                continue
            res.sites += len(r.sites)
            bad = {b[0] for b in r.bad}
            res.held += len([s for s in r.sites if s not in bad])
            if r.sites:
                res.functions.add(key)
                res.samples.append("%s: %s: every path releases or hands over exactly once" % (rel(self.prog, f["file"]), ", ".join(sorted(map(str, r.sites)))[:160]) if not r.bad else f["q"])
            for site, msg, line in sorted(r.bad, key=str):
                self.violation("%s:%s" % (rel(self.prog, f["file"]), line), key, msg)
        self.classes()
        return res

    def violation(self, where, fn, msg):
        if (where, msg) in self.reported:
            return
        self.reported.add((where, msg))
        self.res.violations.append(("owner:%s:%s" % (fn.split('(')[0].replace('gwm::', ''), msg), "%s: %s" % (fn.split('(')[0], msg), where))

    def virtual_dtor(self, c):
        return any(m["n"].startswith("~") and m.get("virt") for b in self.bases(c) for m in self.cls.get(b, {}).get("methods", []))

    def classes(self):
        res = self.res
        for c, qs in sorted(self.owned.items()):
            if c not in self.cls:
                continue
            ms = self.cls[c]["methods"]
            for what, sel in (("copy constructor", lambda m: m.get("copyctor")), ("copy assignment", lambda m: m.get("copyasg"))):
                res.sites += 1
                got = [m for m in ms if sel(m)]
                ok = got and all(m.get("deleted") or not m.get("implicit") for m in got)
                if not got:
                    ok = not any(m["n"] == "operator=" for m in ms) if "assign" in what else False
                if ok:
                    res.held += 1
                    res.samples.append("%s: %s is deleted or written" % (c, what))
                else:
                    self.violation(c, c, "the implicit %s of a class that owns %s shares the owned object between two owners" % (what, ", ".join(sorted(q.split("::")[-1] for q in qs))))
        seen = set()
        for key, f in sorted(self.fn.items()):
            for e in self.dels(f.get("body")):
                t = re.sub(r"^const |[ *]+$", "", strip(e["e"]).get("t") or "")
                if (t, key) in seen or not self.cls.get(t, {}).get("poly"):
                    continue
                seen.add((t, key))
                self.dtor(t, "%s:%s" % (rel(self.prog, f["file"]), e["l"]), key)
        for c, d in sorted(self.cls.items()):
            for fl in d["fields"]:
                m = re.match(r"(?:const )?std::unique_ptr<([\w:]+)", fl["pt"])
                if m and self.cls.get(m.group(1), {}).get("poly"):
                    self.dtor(m.group(1), fl["q"], c)

    def dtor(self, t, where, key):
        self.res.sites += 1
        derived = [c for c in self.cls if c != t and t in self.bases(c)]
        if not derived or self.virtual_dtor(t):
            self.res.held += 1
            self.res.samples.append("%s: deletion through %s is virtual" % (where, t))
        else:
            self.violation(where, key, "deletion through %s, whose destructor is not virtual, of objects that may be a %s" % (t, derived[0]))


def unwrap(e):
    """through casts and parentheses that keep the pointer"""
    while isinstance(e, dict) and e.get("k") == "cast":
        e = e["e"]
    return e


class Run:
    def __init__(self, O, f, quiet=False):
        self.O, self.f, self.quiet = O, f, quiet
        self.bad = set()
        self.sites = set()
        self.rets, self.frees, self.takes = set(), set(), set()
        self.special = f.get("ctor") or f["n"].startswith("~") or f["n"] == "operator="
        self.steps = 0

    def err(self, site, msg, line):
        self.bad.add((site, msg, line))

    # ---- entry
    def entry(self):
        f, O = self.f, self.O
        c = f.get("cls")
        flds = O.fields(c) if c and not f.get("static") else {}
        st = State()
        self.roots = {"this": flds} if flds else {}
        for p in f["p"]:
            t = re.sub(r"^const |[ &*]+$", "", p["pt"])
            if t == c and flds and ("&" in p["pt"] or "*" in p["pt"]):
                self.roots[("v", p["id"])] = flds
        sts = [st]
        for root in self.roots:
            isctor = root == "this" and f.get("ctor")
            for q in flds:
                new = []
                for s in sts:
                    if isctor:
                        s.env[("f", root, q)] = U
                        new.append(s)
                        continue
                    a = s.copy()
                    t = ("fld", root, q)
                    a.env[("f", root, q)] = ("T", t)
                    a.tok[t] = "own"
                    s.env[("f", root, q)] = N
                    new += [a, s]
                sts = new
        for p in f["p"]:
            t = re.sub(r"^const |[ &*]+$", "", p["pt"])
            v = ("v", p["id"])
            if v in self.roots:
                new = []
                for s in sts:
                    s.env[("root", p["id"])] = ("OBJ", v)
                    new.append(s)
                    if not f.get("ctor"):
                        a = State({k: x for k, x in s.env.items() if not (k[0] == "f" and k[1] == v)}, {k: x for k, x in s.tok.items() if k[1] != v})
                        a.env[("root", p["id"])] = ("OBJ", "this")
                        new.append(a)
                sts = dedupe(new)
            elif "*" in p["pt"] and "(" not in p["pt"]:
                new = []
                tk = ("par", p["id"], p["n"])
                for s in sts:
                    a = s.copy()
                    a.env[v] = ("T", tk)
                    a.tok[tk] = "ext"
                    s.env[v] = N
                    new += [s, a]
                    if t in O.cls and not f.get("ctor") and not f.get("access"):
                        for q, ft in flds.items():
                            if O.related(t, ft) and s.env[("f", "this", q)] != N:
                                b = s.copy()
                                b.env[v] = s.env[("f", "this", q)]
                                new.append(b)
                sts = dedupe(new)
            elif p["pt"].rstrip().endswith("&") and not p["pt"].rstrip().endswith("&&") and t in O.cls and any(O.related(t, ft) for ft in flds.values()) and not f.get("ctor"):
                new = []
                for s in sts:
                    new.append(s)
                    for q, ft in flds.items():
                        if O.related(t, ft) and s.env[("f", "this", q)] != N:
                            b = s.copy()
                            b.env[("ref", p["id"])] = s.env[("f", "this", q)]
                            new.append(b)
                sts = dedupe(new)
        return sts

    def go(self):
        f = self.f
        sts = self.entry()
        for i in f.get("inits") or []:
            if i.get("e") is None:
                continue
            new = []
            for s in sts:
                for v, t in self.ev(i["e"], s):
                    k = ("f", "this", i.get("q"))
                    if k in t.env:
                        t.env[k] = v
                    elif v[0] == "T" and t.tok.get(v[1]) == "own" and v[1][0] == "new":
                        t.tok[v[1]] = "given"
                    new.append(t)
            sts = dedupe(new)
        outs = self.stmt(f["body"], sts)
        for kind, s in outs:
            if kind in ("next", "ret", "throw"):
                self.leave(kind, s)

    def leave(self, kind, s, line=None):
        f = self.f
        dtor = f["n"].startswith("~")
        held = {}
        ret = s.env.get("ret")
        how = {"next": "", "ret": "", "throw": " when an exception leaves the function"}[kind]
        for root in self.roots:
            if kind == "throw" and root == "this" and f.get("ctor"):
                continue
            for q in self.roots[root]:
                if ("f", root, q) not in s.env:
                    continue
                v = s.env[("f", root, q)]
                name = q.split("::")[-1]
                if dtor and root == "this":
                    continue
                self.sites.add(name)
                if v == U:
                    self.err(name, "leaves the owning member %s uninitialised%s" % (name, how), f["l"])
                elif v[0] == "T":
                    st = s.tok.get(v[1])
                    if st == "free":
                        self.err(name, "leaves the owning member %s pointing to a released object%s" % (name, how), f["l"])
                    elif st == "ext" and (f.get("access") or 0) != 0:
                        self.takes.add([p["id"] for p in f["p"]].index(v[1][1]))
                    elif st == "ext":
                        self.err(name, "the owning member %s takes an object that the caller still owns" % name, f["l"])
                    elif v[1] in held and held[v[1]] != (root, q):
                        self.err(name, "two owning members hold the same object (%s)%s" % (name, how), f["l"])
                    held[v[1]] = (root, q)
                elif v == B:
                    self.err(name, "the owning member %s takes an object owned elsewhere" % name, f["l"])
        if kind == "ret" and ret is not None:
            if ret[0] == "T":
                t, st = ret[1], s.tok.get(ret[1])
                if st == "free":
                    self.err(str(t), "returns a pointer to a released object", s.env.get("retl", f["l"]))
                elif t[0] == "fld" and t in held:
                    self.rets.add("field:" + held[t][1])
                elif st == "own":
                    self.rets.add("own")
                    if t in held:
                        self.rets.discard("own")
                        self.rets.add("field:" + held[t][1])
                    held[t] = "ret"
                else:
                    self.rets.add("borrow")
            elif ret == N:
                self.rets.add("null")
            else:
                self.rets.add("borrow")
        for t, st in s.tok.items():
            if st == "own" and t not in held:
                if t[0] == "fld" and t[1] != "this" and kind == "throw":
                    pass
                if t[0] == "fld" and dtor:
                    self.err(t[2].split("::")[-1], "the destructor does not release %s on some path" % t[2].split("::")[-1], f["l"])
                elif t[0] in ("fld", "fld2"):
                    self.err(t[2].split("::")[-1], "drops the object the owning member %s held without releasing it%s" % (t[2].split("::")[-1], how), f["l"])
                else:
                    self.err(t[1:3], "the object obtained by %s is not released%s" % (t[1], how), t[2])
            if t[0] == "fld" and t[1] == "this" and (st != "own" or t not in held):
                self.frees.add(t[2])
            if t[0] == "par" and st in ("free", "given"):
                self.takes.add([p["id"] for p in f["p"]].index(t[1]))

    # ---- statements
    def stmt(self, n, sts):
        """list of (kind, state)"""
        self.steps += 1
        if not sts or n is None:
            return [("next", s) for s in sts]
        if len(sts) > LIMIT or self.steps > 40000:
            raise Stop("too many ownership states")
        k = n.get("k")
        if k == "block" or k == "init" and "s" in n:
            outs, cur = [], sts
            scope = []
            for x in n["s"]:
                new = []
                for kind, s in self.stmt(x, cur):
                    (new if kind == "next" else outs).append(s if kind == "next" else (kind, s))
                cur = dedupe(new)
            return outs + [("next", s) for s in cur]
        if k == "decl":
            for d in n["d"]:
                new = []
                for s in sts:
                    if d.get("i") is not None:
                        for v, t in self.throwing(d["i"], s):
                            self.bind(d, v, t)
                            new.append(t)
                    else:
                        if is_ptr(d.get("t")):
                            s = s.copy()
                            s.env[("v", d["id"])] = U
                        new.append(s)
                sts = dedupe(new)
            return self.flush() + [("next", s) for s in sts]
        if k == "expr":
            if (unwrap(n["e"]) or {}).get("k") == "throw":
                return self.stmt(unwrap(n["e"]), sts)
            return self.flush() + self.evs(n["e"], sts)
        if k == "if":
            pre = []
            outs = []
            if n.get("i"):
                pre = self.stmt(n["i"], sts)
                sts = dedupe([s for kd, s in pre if kd == "next"])
                outs += [o for o in pre if o[0] != "next"]
            tt, ff = [], []
            for s in sts:
                a, b = self.cond(n["c"], s)
                tt += a
                ff += b
            outs += self.flush()
            outs += self.stmt(n["x"], dedupe(tt))
            outs += self.stmt(n["y"], dedupe(ff)) if n.get("y") else [("next", s) for s in dedupe(ff)]
            return self.merge(outs)
        if k in ("for", "while", "do", "rfor"):
            outs = []
            if n.get("i") and isinstance(n["i"], dict):
                r = self.stmt(n["i"], sts)
                outs += [o for o in r if o[0] != "next"]
                sts = [s for kd, s in r if kd == "next"]
            if k == "rfor" and n.get("e"):
                sts = [t for s in sts for _, t in self.ev(n["e"], s)]
            seen = {}
            work = dedupe(sts)
            exits = []
            first = k == "do"
            body = n.get("body") or n.get("b") or n.get("s")
            while work:
                if len(seen) > LIMIT:
                    raise Stop("too many ownership states in a loop")
                cur = []
                for s in work:
                    if s.key() in seen and not first:
                        continue
                    seen[s.key()] = s
                    cur.append(s)
                if not cur:
                    break
                if not first and n.get("c"):
                    tt = []
                    for s in cur:
                        a, b = self.cond(n["c"], s)
                        tt += a
                        exits += b
                elif not first:
                    tt = cur
                    if k == "rfor":
                        exits += cur
                else:
                    tt = cur
                first = False
                nxt = []
                for kind, s in self.stmt(body, dedupe(tt)):
                    if kind in ("next", "cont"):
                        nxt.append(s)
                    elif kind == "break":
                        exits.append(s)
                    else:
                        outs.append((kind, s))
                step = n.get("u") or n.get("inc") or n.get("st")
                if step:
                    nxt = [t for s in nxt for _, t in self.ev(step, s)]
                work = dedupe(nxt)
                if k == "do":
                    tt2 = []
                    for s in work:
                        a, b = self.cond(n["c"], s) if n.get("c") else ([s], [])
                        tt2 += a
                        exits += b
                    work = [s for s in dedupe(tt2) if s.key() not in seen]
                    for s in work:
                        seen[s.key()] = s
                    first = True
            return self.merge(self.flush() + outs + [("next", s) for s in dedupe(exits)])
        if k == "omp":
            return self.stmt(n["body"], sts)
        if k == "try":
            r = self.stmt(n["body"], sts)
            thrown = dedupe([s for kd, s in r if kd == "throw"])
            outs = [o for o in r if o[0] != "throw"]
            for h in n["h"]:
                outs += self.stmt(h.get("body") or h.get("b"), thrown)
            # a throw may also happen where nothing of interest is held
            return self.merge(outs)
        if k == "ret":
            outs = []
            if n.get("e") is None:
                return [("ret", s) for s in sts]
            for s in sts:
                for v, t in self.ev(n["e"], s):
                    t = t.copy()
                    if is_ptr(self.f.get("rt")):
                        t.env["ret"] = v
                        t.env["retl"] = n["l"]
                    elif v[0] == "T" and v[1][0] == "new" and t.tok.get(v[1]) == "own":
                        t.tok[v[1]] = "given"       # into a returned owner
                    outs.append(("ret", t))
            return self.flush() + outs
        if k == "throw":
            return [("throw", t) for s in sts for _, t in (self.ev(n["e"], s) if n.get("e") else [(B, s)])]
        if k in ("break",):
            return [("break", s) for s in sts]
        if k in ("continue",):
            return [("cont", s) for s in sts]
        if k == "switch":
            sts = [t for s in sts for _, t in self.ev(n.get("c") or n.get("e"), s)]
            body = n.get("body") or n.get("b")
            items = body["s"] if body.get("k") == "block" else [body]
            outs, cur, exits = [], [], []
            default = False
            for x in items:
                lab = x
                while isinstance(lab, dict) and lab.get("k") in ("case", "default"):
                    default |= lab["k"] == "default"
                    cur = dedupe(cur + sts)
                    lab = lab.get("s") or lab.get("b")
                    if isinstance(lab, list):
                        lab = {"k": "block", "s": lab, "l": x.get("l")}
                nxt = []
                for kind, s in self.stmt(lab, cur):
                    if kind == "next":
                        nxt.append(s)
                    elif kind == "break":
                        exits.append(s)
                    else:
                        outs.append((kind, s))
                cur = dedupe(nxt)
            return self.merge(outs + [("next", s) for s in dedupe(cur + exits + ([] if default else sts))])
        if k in ("case", "default"):
            b = n.get("s") or n.get("b")
            return self.stmt({"k": "block", "s": b, "l": n.get("l")} if isinstance(b, list) else b, sts)
        if k == "nop":
            return [("next", s) for s in sts]
        # anything else is an expression used as a statement
        return self.flush() + self.evs(n, sts)

    def merge(self, outs):
        seen, res = set(), []
        for kind, s in outs:
            k = (kind, s.key())
            if k not in seen:
                seen.add(k)
                res.append((kind, s))
        return res

    pend = None

    def flush(self):
        out, self.pend = [("throw", s) for s in (self.pend or [])], None
        return out

    def evs(self, e, sts):
        new = []
        for s in sts:
            for v, t in self.ev(e, s):
                if v[0] == "T" and v[1][0] == "new" and t.tok.get(v[1]) == "own" and not any(x == v for x in t.env.values()):
                    self.err(v[1][1:3], "the object obtained by %s is discarded without being released" % v[1][1], v[1][2])
                    t = t.copy()
                    t.tok[v[1]] = "given"
                new.append(t)
        return self.flush() + [("next", s) for s in dedupe(new)]

    def throwing(self, e, s):
        return self.ev(e, s)

    def bind(self, d, v, t):
        ty = d.get("pt") or d.get("t") or ""
        if is_ptr(d.get("t")):
            t.env[("v", d["id"])] = v
        elif v[0] == "T" and v[1][0] == "new" and t.tok.get(v[1]) == "own":
            t.tok[v[1]] = "given"
        if ty.rstrip().endswith("&") and v[0] in ("T", "A"):
            t.env[("ref", d["id"])] = v

    # ---- expressions
    def lkey(self, e, s):
        e = unwrap(e)
        if e.get("k") == "var" and is_ptr(e.get("t")):
            return ("v", e["id"])
        if e.get("k") == "mem":
            b = unwrap(e["b"])
            if b.get("k") == "un" and b["o"] == "*":
                b = unwrap(b["e"])
            root = None
            if b.get("k") == "this":
                root = "this"
            elif b.get("k") == "var":
                o = s.env.get(("root", b["id"]))
                root = o[1] if o else None
            if root is not None:
                k = ("f", root, e["q"])
                if k in s.env:
                    return k
                if root == "this" and is_ptr(e.get("t")):
                    return ("m", e["q"])
        return None

    def use(self, v, e, s, what):
        if v[0] == "T" and s.tok.get(v[1]) == "free":
            self.err(str(v[1]), "%s an object after it was released" % what, e.get("l"))
        elif v[0] == "D":
            self.err(str(v[1]), "%s an object that %s has replaced" % (what, v[1]), e.get("l"))
        elif v == U:
            self.err(str(e.get("l")), "%s an uninitialised pointer" % what, e.get("l"))
        elif v == N and self.special and what == "uses" and unwrap(e.get("o") or e.get("b") or e.get("e") or {}).get("k") == "mem":
            self.err(str(e.get("l")), "uses an owning member that may be null", e.get("l"))

    def seq(self, es, s):
        out = [([], s)]
        for e in es:
            nxt = []
            for vs, t in out:
                for v, t2 in self.ev(e, t):
                    nxt.append((vs + [v], t2))
            out = nxt
            if len(out) > LIMIT:
                raise Stop("too many ownership states in an expression")
        return out

    def ev(self, e, s):
        self.steps += 1
        if self.steps > 60000:
            raise Stop("too many ownership states")
        if not isinstance(e, dict):
            return [(B, s)]
        k = e.get("k")
        if k in ("null", "zero"):
            return [(N, s)]
        if k == "int" and e.get("v") in (0, "0"):
            return [(N, s)]
        if k == "this":
            return [(("OBJ", "this"), s)]
        if k == "var":
            if ("root", e["id"]) in s.env:
                return [(s.env[("root", e["id"])], s)]
            if ("v", e["id"]) in s.env:
                return [(s.env[("v", e["id"])], s)]
            if ("ref", e["id"]) in s.env:
                return [(s.env[("ref", e["id"])], s)]
            return [(B, s)]
        if k == "cast":
            return self.ev(e["e"], s)
        if k == "mem":
            key = self.lkey(e, s)
            if key is not None and key in s.env:
                return [(s.env[key], s)]
            out = []
            for v, t in self.ev(e["b"], s):
                if e.get("arrow"):
                    self.use(v, e, t, "uses")
                out.append((B, t))
            return out
        if k == "un":
            out = []
            if e["o"] == "&":
                b = unwrap(e["e"])
                if b.get("k") == "var" and ("root", b["id"]) in s.env:
                    return [(s.env[("root", b["id"])], s)]
                if b.get("k") == "var" and ("ref", b["id"]) in s.env:
                    return [(s.env[("ref", b["id"])], s)]
                return [(B, t) for _, t in self.ev(b, s)]
            for v, t in self.ev(e["e"], s):
                if e["o"] == "*":
                    self.use(v, e, t, "uses")
                    out.append((v, t))
                else:
                    out.append((B, t))
            return out
        if k == "new":
            out = []
            for _, t in self.ev(e["e"], s) if e.get("e") else [(B, s)]:
                for sub in ("n", "size"):
                    if isinstance(e.get(sub), dict):
                        for _, t2 in self.ev(e[sub], t):
                            t = t2
                out.append(self.alloc("new" + ("[]" if e.get("array") else ""), e, t))
            return out
        if k == "del":
            out = []
            for v, t in self.ev(e["e"], s):
                t = t.copy()
                self.release(v, "new" + ("[]" if e.get("array") else ""), e, t)
                out.append((B, t))
            return out
        if k == "asg" or (k == "op" and e.get("o") == "=" and len(e.get("a", [])) == 2 and is_ptr(e["a"][0].get("t"))):
            x, y = (e["x"], e["y"]) if k == "asg" else e["a"]
            out = []
            for v, t in self.ev(y, s):
                key = self.lkey(x, t)
                if key is None:
                    for _, t2 in self.ev(x, t):
                        if v[0] == "T" and t2.tok.get(v[1]) == "own" and v[1][0] == "new" and is_ptr(x.get("t")):
                            t2 = t2.copy()
                            t2.tok[v[1]] = "given"
                        out.append((v, t2))
                    continue
                t = t.copy()
                if key[0] == "m":
                    if v[0] == "T" and t.tok.get(v[1]) == "own" and v[1][0] == "new":
                        self.err(v[1][1:3], "the object obtained by %s is stored in %s, which no destructor releases" % (v[1][1], key[1].split("::")[-1]), e["l"])
                        t.tok[v[1]] = "given"
                    out.append((v, t))
                    continue
                t.env[key] = v
                self.lost(t, e)
                out.append((v, t))
            return out
        if k == "cond":
            a, b = self.cond(e["c"], s)
            return [r for t in a for r in self.ev(e["x"], t)] + [r for t in b for r in self.ev(e["y"], t)]
        if k == "bin" and e["o"] in ("&&", "||", "==", "!="):
            a, b = self.cond(e, s)
            return [(B, t) for t in dedupe(a + b)]
        if k in ("call", "mcall", "ctor", "pmcall", "op"):
            return self.call(e, s)
        if k == "lambda":
            return [(B, s)]
        subs = [v for x in e.values() for v in (x if isinstance(x, list) else [x]) if isinstance(v, dict) and "k" in v]
        out = []
        for vs, t in self.seq(subs, s):
            if k in ("init", "lambda"):
                t = t.copy()        # gathered in an aggregate: no longer followed
                for v in vs:
                    if v[0] == "T" and t.tok.get(v[1]) == "own" and v[1][0] == "new":
                        t.tok[v[1]] = "given"
                        self.sites.discard(v[1][1:3])
            out.append((B, t))
        return out

    def alloc(self, how, e, s):
        t = s.copy()
        tk = ("new", how, e["l"], e.get("nt") or e.get("q") or "")
        self.sites.add(tk[1:3])
        if t.tok.get(tk) == "own":
            # the previous object of this site: still held by a variable?
            if any(v == ("T", tk) for kk, v in t.env.items()):
                tk2 = tk + ("'",)
                t.tok[tk2] = t.tok[tk]
                for kk in list(t.env):
                    if t.env[kk] == ("T", tk):
                        t.env[kk] = ("T", tk2)
        t.tok[tk] = "own"
        return (("T", tk), t)

    def lost(self, t, e):
        vals = set(v[1] for v in t.env.values() if v[0] == "T")
        for tk, st in list(t.tok.items()):
            if st == "own" and tk not in vals:
                name = tk[2].split("::")[-1] if tk[0] in ("fld", "fld2") else "obtained by %s" % tk[1]
                self.err(tk[1:3] if tk[0] == "new" else name, "the only pointer to the object %s is overwritten before it is released" % name, e["l"])
                t.tok[tk] = "given"
                if tk[0] == "fld" and tk[1] == "this":
                    self.frees.add(tk[2])

    def release(self, v, how, e, t):
        if v[0] == "T":
            st = t.tok.get(v[1])
            if st == "free":
                self.err(str(v[1]), "releases an object twice", e["l"])
            elif st == "ext":
                self.takes.add([p["id"] for p in self.f["p"]].index(v[1][1]) if v[1][0] == "par" else -1)
            elif v[1][0] == "new":
                got = v[1][1]
                want = got if not got.startswith("gsl_") else got.replace("_alloc", "_free")
                if got.startswith("call "):
                    pass
                elif want != how:
                    self.err(str(v[1]), "an object obtained by %s is released by %s" % (got, "delete" + how[3:] if how.startswith("new") else how), e["l"])
            t.tok[v[1]] = "free"
        elif v == U:
            self.err(str(e["l"]), "releases an uninitialised pointer", e["l"])
        elif v[0] == "D":
            self.err(str(e["l"]), "releases an object that was already replaced", e["l"])
        elif v[0] == "A":
            self.err(str(e["l"]), "releases an object owned by %s" % (v[1],), e["l"])

    def name(self, o):
        o = unwrap(o)
        if o is None:
            return None
        if o.get("k") == "mem":
            b = unwrap(o["b"])
            return o["n"] if b.get("k") == "this" else "%s.%s" % (self.name(b), o["n"])
        if o.get("k") == "var":
            return o["n"]
        if o.get("k") == "this":
            return "this"
        if o.get("k") in ("op", "idx", "mcall"):
            return None
        return None

    def call(self, e, s):
        k = e["k"]
        q = e.get("q") or ""
        m = re.match(r"(?:std::)?(gsl_\w+)_alloc$", q)
        args = list(e.get("a") or [])
        obj = e.get("o") if k == "mcall" else None
        if k == "op" and args and e.get("fn") in self.O.fn:
            obj, args = args[0], args[1:]
        if k == "pmcall":
            return [(B, t) for _, t in self.seq([x for x in [e.get("o")] + args if isinstance(x, dict)], s)]
        subs = ([obj] if isinstance(obj, dict) else []) + args
        out = []
        if k == "call" and q in ("std::swap",) and len(args) == 2:
            ka, kb = self.lkey(args[0], s), self.lkey(args[1], s)
            if ka in s.env and kb in s.env:
                t = s.copy()
                t.env[ka], t.env[kb] = t.env[kb], t.env[ka]
                return [(B, t)]
        for vs, t in self.seq(subs, s):
            if isinstance(obj, dict):
                ov = vs[0]
                if e.get("arrow") or ov[0] in ("T", "D") and not is_ptr(obj.get("t")):
                    if k == "mcall":
                        self.use(ov, e, t, "uses")
                avs = vs[1:]
            else:
                avs = vs
            if k == "call" and q in ("std::move", "std::forward", "std::exchange"):
                if q == "std::exchange" and len(args) == 2:
                    key = self.lkey(args[0], t)
                    if key in t.env:
                        old = t.env[key]
                        t = t.copy()
                        t.env[key] = avs[1]
                        out.append((old, t))
                        continue
                out.append((avs[0] if avs else B, t))
                continue
            if m:
                out.append(self.alloc(m.group(1) + "_alloc", e, t))
                continue
            if re.match(r"gsl_\w+_free$", q):
                t = t.copy()
                self.release(avs[0], q, e, t)
                out.append((B, t))
                continue
            for a, v in zip(args, avs):
                self.use(v, e, t, "passes on")
            sm = self.O.call_summary(e) if e.get("inroot") or e.get("fn") in self.O.fn else None
            if sm is None:
                # a container or standard owner: takes what it is given
                if k in ("ctor", "mcall", "op") or q.startswith("std::"):
                    t = t.copy()
                    for v in avs:
                        if v[0] == "T" and t.tok.get(v[1]) == "own" and v[1][0] == "new":
                            t.tok[v[1]] = "given"
                            mm = re.search(r"unique_ptr<[^<>]*\[\]", e.get("t") or e.get("cls") or "")
                            if "unique_ptr" in str(e.get("t") or e.get("cls")) and bool(mm) != v[1][1].endswith("[]"):
                                self.err(str(v[1]), "an object obtained by %s is given to a smart pointer that releases it with the other form" % v[1][1], e["l"])
                if k == "mcall" and e.get("m") == "release" and "unique_ptr" in str((obj or {}).get("t")):
                    out.append(self.alloc("call release", e, t))
                    continue
                out.append((avs[0] if k == "ctor" and len(avs) == 1 and is_ptr(e.get("t")) else B, t))
                continue
            for i, p in enumerate((self.O.fn.get(e.get("fn")) or {}).get("p", [])):
                if p["pt"].rstrip().endswith("*&") or p["pt"].rstrip().endswith("**"):
                    raise Stop("a pointer is handed to %s by reference" % e.get("fn"))
            if sm["takes"]:
                t = t.copy()
                for i, v in enumerate(avs):
                    if i in sm["takes"]:
                        if v[0] == "T" and t.tok.get(v[1]) == "own":
                            t.tok[v[1]] = "given"
                        elif v[0] in ("B", "A", "D") or v[0] == "T":
                            self.err(str(e["l"]), "hands over an object it does not own to %s" % (e.get("m") or q), e["l"])
            if sm["frees"] and isinstance(obj, dict) and unwrap(obj).get("k") in ("this", "var"):
                o = vs[0]
                root = o[1] if o[0] == "OBJ" else None
                hit = [("f", root, fq) for fq in sm["frees"] if ("f", root, fq) in t.env]
                if hit:
                    alts = [t.copy()]
                    for key in hit:
                        nx = []
                        for a in alts:
                            v = a.env[key]
                            if v[0] == "T":
                                a.tok[v[1]] = "free"
                            b = a.copy()
                            tk = ("fld2", root, key[2], e["l"])
                            a.env[key] = ("T", tk)
                            a.tok[tk] = "own"
                            b.env[key] = N
                            nx += [a, b]
                        alts = nx
                    for a in alts:
                        out.append((B, a))
                        if self.may_throw(e):
                            self.pend = (self.pend or []) + [a.copy()]
                    continue
            on = self.name(obj) if obj is not None else None
            if sm["frees"] and on:
                t = t.copy()
                for kk, v in list(t.env.items()):
                    if v[0] == "A" and v[1] == on and v[2] in sm["frees"] and not any(a == v for a in avs):
                        t.env[kk] = ("D", "%s.%s" % (on, e.get("m") or e.get("o")))
            if self.may_throw(e):
                th = t.copy()
                self.pend = (self.pend or []) + [th]
            rt = e.get("t") or ""
            if not is_ptr(rt):
                out.append((B, t))
                continue
            for r in sorted(sm["ret"]) or ["borrow"]:
                if r == "own":
                    out.append(self.alloc("call %s" % (e.get("m") or q), e, t))
                elif r == "null":
                    out.append((N, t.copy()))
                elif r.startswith("field:") and on:
                    out.append((("A", on, r[6:]), t))
                else:
                    out.append((B, t))
        return out

    def may_throw(self, e):
        return False

    # ---- conditions
    def cond(self, c, s):
        c = unwrap(c)
        k = c.get("k")
        if k == "un" and c["o"] == "!":
            a, b = self.cond(c["e"], s)
            return b, a
        if k == "bin" and c["o"] == "&&":
            a, b = self.cond(c["x"], s)
            t, f = [], list(b)
            for x in a:
                p, q = self.cond(c["y"], x)
                t += p
                f += q
            return dedupe(t), dedupe(f)
        if k == "bin" and c["o"] == "||":
            a, b = self.cond(c["x"], s)
            t, f = list(a), []
            for x in b:
                p, q = self.cond(c["y"], x)
                t += p
                f += q
            return dedupe(t), dedupe(f)
        if k == "bool":
            return ([s], []) if c.get("v") in (True, "true", 1) else ([], [s])
        if k in ("bin", "op") and c.get("o") in ("==", "!="):
            x, y = (c["x"], c["y"]) if k == "bin" else (c["a"] + [{"k": "null"}])[:2]
            eq, ne = [], []
            for (v, w), t in [((vs[0], vs[1]), t) for vs, t in self.seq([x, y], s)]:
                r = self.same(v, w)
                if r is not False:
                    eq.append(t)
                if r is not True:
                    ne.append(t)
            eq, ne = dedupe(eq), dedupe(ne)
            return (eq, ne) if c["o"] == "==" else (ne, eq)
        tt, ff = [], []
        for v, t in self.ev(c, s):
            if v == N and is_ptr(c.get("t")):
                ff.append(t)
            elif v[0] == "T" and is_ptr(c.get("t")):
                tt.append(t)
            else:
                tt.append(t)
                ff.append(t)
        return dedupe(tt), dedupe(ff)

    def same(self, v, w):
        if v[0] == "OBJ" and w[0] == "OBJ":
            return v[1] == w[1]
        if v == N and w == N:
            return True
        if {v[0], w[0]} == {"N", "T"}:
            return False
        if v[0] == "T" and w[0] == "T":
            return v[1] == w[1]
        fresh = [x for x in (v, w) if x[0] == "T" and x[1][0] == "new"]
        if fresh:
            return False
        return None


class Thrower:
    """which calls may end with an exception thrown by a throw statement"""

    def __init__(self, O):
        from contain import Contain
        self.C = Contain(O.prog)

    def __call__(self, e):
        if e["k"] not in ("mcall", "call", "op", "ctor"):
            return False
        return any(self.C.lets_through(t) for t in self.C.callees(e))


def run(prog, tier="quick"):
    O = Owner(prog)
    th = Thrower(O)
    Run.may_throw = lambda self, e: th(e)
    return O.run()
