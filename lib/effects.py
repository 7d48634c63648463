"""Interprocedural read/write effects of a statement, with the index every element access uses.

A location is (root, path): root is a variable, `this`, a global or something unknown; path lists fields, element
projections (dimension -> how the index depends on the iteration) and pointer dereferences.  Calls are followed into every
body they may reach (virtual calls: every override; calls through member pointers: every function ever stored there)."""
from collections import defaultdict

PROJ = {"row": 0, "col": 1, "slice": 2, "unsafe_col": 1}
WHOLE_VIEW = {"rows", "cols", "submat", "subvec", "head", "tail", "diag", "each_row", "each_col", "each_slice", "head_rows", "tail_rows",
              "head_cols", "tail_cols", "memptr", "colptr", "slice_memptr", "begin", "end", "data", "get", "slices", "tube", "elem", "t", "st",
              "front", "back", "value", "value_or", "as_col", "as_row", "cbegin", "cend"}
PURE_CALLS = {"std::make_pair", "std::move", "std::forward", "std::min", "std::max", "std::make_tuple", "std::tie", "std::get", "std::ref", "std::begin", "std::end",
              "std::cbegin", "std::cend", "std::make_unique", "std::make_shared"}
# user supplied reporting objects: their calls are made from parallel loops by design (documented assumption)
CALLBACKS = ("gwm::ITelegram", "gwm::Logger")
THREAD_ID = {"omp_get_thread_num"}


def own(path):
    return [p for p in path if p[0] == "ix"]


class Program:
    def __init__(self, prog):
        self.p = prog
        self.fn = prog["functions"]
        self.over = defaultdict(set)
        self.stored = defaultdict(set)
        for k, f in self.fn.items():
            for o in f.get("ov", []):
                self.over[o].add(k)
        # close the override relation
        ch = True
        while ch:
            ch = False
            for o in list(self.over):
                for k in list(self.over[o]):
                    new = self.over.get(k, set()) - self.over[o]
                    if new:
                        self.over[o] |= new
                        ch = True
        self.table = defaultdict(set)       # member pointer variables
        for f in self.fn.values():
            self._stores(f.get("body"), f)
            for i in f.get("inits", []):
                self._pairs(i.get("e"), ("mem", i.get("q")))
        for c in prog["classes"].values():
            for fl in c.get("fields", []):
                if fl.get("i"):
                    self._pairs(fl["i"], ("mem", fl["q"]))

    def _addr(self, e):
        out = set()
        if isinstance(e, dict):
            if e.get("k") == "fnaddr":
                out.add(e["n"])
            for v in e.values():
                out |= self._addr(v)
        elif isinstance(e, list):
            for v in e:
                out |= self._addr(v)
        return out

    def _called(self, e):
        out = set()
        if isinstance(e, dict):
            if e.get("k") in ("call", "mcall") and e.get("fn") in self.fn and "::*" in (e.get("t") or ""):
                out.add(e["fn"])
            for v in e.values():
                out |= self._called(v)
        elif isinstance(e, list):
            for v in e:
                out |= self._called(v)
        return out

    def _pairs(self, e, tgt):
        a = self._addr(e)
        if a:
            self.stored[tgt] |= a

    def _stores(self, n, f):
        if isinstance(n, dict):
            if n.get("k") == "asg" or (n.get("k") == "op" and n.get("o") == "="):
                x, y = (n["x"], n["y"]) if n["k"] == "asg" else (n["a"][0], n["a"][-1])
                if x.get("k") == "mem":
                    a = self._addr(y)
                    if a:
                        self.stored[("mem", x["q"])] |= a
                    else:
                        # through a table: everything of matching type stored in this function
                        if "::*" in (x.get("t") or ""):
                            self.stored[("mem", x["q"])] |= self._addr(f.get("body"))
                        # or chosen by a function that returns the address
                        for c in self._called(y):
                            self.stored[("mem", x["q"])] |= self._addr(self.fn.get(c, {}).get("body"))
            for v in n.values():
                self._stores(v, f)
        elif isinstance(n, list):
            for v in n:
                self._stores(v, f)

    def targets(self, key, virt):
        out = [key] if key in self.fn else []
        if virt:
            out += sorted(k for k in self.over.get(key, ()) if k in self.fn)
        return [k for k in out if "body" in self.fn[k]], (key in self.fn)

    def pm_targets(self, fexpr):
        f = fexpr
        while f.get("k") == "cast":
            f = f["e"]
        t = set()
        if f.get("k") == "mem":
            t = self.stored.get(("mem", f["q"]), set())
        elif f.get("k") == "fnaddr":
            t = {f["n"]}
        sig = (f.get("t") or "")
        return [k for k in sorted(t) if "body" in self.fn.get(k, {})]


class Access:
    __slots__ = ("root", "path", "rw", "line", "fn", "const", "crit", "type", "name", "op")

    def __init__(self, root, path, rw, line, fn, const=None, crit=False, type=None, name="", op=None):
        self.root, self.path, self.rw, self.line, self.fn, self.const, self.crit, self.type, self.name, self.op = root, path, rw, line, fn, const, crit, type, name, op


class Walker:
    """collects the accesses of statements; env: variable id -> binding
       binding: ('priv', cls) value private to the iteration, cls in iter/thread/const/mod/other
                ('loc', root, path) alias"""

    def __init__(self, P, depth=14):
        self.P = P
        self.maxdepth = depth
        self.acc = []
        self.unknown = []
        self.visited = set()
        self.stack = []
        self.crit = 0
        self.calls = 0
        self.seen_sig = set()

    # ---- classes of index expressions
    def icls(self, e, env):
        k = e.get("k")
        if k == "cast":
            return self.icls(e["e"], env)
        if k in ("int", "bool", "flt", "enum", "zero", "null"):
            return "const"
        if k in ("var",):
            b = env.get(e["id"])
            if b is None:
                return "const"
            if b[0] == "priv":
                return b[1]
            return "const"
        if k in ("mem", "this", "gvar"):
            base = e
            while base.get("k") in ("mem", "cast"):
                base = base.get("b") or base.get("e")
            if base and base.get("k") == "var":
                b = env.get(base["id"])
                if b and b[0] == "priv":
                    return "other" if b[1] not in ("const",) else "const"
            return "const"
        if k == "bin" or (k == "op" and len(e.get("a", [])) == 2 and e.get("o") in "+-*/%"):
            x, y = (e["x"], e["y"]) if k == "bin" else e["a"]
            a, b = self.icls(x, env), self.icls(y, env)
            s = {a, b}
            if s == {"const"}:
                return "const"
            if e["o"] in ("+", "-") and "const" in s:
                r = (s - {"const"}).pop()
                return r
            if e["o"] in ("%", "/") and b == "const" and a in ("iter", "mod"):
                return "mod"
            return "other"
        if k == "cond":
            a, b = self.icls(e["x"], env), self.icls(e["y"], env)
            if a == b:
                return a
            return "const" if "const" in (a, b) else "other"
        if k == "call":
            if e.get("q") in THREAD_ID:
                return "thread"
            if all(self.icls(a, env) == "const" for a in e["a"]):
                return "const"
            return "other"
        if k == "mcall":
            if e["o"] and self.icls(e["o"], env) == "const" and all(self.icls(a, env) == "const" for a in e["a"]):
                return "const"
            return "other"
        return "other"

    # ---- locations
    def loc(self, e, env):
        """(root, path) or None for a temporary; records the accesses made while evaluating indices"""
        k = e.get("k")
        if k == "cast":
            return self.loc(e["e"], env)
        if k == "var":
            b = env.get(e["id"])
            if b is None:
                return ("var", e["id"], e["n"]), ()
            if b[0] == "priv":
                return ("priv",), ()
            return b[1], b[2]
        if k == "gvar":
            return ("glob", e["q"]), ()
        if k == "this":
            b = env.get("this")
            if b:
                return (b[1], b[2]) if b[0] == "loc" else (("priv",), ())
            return ("this",), ()
        if k == "mem":
            r = self.loc(e["b"], env)
            if r is None:
                return None
            return r[0], r[1] + (("f", e["n"]),)
        if k == "idx":
            r = self.loc(e["b"], env)
            c = self.icls(e["i"], env)
            self.expr(e["i"], env)
            if r is None:
                return None
            return r[0], r[1] + (("ix", ((0, c),)),)
        if k == "un" and e["o"] in ("*", "&"):
            r = self.loc(e["e"], env)
            if r is None:
                return None
            return r[0], r[1] + ((("deref",),) if e["o"] == "*" else ())
        if k == "un" and e["o"] in ("++", "--"):
            self.expr(e, env)
            return self.loc_quiet(e["e"], env)
        if k == "op" and e["o"] in ("()", "[]"):
            r = self.loc(e["a"][0], env)
            ix = e["a"][1:]
            cl = tuple((d, self.icls(i, env)) for d, i in enumerate(ix))
            for i in ix:
                self.expr(i, env)
            if r is None:
                return None
            return r[0], r[1] + (("ix", cl),)
        if k == "op" and e["o"] in ("*", "->") and len(e["a"]) == 1:
            r = self.loc(e["a"][0], env)
            return None if r is None else (r[0], r[1] + (("deref",),))
        if k == "op" and e["o"] in ("=", "+=", "-=", "*=", "/=", "%=", "<<", "++", "--"):
            self.expr(e, env)
            return self.loc_quiet(e["a"][0], env)
        if k == "asg":
            self.expr(e, env)
            return self.loc_quiet(e["x"], env)
        if k == "mcall":
            m = e["m"]
            if not e.get("inroot"):
                if m in PROJ or m == "at":
                    r = self.loc(e["o"], env)
                    for i in e["a"]:
                        self.expr(i, env)
                    if r is None:
                        return None
                    if m == "at":
                        cl = tuple((d, self.icls(i, env)) for d, i in enumerate(e["a"]))
                    else:
                        cl = ((PROJ[m], self.icls(e["a"][0], env)),)
                    return r[0], r[1] + (("ix", cl),)
                if m in WHOLE_VIEW:
                    r = self.loc(e["o"], env)
                    for i in e["a"]:
                        self.expr(i, env)
                    if r is None:
                        return None
                    if m in ("get",):
                        return r[0], r[1] + (("deref",),)
                    if m in ("tube",) and len(e["a"]) == 2:
                        return r[0], r[1] + (("ix", tuple((d, self.icls(i, env)) for d, i in enumerate(e["a"]))),)
                    if m in ("rows", "cols", "subvec", "slices") and len(e["a"]) == 2:
                        # a range: one element when both ends are the same own index
                        a, b = (self.icls(i, env) for i in e["a"])
                        same = self._eq(e["a"][0], e["a"][1])
                        d = {"rows": 0, "cols": 1, "subvec": 0, "slices": 2}[m]
                        if same:
                            return r[0], r[1] + (("ix", ((d, a),)),)
                        return r[0], r[1] + (("ix", ((d, "const" if a == b == "const" else "other"),)),)
                    return r[0], r[1]
            else:
                self.call(e, env)
                t = e.get("t") or ""
                if t.endswith("*") or self._ret_ref(e.get("fn")):
                    r = self.loc_quiet(e["o"], env)
                    if r is None:
                        return None
                    # what a getter returns: the field it names when it is a plain `return field`
                    fld = self._returns_field(e.get("fn"))
                    return r[0], r[1] + ((("f", fld),) if fld else (("f", "?"),))
            self.expr(e, env, skip=e.get("inroot"))
            return None
        if k == "cond":
            self.expr(e["c"], env)
            a, b = self.loc(e["x"], env), self.loc(e["y"], env)
            if a == b:
                return a
            if a and b and a[0] == ("priv",) and b[0] == ("priv",):
                return a
            if a is None and b is None:
                return None
            if a and a[0] != ("priv",):
                return a
            return b
        if k in ("int", "flt", "bool", "str", "null", "enum", "zero", "fn", "fnaddr"):
            return None
        self.expr(e, env)
        return None

    def loc_quiet(self, e, env):
        n, u = len(self.acc), len(self.unknown)
        r = self.loc(e, env)
        del self.acc[n:]
        del self.unknown[u:]
        return r

    def _eq(self, a, b):
        strip = lambda n: {k: strip(v) if isinstance(v, dict) else [strip(x) for x in v] if isinstance(v, list) else v for k, v in n.items() if k != "l"} if isinstance(n, dict) else n
        return strip(a) == strip(b)

    def _ret_ref(self, fn):
        f = self.P.fn.get(fn)
        return bool(f) and ((f.get("rpt") or "").endswith("&") or (f.get("rpt") or "").endswith("*"))

    def _returns_field(self, fn):
        f = self.P.fn.get(fn)
        b = (f or {}).get("body")
        while b and b.get("k") == "block" and len(b["s"]) == 1:
            b = b["s"][0]
        if b and b.get("k") == "ret":
            e = b.get("e")
            while e and e.get("k") == "cast":
                e = e["e"]
            if e and e.get("k") == "mem" and e["b"].get("k") == "this":
                return e["n"]
        return None

    def add(self, r, rw, e, const=None, op=None):
        if r is None or r[0] == ("priv",):
            return
        self.acc.append(Access(r[0], r[1], rw, e.get("l"), self.stack[-1] if self.stack else "", const, self.crit > 0, e.get("t"), "", op))

    # ---- expressions
    def read(self, e, env):
        r = self.loc(e, env)
        self.add(r, "r", e)

    def constval(self, e):
        while e.get("k") == "cast":
            e = e["e"]
        if e.get("k") in ("int", "bool", "flt", "enum"):
            return (e["k"], str(e.get("v")), str(e.get("n")))
        return None

    def expr(self, e, env, skip=False):
        if not isinstance(e, dict):
            return
        k = e.get("k")
        if k in ("int", "flt", "bool", "str", "null", "enum", "zero", "fn", "fnaddr", "this", "nop", None):
            return
        if k in ("var", "gvar", "mem", "idx"):
            return self.read(e, env)
        if k == "cast":
            return self.expr(e["e"], env)
        if k == "asg":
            self.expr(e["y"], env)
            r = self.loc(e["x"], env)
            self.rebind(e["x"], e["o"], e["y"], env)
            self.add(r, "w", e["x"], self.constval(e["y"]) if e["o"] == "=" else None, e["o"])
            if e["o"] == "=" and e["x"].get("k") == "var" and (e["x"].get("t") or "").endswith("*"):
                self.bind_pointer(e["x"]["id"], e["y"], env)
            return
        if k == "un":
            if e["o"] in ("++", "--"):
                r = self.loc(e["e"], env)
                self.rebind(e["e"], e["o"], None, env)
                return self.add(r, "w", e["e"], None, e["o"])
            if e["o"] == "&":
                r = self.loc(e["e"], env)
                return
            if e["o"] == "*":
                return self.read(e, env)
            return self.expr(e["e"], env)
        if k == "bin":
            self.expr(e["x"], env)
            return self.expr(e["y"], env)
        if k == "cond":
            for c in ("c", "x", "y"):
                self.expr(e[c], env)
            return
        if k == "op":
            o = e["o"]
            if o in ("()", "[]") or (o in ("*", "->") and len(e["a"]) == 1):
                return self.read(e, env)
            if o in ("=", "+=", "-=", "*=", "/=", "%=") and e["a"]:
                for a in e["a"][1:]:
                    self.expr(a, env)
                r = self.loc(e["a"][0], env)
                self.add(r, "w", e["a"][0], None, o)
                if e.get("fn") in self.P.fn:
                    self.enter(self.P.fn[e["fn"]], e["a"][1:], env, this=r or (("priv",), ()))
                return
            if o in ("++", "--"):
                r = self.loc(e["a"][0], env)
                self.rebind(e["a"][0], o, None, env)
                return self.add(r, "w", e["a"][0], None, o)
            if o == "<<" and "stream" in (e["a"][0].get("t") or ""):
                self.add(self.loc(e["a"][0], env), "w", e["a"][0], None, o)
                for a in e["a"][1:]:
                    self.expr(a, env)
                return
            for a in e["a"]:
                self.expr(a, env)
            return
        if k in ("call", "mcall", "pmcall", "ctor"):
            if not skip:
                return self.call(e, env)
            for a in e.get("a", []):
                self.expr(a, env)
            return
        if k == "init":
            for a in e["a"]:
                self.expr(a, env)
            return
        if k == "new":
            self.expr(e.get("e"), env)
            return
        if k == "del":
            r = self.loc(e["e"], env)
            if r is not None:
                self.add((r[0], r[1] + (("deref",),)), "w", e["e"], None, "delete")
            return
        if k == "throw":
            return self.expr(e.get("e"), env)
        if k == "lambda":
            env2 = dict(env)
            for p in e["p"]:
                env2[p["id"]] = ("priv", "other")
            self.stmt(e["body"], env2)
            return
        for v in e.values():
            if isinstance(v, dict):
                self.expr(v, env)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        self.expr(x, env)

    def rebind(self, x, o, y, env):
        """assignment to a private scalar changes what it says about the iteration"""
        while x.get("k") == "cast":
            x = x["e"]
        if x.get("k") == "var" and env.get(x["id"], ("",))[0] == "priv":
            c = self.icls(y, env) if (o == "=" and y is not None) else "other"
            old = env[x["id"]][1]
            env[x["id"]] = ("priv", c if c == old else "other")

    def bind_pointer(self, vid, init, env):
        e = init
        while e.get("k") == "cast":
            e = e["e"]
        if e.get("k") in ("new", "null"):
            env[vid] = ("priv", "other")
            return
        r = self.loc_quiet(e, env)
        env[vid] = ("loc", r[0], r[1] + (("deref",),)) if r is not None and r[0] != ("priv",) else ("priv", "other")

    # ---- calls
    def call(self, e, env):
        k = e["k"]
        self.calls += 1
        if k == "pmcall":
            for t in self.P.pm_targets(e["f"]):
                self.enter(self.P.fn[t], e["a"], env, this=self.loc(e["o"], env) if e.get("o") else None)
            if not self.P.pm_targets(e["f"]):
                self.unknown.append(("call through a pointer with no known target", e.get("l")))
            return
        if k == "mcall":
            cls = (e.get("q") or "").rsplit("::", 1)[0]
            if cls in CALLBACKS:
                for a in e["a"]:
                    self.expr(a, env)
                return
            if e.get("inroot"):
                o = self.loc(e["o"], env) if e.get("o") else None
                ts, known = self.P.targets(e["fn"], e.get("virt"))
                if not ts and not e.get("const"):
                    f = self.P.fn.get(e["fn"])
                    if not (f and f.get("defaulted")):
                        self.unknown.append(("no body for %s" % e["fn"], e.get("l")))
                for t in ts:
                    self.enter(self.P.fn[t], e["a"], env, this=o if o is not None else (("priv",), ()))
                if not ts:
                    for a in e["a"]:
                        self.expr(a, env)
                return
            if e["m"] in PROJ or e["m"] in WHOLE_VIEW or e["m"] == "at":
                self.read(e, env)
                return
            r = self.loc(e["o"], env)
            self.add(r, "r" if e.get("const") else "w", e["o"], None, e["m"])
            self.args(e, env)
            return
        if k == "ctor":
            f = self.P.fn.get(e.get("fn"))
            if f and "body" in f:
                self.enter(f, e["a"], env, this=(("priv",), ()))
            else:
                self.args(e, env)
            return
        f = self.P.fn.get(e.get("fn"))
        if f and "body" in f:
            self.enter(f, e["a"], env, this=None)
            return
        if e.get("q") in CALLBACKS or (e.get("q") or "").rsplit("::", 1)[0] in CALLBACKS:
            for a in e["a"]:
                self.expr(a, env)
            return
        if not e.get("q") and e.get("f"):
            self.expr(e["f"], env)
        self.args(e, env)

    def args(self, e, env):
        pt = e.get("pt") or []
        pure = e.get("q") in PURE_CALLS or e["k"] == "ctor"
        for i, a in enumerate(e["a"]):
            t = pt[i] if i < len(pt) else ""
            if not pure and t.endswith("&") and not t.endswith("&&") and not t.startswith("const ") and " const" not in t:
                r = self.loc(a, env)
                self.add(r, "w", a, None, "argument of %s" % (e.get("q") or e.get("m")))
            else:
                self.expr(a, env)

    def enter(self, f, args, env, this):
        self.visited.add(f["key"])
        if len(self.stack) >= self.maxdepth or self.stack.count(f["key"]) > 0:
            self.unknown.append(("call depth", f["q"]))
            return
        new = {}
        sig = [f["key"]]
        for i, p in enumerate(f["p"]):
            if i < len(args):
                a = args[i]
                pt = p.get("pt") or ""
                r = self.loc(a, env)
                if pt.endswith("&") or pt.endswith("*") or pt.endswith("&&"):
                    if r is not None and r[0] != ("priv",):
                        extra = (("deref",),) if pt.endswith("*") else ()
                        new[p["id"]] = ("loc", r[0], r[1] + extra)
                        if pt.endswith("&") and self.icls(a, env) in ("iter", "thread") and False:
                            pass
                    else:
                        new[p["id"]] = ("priv", self.icls(a, env))
                else:
                    self.add(r, "r", a)
                    if r is None:
                        pass
                    new[p["id"]] = ("priv", self.icls(a, env))
            else:
                new[p["id"]] = ("priv", "const")
            sig.append(str(new[p["id"]]))
        if this is None:
            new["this"] = None
        new["this"] = ("loc", this[0], this[1]) if this is not None else ("priv", "const")
        sig.append(str(new["this"]) + str(self.crit > 0))
        sig = "|".join(sig)
        if sig in self.seen_sig:
            return
        self.seen_sig.add(sig)
        self.stack.append(f["key"])
        for it in f.get("inits", []):
            if it.get("e"):
                self.expr(it["e"], new)
        self.stmt(f.get("body"), new)
        self.stack.pop()

    # ---- statements
    def declare(self, d, env):
        t = d.get("t") or ""
        init = d.get("i")
        if d.get("static") and not d.get("const"):
            env[d["id"]] = ("loc", ("glob", "static " + d["n"]), ())
            if init:
                self.expr(init, env)
            return
        if d.get("ref") and init is not None:
            r = self.loc(init, env)
            if r is not None and r[0] != ("priv",):
                env[d["id"]] = ("loc", r[0], r[1])
            else:
                env[d["id"]] = ("priv", self.icls(init, env))
            return
        if (t.endswith("*") or "subview" in t) and init is not None:
            self.expr(init, env)
            if "subview" in t:
                r = self.loc_quiet(init, env)
                env[d["id"]] = ("loc", r[0], r[1]) if r is not None and r[0] != ("priv",) else ("priv", "other")
            else:
                self.bind_pointer(d["id"], init, env)
            return
        cls = "other"
        if init is not None:
            self.expr(init, env)
            if not any(x in t for x in ("vec", "mat", "cube", "::")):
                cls = self.icls(init, env)
            if cls == "const":
                cls = "const" if d.get("const") else "other"
        env[d["id"]] = ("priv", cls)

    def stmt(self, s, env):
        if not isinstance(s, dict):
            return
        k = s.get("k")
        if k == "block":
            for x in s["s"]:
                self.stmt(x, env)
        elif k == "decl":
            for d in s["d"]:
                self.declare(d, env)
        elif k == "expr":
            self.expr(s["e"], env)
        elif k == "if":
            self.expr(s["c"], env)
            self.stmt(s.get("x"), env)
            self.stmt(s.get("y"), env)
        elif k == "for":
            self.stmt(s.get("init"), env)
            v = self.loop_var(s)
            for d in v:
                env[d] = ("priv", "other")
            self.expr(s.get("c"), env) if s.get("c") else None
            self.stmt(s.get("body"), env)
            if s.get("inc"):
                self.expr(s["inc"], env)
        elif k in ("while", "do"):
            self.expr(s["c"], env)
            self.stmt(s["body"], env)
        elif k == "rfor":
            self.expr(s["r"], env)
            v = s["v"]
            r = self.loc_quiet(s["r"], env)
            if v.get("ref") and r is not None and r[0] != ("priv",):
                env[v["id"]] = ("loc", r[0], r[1] + (("ix", ((0, "other"),)),))
            else:
                env[v["id"]] = ("priv", "other")
            self.stmt(s["body"], env)
        elif k == "switch":
            self.expr(s["c"], env)
            self.stmt(s["body"], env)
        elif k in ("case", "default"):
            self.stmt(s["s"], env)
        elif k == "ret":
            if s.get("e"):
                self.expr(s["e"], env)
        elif k == "try":
            self.stmt(s["body"], env)
            for h in s["h"]:
                if h.get("v"):
                    env[h["v"]["id"]] = ("priv", "other")
                elif h.get("id") is not None:
                    env[h["id"]] = ("priv", "other")
                self._catch_ids(h, env)
                self.stmt(h["body"], env)
        elif k == "omp":
            d = s["d"]
            if "critical" in d or "atomic" in d:
                self.crit += 1
                self.stmt(s["body"], env)
                self.crit -= 1
            else:
                self.stmt(s["body"], env)
        elif k in ("break", "continue", "nop", None):
            pass
        else:
            self.expr(s, env)

    def _catch_ids(self, h, env):
        for key in ("p", "d", "var"):
            v = h.get(key)
            if isinstance(v, dict) and "id" in v:
                env[v["id"]] = ("priv", "other")

    @staticmethod
    def loop_var(s):
        i = s.get("init")
        if i and i.get("k") == "decl":
            return [d["id"] for d in i["d"]]
        return []
