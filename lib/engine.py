"""Gated value numbering over the library's syntax trees.

Every function is abstracted, statement by statement, into a store of normal forms: at joins the values are
merged with the branch condition (gated SSA), loops are solved as recurrences, calls are summarised in place.
There is one abstract store per program point - no path enumeration, no concrete evaluation, no solver."""
import sys
from values import *
import terms as T
sys.setrecursionlimit(20000)

SCALAR_INT = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "bool", "signed char", "unsigned char"}
SCALAR_FLT = {"double", "float", "long double"}
UNSIGNED = {"unsigned int", "unsigned long", "unsigned long long", "unsigned short", "unsigned char", "bool"}
TEN = {"mat": 2, "vec": 2, "rowvec": 2, "umat": 2, "uvec": 2, "urowvec": 2, "imat": 2, "ivec": 2, "cube": 3, "ucube": 3, "fmat": 2, "fvec": 2}
TINT = {"umat", "uvec", "urowvec", "imat", "ivec", "ucube"}


class Give(Exception):
    """analysis cannot represent this construct: result unknown"""


class Engine:
    MAXDEPTH = 60
    UNROLL = 8

    def __init__(self, prog, mode="value", opaque=()):
        self.p = prog
        self.F = prog["functions"]
        self.CLS = prog["classes"]
        self.mode = mode              # value | fail
        self.guards = []              # conditions of the enclosing if statements
        self.opaque = set(opaque)
        self.stubs = {}
        self.codes = {}
        self.nframe = 0
        self.nobj = 0
        self.depth = 0
        self.checks = []              # results of the claims' VERIFY calls
        self.notes = []
        self.loopctx = []             # enclosing symbolic loop variables
        self.omp = []                 # enclosing omp parallel loops: (threads Poly)
        self.fnstack = []
        self._boolish = {}
        self.loopdepth = 0
        self.written = None           # set of written locations (loop discovery)
        self.meta = {}                # oid -> dict(cls, origin, exact)
        self.types = {}               # loc -> declared type
        self.analysed = {}            # functions analysed -> count
        self.nadv = 0
        self.nostop = False
        self.systems = 0
        self.teams = 0
        self.fieldtypes = {}
        self.inv_sites = []
        self.steps = 0
        self.budget = None
        import arma_model
        self.model = arma_model.Model(self)
        self.subclasses = {}
        for q, c in self.CLS.items():
            for b in c.get("bases", []):
                self.subclasses.setdefault(self.cname(b), []).append(q)

    # ------------------------------------------------------------ helpers
    def cname(self, t):
        t = t.replace("const ", "").strip().rstrip("&*").strip()
        if t in self.CLS:
            return t
        if "gwm::" + t in self.CLS:
            return "gwm::" + t
        return t

    def note(self, msg, node=None):
        f = self.fnstack[-1] if self.fnstack else None
        s = "%s%s: %s" % (f["q"] if f else "", ":%s" % node.get("l") if node else "", msg)
        if len(self.notes) < 400:
            self.notes.append(s)

    def unk(self, why, t=None, node=None):
        self.note("unmodelled: " + why, node)
        return self.symbolic_unknown(why, t)

    def symbolic_unknown(self, why, t=None):
        t = (t or "").replace("const ", "")
        if t in SCALAR_INT or t in SCALAR_FLT:
            return unknown(why)
        if t in TEN:
            d = [unknown(why + ".dim") for _ in range(TEN[t])]
            if t in ("vec", "uvec"):
                d[1] = C(1)
            if t in ("rowvec",):
                d[0] = C(1)
            u = unknown(why)
            # one unknown function of the indices: a tainted opaque symbol
            return build(d, lambda *i: u)
        if t == "void":
            return VOID
        return Unk(why)

    def newoid(self, cls, origin=None, exact=True):
        self.nobj += 1
        oid = "o%d" % self.nobj
        self.meta[oid] = dict(cls=cls, origin=origin, exact=exact)
        return oid

    def symobj(self, cls, origin):
        oid = "s:" + okey(origin)
        if oid not in self.meta:
            self.meta[oid] = dict(cls=cls, origin=origin, exact=not self.subclasses.get(cls))
        return oid

    def bases(self, cls):
        c = self.CLS.get(cls)
        if not c:
            return []
        return [self.cname(b) for b in c.get("bases", [])]

    def allfields(self, cls, seen=None):
        seen = seen if seen is not None else set()
        if cls in seen or cls not in self.CLS:
            return
        seen.add(cls)
        for b in self.bases(cls):
            yield from self.allfields(b, seen)
        for f in self.CLS[cls]["fields"]:
            yield f

    def isa(self, cls, base):
        if cls == base:
            return True
        return any(self.isa(b, base) for b in self.bases(cls))

    # ------------------------------------------------------------ symbolic inputs
    def sym(self, name, t, idx=()):
        """symbolic input value of declared type t"""
        t0 = t.replace("const ", "").rstrip("&").strip()
        if t0 in SCALAR_FLT:
            return leaf(name, idx)
        if t0 == "bool":
            return leaf(name, idx, boolean=True)
        if t0 in SCALAR_INT or t0 in self.p["enums"] or "gwm::" + t0 in self.p["enums"]:
            return leaf(name, idx, isint=True)
        if t0 in TEN:
            d = [leaf(name + ".n_rows", idx, isint=True), leaf(name + ".n_cols", idx, isint=True), leaf(name + ".n_slices", idx, isint=True)][:TEN[t0]]
            if t0 in ("vec", "uvec"):
                d[1] = C(1)
            if t0 in ("rowvec", "urowvec"):
                d[0] = C(1)
            return build(d, lambda *i: leaf(name, tuple(idx) + tuple(x for x, dd in zip(i, d) if dd.const() != 1), isint=t0 in TINT), t0 in TINT)
        if t0.endswith("*"):
            c = self.cname(t0[:-1])
            return Ptr(self.symobj(c, (name, tuple(idx))))
        if t0.startswith("std::unique_ptr<"):
            c = self.cname(t0[len("std::unique_ptr<"):-1].split(",")[0])
            return Ptr(self.symobj(c, (name, tuple(idx))))
        if t0.startswith("std::vector<"):
            el = t0[len("std::vector<"):-1].strip()
            n = leaf(name + ".size", idx, isint=True)
            if el in SCALAR_FLT or el in SCALAR_INT or self.cname(el) in self.p["enums"] or el in self.p["enums"]:
                return build((n,), lambda i: leaf(name, tuple(idx) + (i,), boolean=el == "bool", isint=el not in SCALAR_FLT), el not in SCALAR_FLT)
            return SymSeq((name, tuple(idx)), el, n)
        if t0.startswith("std::optional<"):
            el = t0[len("std::optional<"):-1].strip()
            return OptV(leaf(name + ".has", idx, boolean=True), self.sym(name + ".val", el, idx))
        if t0.startswith("std::pair<"):
            a, b = _targs(t0)
            return ListV([self.sym(name + ".first", a, idx), self.sym(name + ".second", b, idx)], "pair")
        c = self.cname(t0)
        if c in self.CLS:
            return ObjV(self.symobj(c, (name, tuple(idx))))
        return Unk("input %s of type %s" % (name, t0))

    def default(self, t, what, node=None):
        """default-initialised value"""
        t0 = t.replace("const ", "").strip()
        if t0 in TEN:
            d = [C(0)] * TEN[t0]
            if t0 in ("vec", "uvec"):
                d[1] = C(1)
            if t0 in ("rowvec", "urowvec"):
                d[0] = C(1)
            return build(d, lambda *i: C(0), t0 in TINT)
        if t0.startswith("std::vector<"):
            return ListV([], "vector")
        if t0.startswith("std::optional<"):
            return OptV(C(0), None)
        if t0.startswith("std::unique_ptr<"):
            return Ptr(None)
        if t0.startswith(("std::unordered_map<double", "std::map<double")):
            return C(0)                     # a record: the sum of its entries rec(key, value)
        if t0.startswith(("std::unordered_map<", "std::map<")):
            return MapV([])
        if t0.startswith("std::basic_string") or t0 == "std::string":
            return StrV("")
        return Uninit(what)

    # ------------------------------------------------------------ store
    def getloc(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        oid, name = loc
        if oid == "deref" and name in self.meta:
            return ObjV(name)
        m = self.meta.get(oid)
        if m is not None:
            if name == "#hist":
                v = ListV([], "hist")
            elif m["origin"] is not None:
                t = self.fieldtype(m["cls"], name)
                if t is None:
                    v = Unk("field %s" % name)
                else:
                    v = self.sym(m["origin"][0] + "." + name, t, m["origin"][1])
            else:
                v = Uninit("%s.%s" % (m["cls"], name))
            st.env[loc] = v
            return v
        return Uninit(str(name))

    def fieldtype(self, cls, name):
        k = (cls, name)
        if k not in self.fieldtypes:
            r = None
            todo = [cls] + self._allsub(cls)
            for c in todo:
                for f in self.allfields(c):
                    if f["n"] == name:
                        r = f["pt"]
                if r:
                    break
            self.fieldtypes[k] = r
        return self.fieldtypes[k]

    def _allsub(self, cls):
        out = []
        for s in self.subclasses.get(cls, []):
            out.append(s)
            out += self._allsub(s)
        return out

    def setloc(self, st, loc, v):
        if self.written is not None:
            self.written.add(loc)
        if self.loopdepth == 0:
            v = self.abbreviate(v)
        st.env[loc] = v

    BIG = 600

    @staticmethod
    def openpre(x):
        return any(not p.startswith("μ·") for p in x.pre)      # μ· names are bound by their recurrence

    def abbreviate(self, v):
        """a large closed value computed outside of all loops gets a name, which stands for its normal form"""
        if self.mode != "value":
            return v
        if isinstance(v, Tn):
            b = v.body
            if T.size(b) < self.BIG or v.isint or b.taint:
                return v
            L = v.lam()
            if L.fv or self.openpre(L) or L.taint:
                return v
            name = T.define(L, len(v.dims))
            return build(v.dims, lambda *i: T.leaf(name, i))
        if isinstance(v, Poly):
            if T.size(v) < self.BIG or v.taint or v.fv or self.openpre(v):
                return v
            return T.leaf(T.define(v, 0))
        return v

    def read(self, st, lv):
        v = self.getloc(st, lv.loc)
        for s in lv.path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        if isinstance(v, Choice):
            return vite(v.c, self.step(st, v.a, s), self.step(st, v.b, s))
        k = s[0]
        if k == "el":
            return self.model.elem(v, s[1])
        if k == "view":
            if isinstance(v, Tn):
                return s[1].read(v)
            return Unk("view of %r" % v)
        if k == "idx":                      # std::vector element
            return self.model.seq_get(v, s[1])
        if k == "f":                        # pair member
            if isinstance(v, ListV):
                return v.items[s[1]]
            return Unk("pair member of %r" % (v,))
        if k == "rec":
            return Unk("map lookup")
        if k == "key":
            return self.model.map_get(v, s[1], s[2])
        if k == "opt":
            if isinstance(v, OptV):
                return v.val if v.val is not None else Unk("empty optional")
            return Unk("optional")
        raise Give("step " + k)

    def write(self, st, lv, val):
        if lv is None:
            return
        if not lv.path:
            old = st.env.get(lv.loc)
            self.setloc(st, lv.loc, val)
            return
        old = self.getloc(st, lv.loc)
        self.setloc(st, lv.loc, self.put(st, old, lv.path, val))

    def put(self, st, v, path, val):
        if not path:
            return val
        if isinstance(v, Choice):
            return vite(v.c, self.put(st, v.a, path, val), self.put(st, v.b, path, val))
        s = path[0]
        k = s[0]
        if isinstance(v, (Unk,)):
            return v
        if k == "el":
            return self.model.elem_set(v, s[1], val)
        if k == "view":
            if not isinstance(v, Tn):
                return Unk("store into view")
            sub = s[1].read(v)
            return s[1].write(v, self.put(st, sub, path[1:], val))
        if k == "idx":
            sub = self.model.seq_get(v, s[1]) if len(path) > 1 else None
            return self.model.seq_set(v, s[1], self.put(st, sub, path[1:], val))
        if k == "f":
            if isinstance(v, ListV):
                it = list(v.items)
                it[s[1]] = self.put(st, it[s[1]], path[1:], val)
                return ListV(it, v.kind)
            return Unk("pair store")
        if k == "rec":
            if isinstance(v, Poly) and isinstance(val, Poly) and isinstance(s[1], Poly) and len(path) == 1:
                return v + T.tfn("fn:rec", [s[1], val], ())
            return Unk("map update")
        if k == "key":
            return self.model.map_set(v, s[1], self.put(st, self.model.map_get(v, s[1], s[2]) if len(path) > 1 else None, path[1:], val))
        if k == "opt":
            return OptV(C(1), self.put(st, v.val if isinstance(v, OptV) else None, path[1:], val))
        raise Give("put " + k)

    # ------------------------------------------------------------ merging
    def merge(self, c, s1, s2):
        """state that equals s1 when c holds and s2 otherwise"""
        k = c.const()
        if k is not None:
            return s1 if k else s2
        if s1 is s2:
            return s1
        env = {}
        e1, e2 = s1.env, s2.env
        for loc, a in e1.items():
            b = e2.get(loc)
            if b is None:
                if loc[0] in self.meta and (self.meta[loc[0]]["origin"] is not None or loc[1] == "#hist"):
                    b = self.getloc(s2, loc)
                else:
                    env[loc] = a
                    continue
            if a is b:
                env[loc] = a
            else:
                env[loc] = vite(c, a, b)
        for loc, b in list(e2.items()):
            if loc not in e1:
                if loc[0] in self.meta and (self.meta[loc[0]]["origin"] is not None or loc[1] == "#hist"):
                    a = self.getloc(s1, loc)
                    env[loc] = a if a is b else vite(c, a, b)
                else:
                    env[loc] = b
        return St(env, None)

    def merge_out(self, c, o1, o2):
        """outcomes (cond, st, val): select o1 when c"""
        if o1 is None:
            return o2
        if o2 is None:
            return o1
        return (o1[0] + o2[0], self.merge(c, o1[1], o2[1]), vite(c, o1[2], o2[2]) if o1[2] is not None and o2[2] is not None else (o1[2] if o1[2] is not None else o2[2]))

    # ------------------------------------------------------------ statements
    def exec(self, n, st):
        """-> dict kind -> (cond, state, value); kinds fall, ret, brk, cont, throw"""
        self.steps += 1
        if self.budget and self.steps > self.budget:
            raise TooBig()
        if n is None:
            return {"fall": (C(1), st, None)}
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note("statement " + k, n)
            return {"fall": (C(1), st, None)}
        return m(n, st)

    def seq(self, stmts, st):
        outs = {}
        cond = C(1)
        for s in stmts:
            if s is None:
                continue
            r = self.exec(s, st)
            for kind, o in r.items():
                if kind == "fall":
                    continue
                c = o[0] * cond
                if c.const() == 0:
                    continue
                if kind in outs:
                    p = outs[kind]
                    outs[kind] = self.merge_out(p[0], p, (c, o[1], o[2]))
                else:
                    outs[kind] = (c, o[1], o[2])
            if "fall" not in r:
                return outs
            cond = cond * r["fall"][0]
            st = r["fall"][1]
            if cond.const() == 0:
                return outs
        outs["fall"] = (cond, st, None)
        return outs

    def done(self, st):
        """after a full expression: raise pending failures"""
        p = st.pend
        if p is None:
            return {"fall": (C(1), st, None)}
        st.pend = None
        th = St(dict(st.env))
        return {"fall": (C(1) - p, st, None), "throw": (p, th, StrV("std::runtime_error"))}

    def s_block(self, n, st):
        return self.seq(n["s"], st)

    def s_nop(self, n, st):
        return {"fall": (C(1), st, None)}

    def s_expr(self, n, st):
        e = n["e"]
        if e["k"] == "throw":
            return self.throw(e, st)
        self.eval(e, st)
        return self.done(st)

    def throw(self, e, st):
        t = e.get("tt") or "rethrow"
        if e.get("e") is not None:
            pass
        return {"throw": (C(1), st, StrV(t))}

    def s_decl(self, n, st):
        for d in n["d"]:
            self.declare(d, st)
        return self.done(st)

    def boolish(self, f):
        """integer variables of a function that only ever hold the literals 0 and 1"""
        r = self._boolish.get(f["key"])
        if r is not None:
            return r
        good, bad = set(), set()

        def lit(n):
            while isinstance(n, dict) and n.get("k") == "cast":
                n = n["e"]
            return isinstance(n, dict) and (n.get("k") == "bool" or (n.get("k") == "int" and str(n.get("v")) in ("0", "1")))

        def strip(n):
            while isinstance(n, dict) and n.get("k") in ("cast", "paren"):
                n = n["e"]
            return n

        def walk(n, ctx=None):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for d in n["d"]:
                    if d.get("t") in SCALAR_INT and d.get("i") is not None and lit(d["i"]) and not d.get("ref"):
                        good.add(d["id"])
            if k == "asg":
                x = strip(n["x"])
                if x.get("k") == "var" and not (n["o"] == "=" and lit(n["y"])):
                    bad.add(x["id"])
            if k == "un" and n["o"] in ("++", "--", "&"):
                x = strip(n["e"])
                if x.get("k") == "var":
                    bad.add(x["id"])
            if k in ("call", "mcall", "ctor", "op", "pmcall", "lambda"):
                for a in n.get("a", []) or []:
                    if isinstance(a, dict) and a.get("k") == "var":      # passed as an lvalue
                        bad.add(a["id"])
                if k == "lambda":
                    for c in n.get("cap", []) or []:
                        if isinstance(c, dict) and "id" in c:
                            bad.add(c["id"])
            for kk, x in n.items():
                if isinstance(x, (dict, list)):
                    walk(x)
        walk(f.get("body"))
        r = self._boolish[f["key"]] = good - bad
        return r

    def declare(self, d, st):
        loc = (self.frame, d["id"])
        t = d["t"]
        self.types[loc] = d["pt"]
        if t in SCALAR_INT and self.fnstack and self.fnstack[-1].get("key") and d["id"] in self.boolish(self.fnstack[-1]):
            self.types[loc] = "bool"
        init = d.get("i")
        if d.get("ref") and init is not None:
            lv = self.lval(init, st)
            if lv is not None:
                st.env[loc] = RefV(lv)
            else:
                st.env[loc] = self.eval(init, st)
        elif init is None:
            c = self.cname(t)
            if "arr" in d:
                st.env[loc] = ListV([Uninit(d["n"])] * d["arr"], "array") if d["arr"] <= 64 else Unk("array")
            elif c in self.CLS:
                st.env[loc] = ObjV(self.newoid(c))
            else:
                st.env[loc] = self.default(t, d["n"])
        else:
            v = self.eval(init, st)
            if d.get("pt", "").rstrip().endswith("&"):
                pass
            v = self.copyval(v, st, init)
            v = self.conv(v, t)
            st.env[loc] = v
            if isinstance(v, Tn) and len(v.dims) == 2 and t in ("vec", "uvec", "rowvec", "urowvec"):
                # a matrix does not fit the layout of a vector: Armadillo throws
                dd = v.dims[1 if t in ("vec", "uvec") else 0]
                if dd.const() != 1 and not dd.taint and not T.collect(dd, lambda a: a.kind not in ("leaf",)):
                    st.pend = por(st.pend, (C(1) - eq(dd - C(1))) if dd.const() is None else C(1))
        if self.written is not None:
            self.written.add(loc)
        for i, b in enumerate(d.get("bind", [])):
            bl = (self.frame, b["id"])
            base = st.env[loc]
            if isinstance(base, RefV):
                st.env[bl] = RefV(base.lv.ext(("f", i)))
            else:
                st.env[bl] = RefV(LV(loc, (("f", i),)))

    def conv(self, v, t):
        """initialise a variable of type t from v"""
        if t in ("vec", "uvec") and isinstance(v, Tn) and len(v.dims) == 2 and v.dims[1].const() != 1 and v.dims[0].const() == 1:
            pass
        if t in TINT and isinstance(v, Tn) and not v.isint:
            v = Tn(v.dims, v.vs, v.body, True)
        if t in SCALAR_INT and t != "bool" and isinstance(v, Tn):
            v = v.at(*[C(0)] * len(v.dims))
        if t in SCALAR_FLT and isinstance(v, Tn):
            v = v.at(*[C(0)] * len(v.dims))
        if t in TEN and isinstance(v, ListV):
            v = self.model.from_list(v, t)
        if t.startswith("std::optional<") and not isinstance(v, (OptV, Unk, Choice)):
            v = OptV(C(1), v)
        if t.startswith("std::vector<") and isinstance(v, Poly):
            v = self.model.vec_n(v, t)
        return v

    def s_if(self, n, st):
        pre = {"fall": (C(1), st, None)}
        if n.get("init"):
            pre = self.exec(n["init"], st)
            st = pre["fall"][1]
        if n.get("cv"):
            self.exec(n["cv"], st)
        c = self.truth(self.eval(n["c"], st), st)
        outs = {}
        cond0 = C(1)
        if st.pend is not None:
            d = self.done(st)
            outs["throw"] = d["throw"]
            cond0 = d["fall"][0]
        k = c.const()
        if k is not None:
            r = self.exec(n["x"] if k else n.get("y"), st)
        else:
            s1, s2 = st, st.copy()
            s1 = st.copy()
            self.guards.append(c)
            r1 = self.exec(n["x"], s1)
            self.guards[-1] = C(1) - c
            r2 = self.exec(n.get("y"), s2)
            self.guards.pop()
            r = {}
            for kind in set(r1) | set(r2):
                o1, o2 = r1.get(kind), r2.get(kind)
                if o1 is not None:
                    o1 = (o1[0] * c, o1[1], o1[2])
                    if o1[0].const() == 0:
                        o1 = None
                if o2 is not None:
                    o2 = (o2[0] * (C(1) - c), o2[1], o2[2])
                    if o2[0].const() == 0:
                        o2 = None
                o = self.merge_out(c, o1, o2)
                if o is not None:
                    r[kind] = o
        if outs:
            th = outs["throw"]
            for kind in r:
                r[kind] = (r[kind][0] * cond0, r[kind][1], r[kind][2])
            if "throw" in r:
                r["throw"] = self.merge_out(th[0], th, r["throw"])
            else:
                r["throw"] = th
        return r

    def truth(self, v, st):
        if isinstance(v, Poly):
            if v.const() is not None:
                return C(1 if v.const() != 0 else 0)
            if is_bool(v):
                return v
            return C(1) - eq(v)
        if isinstance(v, Ptr):
            return C(0 if v.oid is None else 1)
        if isinstance(v, Choice):
            return ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, OptV):
            return v.has
        if isinstance(v, FnV):
            return C(1)
        if isinstance(v, Uninit):
            return T.A(T._mk("opq", "uninit:" + v.what, (), idem=True))
        return self.unkbool("condition %r" % (v,))

    def unkbool(self, why):
        T._fresh[0] += 1
        a = T._mk("unk", "%s#b%d" % (why, T._fresh[0]), (), idem=True)
        a.taint = True
        return T.A(a)

    def s_switch(self, n, st):
        v = self.eval(n["c"], st)
        body = n["body"]["s"] if n["body"]["k"] == "block" else [n["body"]]
        # flatten case labels
        segs = []           # (labels or None for default, statements)
        for s in body:
            labels = []
            while s is not None and s["k"] in ("case", "default"):
                labels.append(None if s["k"] == "default" else s["v"])
                s = s["s"]
            if labels:
                segs.append([labels, []])
            if s is not None:
                if not segs:
                    continue
                segs[-1][1].append(s)
        if not isinstance(v, Poly):
            v = unknown("switch")
        conds = []
        rest = C(1)
        dflt = None
        for i, (labels, _) in enumerate(segs):
            c = C(0)
            for l in labels:
                if l is None:
                    dflt = i
                else:
                    lv = self.eval(l, st)
                    c = c + eq(v - lv)
            conds.append(c)
            rest = rest - c
        if dflt is not None:
            conds[dflt] = conds[dflt] + rest
            rest = C(0)
        res = {}

        def run(i, s):
            stm = []
            for labels, ss in segs[i:]:
                stm += ss
            r = self.seq(stm, s)
            b, f = r.pop("brk", None), r.pop("fall", None)
            if b is not None or f is not None:
                r["fall"] = self.merge_out(b[0] if b else C(1), b, f)
            return r
        acc = None
        items = [(c, i) for i, c in enumerate(conds) if c.const() != 0]
        todo = []
        for c, i in items:
            todo.append((c, lambda s, i=i: run(i, s)))
        if rest.const() != 0:
            todo.append((rest, lambda s: {"fall": (C(1), s, None)}))
        for c, f in todo:
            r = f(st.copy())
            r = {k: (o[0] * c, o[1], o[2]) for k, o in r.items()}
            r = {k: o for k, o in r.items() if o[0].const() != 0}
            if acc is None:
                acc = r
            else:
                new = dict(acc)
                for k, o in r.items():
                    new[k] = self.merge_out(c, o, acc.get(k))
                acc = new
        return acc or {"fall": (C(1), st, None)}

    def s_case(self, n, st):
        return self.exec(n["s"], st)
    s_default = s_case

    def s_break(self, n, st):
        return {"brk": (C(1), st, None)}

    def s_continue(self, n, st):
        return {"cont": (C(1), st, None)}

    def s_ret(self, n, st):
        v = VOID
        if n.get("e") is not None:
            f = self.fnstack[-1] if self.fnstack else {}
            if f.get("rpt", "").endswith("&") and not self.inlambda:
                lv = self.lval(n["e"], st)
                v = RefV(lv) if lv is not None else self.eval(n["e"], st)
            else:
                v = self.copyval(self.eval(n["e"], st), st, n["e"])
                v = self.conv(v, f.get("rt", "")) if not self.inlambda else v
        d = self.done(st)
        r = {"ret": (d["fall"][0], d["fall"][1], v)}
        if "throw" in d:
            r["throw"] = d["throw"]
        return r

    inlambda = 0

    def s_label(self, n, st):
        self.note("label", n)
        return self.exec(n["s"], st)

    def s_goto(self, n, st):
        self.note("goto", n)
        return {"throw": (C(1), st, StrV("goto"))}

    def s_try(self, n, st):
        if self.mode == "value":
            r = self.exec(n["body"], st)
            th = r.get("throw")
            if th is None or th[0].const() == 0:
                r.pop("throw", None)
                return r
        else:
            r = self.exec(n["body"], st)
            th = r.get("throw")
            if th is None:
                return r
        del r["throw"]
        h = self.handler(n, th[2])
        if h is None:
            r["throw"] = th
            return r
        ts = th[1]
        if h.get("id") is not None:
            ts.env[(self.frame, h["id"])] = StrV("caught")
        # a throw may have happened anywhere in the body: values modified by it are undetermined only when the handler uses them
        self.caught = th[2]
        hr = self.exec(h["body"], ts)
        for kind, o in hr.items():
            o = (o[0] * th[0], o[1], o[2])
            if kind in r:
                r[kind] = self.merge_out(th[0], o, r[kind])
            else:
                r[kind] = o
        return r

    def handler(self, n, exc):
        for h in n["h"]:
            t = h["t"]
            if t == "..." or "exception" in t:
                return h
            if isinstance(exc, StrV) and exc.s.split("::")[-1] == t.split("::")[-1]:
                return h
            if "error" in t:
                return h
        return None

    def s_omp(self, n, st):
        d = n["d"]
        nt = None
        for c in n.get("cl", []):
            if c["c"] == "num_threads" and c.get("e"):
                v = self.eval(c["e"][0], st)
                nt = v if isinstance(v, Poly) else None
        red = [(c["e"], c.get("op")) for c in n.get("cl", []) if c["c"] == "reduction"]
        body = n.get("body")
        if body is None:
            return {"fall": (C(1), st, None)}
        if "parallel" not in d:
            return self.exec(body, st)
        self.teams += 1
        self.omp.append([nt if nt is not None else leaf("omp.threads", isint=True), None])
        try:
            return self.exec(body, st)
        finally:
            self.omp.pop()

    # ------------------------------------------------------------ loops (loops.py)
    def s_for(self, n, st):
        if n.get("init"):
            self.exec(n["init"], st)
        return self.loop(st, n.get("c"), n.get("inc"), n["body"], n)

    def s_while(self, n, st):
        return self.loop(st, n["c"], None, n["body"], n)

    def s_do(self, n, st):
        return self.loop(st, n["c"], None, n["body"], n, post=True)

    def s_rfor(self, n, st):
        lv = self.lval(n["r"], st)
        if lv is None:
            v = self.eval(n["r"], st)
            self.nobj += 1
            lv = LV(("tmp%d" % self.nobj, "r"))
            st.env[lv.loc] = v
        return self.rfor_over(n, st, lv)

    def rfor_choice(self, n, st, seqv):
        c = seqv.c
        self.nobj += 1
        la = LV(("tmp%d" % self.nobj, "ra"))
        s1, s2 = st.copy(), st.copy()
        s1.env[la.loc], s2.env[la.loc] = seqv.a, seqv.b
        o1, o2 = self.rfor_over(n, s1, la), self.rfor_over(n, s2, la)
        r = {}
        for kind in set(o1) | set(o2):
            x, y = o1.get(kind), o2.get(kind)
            x = None if x is None else (x[0] * c, x[1], x[2])
            y = None if y is None else (y[0] * (C(1) - c), y[1], y[2])
            o = self.merge_out(c, x, y)
            if o is not None:
                r[kind] = o
        return r

    def rfor_over(self, n, st, lv):
        rv = n["v"]
        seqv = self.read(st, lv)
        if isinstance(seqv, Choice):
            return self.rfor_choice(n, st, seqv)
        size = self.model.seq_size(seqv)
        if size is None:
            return self.havoc_loop(n, st, "range over %r" % (seqv,))
        self.nframe += 0
        loc = (self.frame, "rfor%d" % n["l"])
        st.env[loc] = C(0)

        def cond(s):
            return lt(self.getloc(s, loc) - self.model.seq_size(self.read(s, lv)), True)

        def body(s):
            i = self.getloc(s, loc)
            step = ("idx", i) if not (isinstance(seqv, Tn) and len(seqv.dims) == 2) else ("el", (i,))
            vl = (self.frame, rv["id"])
            if isinstance(seqv, MapV):
                return {"throw": (C(1), s, StrV("map"))}
            if rv.get("ref"):
                s.env[vl] = RefV(lv.ext(step))
            else:
                s.env[vl] = self.copyval(self.read(s, lv.ext(step)), s, None)
            return self.exec(n["body"], s)

        def inc(s):
            self.setloc(s, loc, self.getloc(s, loc) + 1)
        return self.loop2(st, cond, inc, body, n)

    def loop(self, st, c, inc, body, n, post=False):
        def fcond(s):
            if c is None:
                return C(1)
            return self.truth(self.eval(c, s), s)

        def finc(s):
            if inc is not None:
                self.eval(inc, s)

        def fbody(s):
            return self.exec(body, s)
        return self.loop2(st, fcond, finc, fbody, n, post)

    def loop2(self, st, cond, inc, body, n, post=False):
        import loops
        return loops.solve(self, st, cond, inc, body, n, post)

    def havoc_loop(self, n, st, why):
        self.note("loop not analysed: " + why, n)
        import loops
        return loops.havoc(self, st, n, why)

    # ------------------------------------------------------------ expressions
    def eval(self, n, st):
        if n is None:
            return VOID
        m = getattr(self, "e_" + n["k"], None)
        if m is None:
            return self.unk("expression " + n["k"], n.get("t"), n)
        v = m(n, st)
        if isinstance(v, RefV):
            v = self.read(st, v.lv)
        return v

    def e_int(self, n, st):
        return C(int(n["v"]))

    def e_flt(self, n, st):
        return self.model.const_flt(n["v"])

    def e_bool(self, n, st):
        return C(1 if n["v"] else 0)

    def e_enum(self, n, st):
        return C(n["v"])

    def e_str(self, n, st):
        return StrV(n["v"])

    def e_null(self, n, st):
        return Ptr(None)

    def e_zero(self, n, st):
        t = n.get("t", "")
        if t in SCALAR_INT or t in SCALAR_FLT:
            return C(0)
        if t.endswith("*"):
            return Ptr(None)
        return self.default(t, "zero")

    def e_this(self, n, st):
        return Ptr(self.this)

    def e_fn(self, n, st):
        return FnV(n["n"])
    e_fnaddr = e_fn

    def e_sizeof(self, n, st):
        return leaf("sizeof:" + n["v"], isint=True)

    def e_var(self, n, st):
        loc = (self.frame, n["id"])
        v = st.env.get(loc)
        if v is None:
            for fr in reversed(self.lexframes):
                v = st.env.get((fr, n["id"]))
                if v is not None:
                    break
        if v is None:
            return self.unk("variable " + n["n"], n.get("t"), n)
        if isinstance(v, RefV):
            return self.read(st, v.lv)
        if isinstance(v, Uninit):
            return self.uninit(v, n)
        return v

    def uninit(self, v, n):
        t = n.get("t", "")
        if t in SCALAR_FLT or t in SCALAR_INT or self.cname(t) in self.p["enums"] or t in self.p["enums"]:
            return T.opq("uninit:" + v.what, (), idem=(t == "bool"), isint=t in SCALAR_INT)
        return v

    def e_gvar(self, n, st):
        q = n["q"]
        v = self.model.gconst(q, n)
        if v is not None:
            return v
        g = self.p["globals"].get(q)
        if g is not None and g.get("i") is not None:
            loc = ("global", q)
            if loc in st.env:
                return st.env[loc]
            return self.conv(self.eval(g["i"], st), g["t"])
        loc = ("global", q)
        if loc in st.env:
            return st.env[loc]
        return self.sym("::" + q, n.get("t", ""))

    def e_mem(self, n, st):
        lv = self.lval(n, st)
        if lv is not None:
            v = self.read(st, lv)
            if isinstance(v, RefV):
                return self.read(st, v.lv)
            if isinstance(v, Uninit):
                return self.uninit(v, n)
            return v
        b = self.eval(n["b"], st)
        return self.member(b, n, st)

    def member(self, b, n, st):
        if isinstance(b, Choice):
            return vite(b.c, self.member(b.a, n, st), self.member(b.b, n, st))
        if isinstance(b, Tn):
            r = self.model.tmember(b, n["n"])
            if r is not None:
                return r
        if isinstance(b, ListV) and n["n"] in ("first", "second"):
            return b.items[0 if n["n"] == "first" else 1]
        if isinstance(b, (ObjV, Ptr)) and b.oid is not None:
            v = self.getloc(st, (b.oid, n["n"]))
            if isinstance(v, Uninit):
                return self.uninit(v, n)
            return v
        return self.unk("member %s of %r" % (n["n"], b), n.get("t"), n)

    def lval(self, n, st):
        """storage designator of an lvalue expression or None"""
        k = n["k"]
        if k == "var":
            loc = (self.frame, n["id"])
            if loc not in st.env:
                for fr in reversed(self.lexframes):
                    if (fr, n["id"]) in st.env:
                        loc = (fr, n["id"])
                        break
            v = st.env.get(loc)
            if isinstance(v, RefV):
                return v.lv
            if v is None:
                return None
            return LV(loc)
        if k == "gvar":
            return None
        if k == "mem":
            base = n["b"]
            if n.get("arrow"):
                b = self.eval(base, st)
                if isinstance(b, (Ptr, ObjV)) and b.oid is not None:
                    return LV((b.oid, n["n"]))
                if isinstance(b, IterV):
                    return self.field_lv(b.lv.ext(("idx", b.pos)), n, st)
                return None
            blv = self.lval(base, st)
            if blv is None:
                b = self.eval(base, st)
                if isinstance(b, ObjV):
                    return LV((b.oid, n["n"]))
                return None
            return self.field_lv(blv, n, st)
        if k == "un" and n["o"] == "*":
            b = self.eval(n["e"], st)
            if isinstance(b, Ptr) and b.oid is not None:
                if isinstance(b.oid, LV):
                    return b.oid
                return LV(("deref", b.oid))
            return None
        if k == "un" and n["o"] in ("++", "--") and not n["post"]:
            self.eval(n, st)
            return self.lval(n["e"], st)
        if k == "asg":
            self.eval(n, st)
            return self.lval(n["x"], st)
        if k == "idx":
            b = self.lval(n["b"], st)
            i = self.eval(n["i"], st)
            if b is not None and isinstance(i, Poly):
                bv = self.read(st, b)
                if isinstance(bv, Ptr):
                    return None
                return b.ext(("idx", i))
            return None
        if k == "op" or k == "mcall":
            return self.model.lval(n, st)
        if k == "call":
            if n.get("inroot") or n.get("fn") in self.F:
                v = self.call_node(n, st)
                if isinstance(v, RefV):
                    return v.lv
                return self.temp(v, st)
            if n.get("q") in ("std::get",):
                blv = self.lval(n["a"][0], st)
                if blv is not None:
                    return blv
            if n.get("q") in ("std::move", "std::forward"):
                return self.lval(n["a"][0], st)
            return None
        if k == "cast" and n.get("c") in ("id",):
            return self.lval(n["e"], st)
        if k == "cond":
            c = self.truth(self.eval(n["c"], st), st)
            if c.const() is not None:
                return self.lval(n["x"] if c.const() else n["y"], st)
            return None
        if k == "ctor" and n.get("copy"):
            return None
        return None

    def temp(self, v, st):
        self.nobj += 1
        loc = ("tmp%d" % self.nobj, "v")
        st.env[loc] = v
        return LV(loc)

    def field_lv(self, blv, n, st):
        b = self.read(st, blv)
        if isinstance(b, (ObjV,)):
            return LV((b.oid, n["n"]))
        if isinstance(b, ListV) and n["n"] in ("first", "second"):
            return blv.ext(("f", 0 if n["n"] == "first" else 1))
        return None

    def e_cast(self, n, st):
        v = self.eval(n["e"], st)
        c = n["c"]
        if c == "f2i":
            if isinstance(v, Poly):
                return fn("trunc", v)
            return v
        if c == "bool":
            return self.truth(v, st)
        if c == "dyn":
            return v
        if c in ("i2i", "i2f"):
            return v
        if c == "id" and n.get("t") in SCALAR_INT and n.get("from") in SCALAR_FLT and isinstance(v, Poly):
            return fn("trunc", v)
        return v

    def e_cond(self, n, st):
        c = self.truth(self.eval(n["c"], st), st)
        k = c.const()
        if k is not None:
            return self.eval(n["x"] if k else n["y"], st)
        s1, s2 = st.copy(), st.copy()
        a = self.eval(n["x"], s1)
        b = self.eval(n["y"], s2)
        p1, p2 = s1.pend, s2.pend
        m = self.merge(c, s1, s2)
        st.env = m.env
        st.pend = por(c * p1 if p1 is not None else None, (C(1) - c) * p2 if p2 is not None else None)
        if isinstance(a, ObjV) and isinstance(b, ObjV) and a.oid != b.oid:
            return Choice(c, a, b)
        return vite(c, a, b)

    def e_un(self, n, st):
        o = n["o"]
        if o in ("++", "--"):
            lv = self.lval(n["e"], st)
            old = self.eval(n["e"], st)
            if isinstance(old, IterV):
                new = IterV(old.lv, old.pos + (1 if o == "++" else -1))
            elif isinstance(old, Poly):
                new = old + (1 if o == "++" else -1)
            else:
                new = self.unk("++", n.get("t"), n)
            if lv is not None:
                self.write(st, lv, new)
            return old if n["post"] else new
        if o == "&":
            lv = self.lval(n["e"], st)
            v = self.eval(n["e"], st)
            if isinstance(v, ObjV):
                return Ptr(v.oid)
            if lv is not None:
                return Ptr(lv)
            return Unk("address")
        if o == "*":
            v = self.eval(n["e"], st)
            return self.deref(v, n, st)
        v = self.eval(n["e"], st)
        if o == "-":
            if isinstance(v, Poly):
                return -v
            return self.unk("negation", n.get("t"), n)
        if o == "+":
            return v
        if o == "!":
            return C(1) - self.truth(v, st)
        if o == "~" and isinstance(v, Poly) and v.const() is not None:
            return C(~int(v.const()))
        return self.unk("unary " + o, n.get("t"), n)

    def deref(self, v, n, st):
        if isinstance(v, Choice):
            return vite(v.c, self.deref(v.a, n, st), self.deref(v.b, n, st))
        if isinstance(v, Ptr) and v.oid is not None:
            if isinstance(v.oid, LV):
                return self.read(st, v.oid)
            if v.oid in self.meta:
                return ObjV(v.oid)
            return self.getloc(st, ("deref", v.oid))
        if isinstance(v, IterV):
            return self.read(st, v.lv.ext(("idx", v.pos)))
        if isinstance(v, ListV) and v.items:
            return v.items[0]
        return self.unk("dereference of %r" % (v,), n.get("t"), n)

    def e_bin(self, n, st):
        o = n["o"]
        if o in ("&&", "||"):
            a = self.truth(self.eval(n["x"], st), st)
            k = a.const()
            if k is not None:
                if (o == "&&" and not k) or (o == "||" and k):
                    return a
                return self.truth(self.eval(n["y"], st), st)
            s2 = st.copy()
            b = self.truth(self.eval(n["y"], s2), s2)
            if o == "&&":
                m = self.merge(a, s2, st)
                r = a * b
            else:
                m = self.merge(a, st, s2)
                r = a + b - a * b
            st.env = m.env
            return r
        if o == ",":
            self.eval(n["x"], st)
            return self.eval(n["y"], st)
        a = self.eval(n["x"], st)
        b = self.eval(n["y"], st)
        return self.binop(o, a, b, n.get("lt", ""), n.get("rt", ""), n)

    def binop(self, o, a, b, lt_, rt_, n):
        if isinstance(a, Choice) and not isinstance(b, Choice):
            return vite(a.c, self.binop(o, a.a, b, lt_, rt_, n), self.binop(o, a.b, b, lt_, rt_, n))
        if isinstance(b, Choice) and not isinstance(a, Choice):
            return vite(b.c, self.binop(o, a, b.a, lt_, rt_, n), self.binop(o, a, b.b, lt_, rt_, n))
        if o == "+" and isinstance(a, ListV) and isinstance(b, Poly):
            # pointer into an array
            k = b.const()
            if k is not None and 0 <= k <= len(a.items):
                return ListV(a.items[int(k):], "array")
            if k is None and a.items:
                r = ListV(a.items[-1:], "array")
                for i in range(len(a.items) - 2, -1, -1):
                    r = vite(eq(b - C(i), True), ListV(a.items[i:i + 1], "array"), r)
                return r
        if isinstance(a, Poly) and isinstance(b, Poly):
            isint = not (lt_ in SCALAR_FLT or rt_ in SCALAR_FLT)
            return self.arith(o, a, b, isint, lt_, rt_)
        if o in ("==", "!="):
            if isinstance(a, (Ptr, FnV)) and isinstance(b, Poly) and b.const() == 0:
                b = Ptr(None)
            if isinstance(b, (Ptr, FnV)) and isinstance(a, Poly) and a.const() == 0:
                a = Ptr(None)
        if o in ("==", "!=") and isinstance(a, (Ptr, FnV)) and isinstance(b, (Ptr, FnV)):
            same = a.key == b.key
            if not same and isinstance(a, Ptr) and isinstance(b, Ptr) and a.oid in self.meta and b.oid in self.meta:
                x, y = self.meta[a.oid]["origin"], self.meta[b.oid]["origin"]
                if x and y and x[0] == y[0] and x[1] and y[1]:
                    return self.unkbool("pointer comparison")
            return C(1 if same == (o == "==") else 0)
        if isinstance(a, IterV) and isinstance(b, IterV):
            if o in ("==", "!=", "<", "-"):
                return self.arith(o, a.pos, b.pos, True, "", "")
        if isinstance(a, IterV) and isinstance(b, Poly) and o in ("+", "-"):
            return IterV(a.lv, a.pos + b if o == "+" else a.pos - b)
        t = n.get("t", "")
        return self.unk("operator %s on %r, %r" % (o, type(a).__name__, type(b).__name__), t, n)

    def arith(self, o, a, b, isint, lt_="", rt_=""):
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o == "/":
            if isint:
                ca, cb = a.const(), b.const()
                if ca is not None and cb:
                    return C(int(ca / cb))
                if cb == 1:
                    return a
                return fn("idiv", a, b)
            return a / b
        if o == "%":
            ca, cb = a.const(), b.const()
            if ca is not None and cb:
                return C(int(ca) % int(cb))
            return fn("mod", a, b)
        if o in ("&", "|", "^", "<<", ">>"):
            ca, cb = a.const(), b.const()
            if ca is not None and cb is not None:
                x, y = int(ca), int(cb)
                return C({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y if y >= 0 else 0, ">>": x >> y if y >= 0 else 0}[o])
            return fn("bit" + o, a, b)
        uns = isint and lt_ in UNSIGNED
        d = a - b
        if o == "==":
            return eq(d, isint)
        if o == "!=":
            return C(1) - eq(d, isint)
        if o == "<":
            if uns and b.const() == 0:
                return C(0)
            return lt(d, isint)
        if o == ">=":
            if uns and b.const() == 0:
                return C(1)
            return C(1) - lt(d, isint)
        if o == ">":
            return lt(-d, isint)
        if o == "<=":
            return C(1) - lt(-d, isint)
        raise Give("operator " + o)

    def e_asg(self, n, st):
        o = n["o"]
        if o == "=":
            v = self.eval(n["y"], st)
            lv = self.lval(n["x"], st)
            v = self.copyval(v, st, n["y"])
            if n.get("lt") in SCALAR_INT and n.get("rt") in SCALAR_FLT and isinstance(v, Poly) and n["lt"] != "bool":
                pass
            if lv is None:
                self.lost(n["x"], st, n)
                return v
            self.write(st, lv, v)
            return v
        b = self.eval(n["y"], st)
        lv = self.lval(n["x"], st)
        a = self.eval(n["x"], st)
        v = self.binop(o[:-1], a, b, n.get("lt", ""), n.get("rt", ""), n)
        if n.get("lt") in SCALAR_INT and n.get("rt") in SCALAR_FLT and isinstance(v, Poly):
            v = fn("trunc", v)
        if lv is None:
            self.lost(n["x"], st, n)
            return v
        self.write(st, lv, v)
        return v

    def lost(self, target, st, n):
        """a store whose target is not representable: every location it may reach becomes unknown"""
        t = target
        if t["k"] == "gvar":
            st.env[("global", t["q"])] = Unk("global store")
            return
        root = t
        while True:
            nxt = root.get("b") or root.get("o") if isinstance(root.get("b") or root.get("o"), dict) else (root.get("a") or [None])[0] if root["k"] == "op" else root.get("e")
            if not isinstance(nxt, dict):
                break
            lv = self.lval(nxt, st)
            if lv is not None:
                old = self.getloc(st, lv.loc)
                self.setloc(st, lv.loc, self.taint_like(old, "store through unmodelled designator"))
                self.note("store to an unmodelled designator", n)
                return
            root = nxt
        self.note("store lost", n)
        st.env[("global", "#lost")] = Unk("lost store")

    def taint_like(self, v, why):
        if isinstance(v, Poly):
            return unknown(why)
        if isinstance(v, Tn):
            u = unknown(why)
            return build(v.dims, lambda *i: u)
        return Unk(why)

    def e_idx(self, n, st):
        lv = self.lval(n, st)
        if lv is not None:
            v = self.read(st, lv)
            if isinstance(v, Uninit):
                return self.uninit(v, n)
            return v
        b = self.eval(n["b"], st)
        i = self.eval(n["i"], st)
        if isinstance(b, Ptr) and isinstance(b.oid, LV) and isinstance(i, Poly):
            return self.model.seq_get(self.read(st, b.oid), i)
        return self.unk("subscript", n.get("t"), n)

    def e_throw(self, n, st):
        st.pend = por(st.pend, C(1))
        return VOID

    def e_lambda(self, n, st):
        caps = {}
        for c in n.get("caps", []):
            if c.get("init") is not None:
                caps[c["id"]] = self.eval(c["init"], st)
            elif not c.get("ref"):
                v = st.env.get((self.frame, c["id"]))
                if v is not None:
                    caps[c["id"]] = v
        return LamV(n, self.frame, caps, self.this)

    def e_new(self, n, st):
        if n.get("array"):
            sz = self.eval(n["n"], st) if n.get("n") else C(0)
            self.nobj += 1
            loc = ("heap%d" % self.nobj, "a")
            st.env[loc] = Unk("new[]")
            if isinstance(sz, Poly) and n.get("nt") in SCALAR_FLT | SCALAR_INT:
                nm = "uninit:new%d" % self.nobj
                st.env[loc] = build((sz,), lambda i: T.opq("uninit:new[]", (i,)))
            return Ptr(LV(loc))
        if n.get("e") is not None:
            v = self.eval(n["e"], st)
            if isinstance(v, ObjV):
                return Ptr(v.oid)
            self.nobj += 1
            loc = ("heap%d" % self.nobj, "v")
            st.env[loc] = v
            return Ptr(LV(loc))
        c = self.cname(n["nt"])
        if c in self.CLS:
            return Ptr(self.newoid(c))
        return Unk("new")

    def e_del(self, n, st):
        self.eval(n["e"], st)
        return VOID

    def e_init(self, n, st):
        t = n.get("t", "")
        items = [self.eval(a, st) for a in n["a"]]
        c = self.cname(t)
        if c in self.CLS:
            oid = self.newoid(c)
            fs = [f for f in self.allfields(c)]
            for i, f in enumerate(fs):
                if i < len(items):
                    st.env[(oid, f["n"])] = self.conv(self.copyval(items[i], st, None), f["t"])
                elif f.get("i") is not None:
                    st.env[(oid, f["n"])] = self.eval(f["i"], st)
                else:
                    st.env[(oid, f["n"])] = C(0)
            return ObjV(oid)
        if len(items) == 1 and (t in SCALAR_FLT or t in SCALAR_INT or t.endswith("*")):
            return items[0]
        return ListV([self.copyval(i, st, None) for i in items], "list")

    def e_unk(self, n, st):
        return self.unk("syntax " + n.get("c", "?"), n.get("t"), n)

    def e_pmcall(self, n, st):
        o = self.eval(n["o"], st)
        f = self.eval(n["f"], st)
        return self.call_pm(o, f, n, st)

    def call_pm(self, o, f, n, st):
        if isinstance(f, Choice):
            return self.branch(f.c, st, lambda s: self.call_pm(o, f.a, n, s), lambda s: self.call_pm(o, f.b, n, s))
        if isinstance(f, FnV):
            fn_ = self.F.get(f.fn)
            if fn_ is not None and isinstance(o, (Ptr, ObjV)) and o.oid is not None:
                if fn_.get("virt"):
                    fn_ = self.dispatch(fn_, o.oid) or fn_
                if self.stubs.get(fn_["q"]) is not None:
                    return self.invoke(self.stubs[fn_["q"]], None, n["a"], st, n)
                return self.invoke(fn_, o.oid, n["a"], st, n)
        # unknown target
        vals = [self.eval(a, st) for a in n["a"]]
        self.havoc_args(n, st)
        return self.unk("call through unknown member pointer", n.get("t"), n)

    def branch(self, c, st, f, g):
        k = c.const()
        if k is not None:
            return f(st) if k else g(st)
        s1, s2 = st.copy(), st.copy()
        a, b = f(s1), g(s2)
        if isinstance(a, RefV):
            a = self.read(s1, a.lv)
        if isinstance(b, RefV):
            b = self.read(s2, b.lv)
        p1, p2 = s1.pend, s2.pend
        m = self.merge(c, s1, s2)
        st.env = m.env
        st.pend = por(c * p1 if p1 is not None else None, (C(1) - c) * p2 if p2 is not None else None)
        return vite(c, a, b)

    def e_op(self, n, st):
        fk = n.get("fn")
        f = self.F.get(fk)
        if f is not None and (f.get("body") is not None or f.get("defaulted")) and self.model.own_op(n):
            lv0 = self.lval(n["a"][0], st)
            o = self.eval(n["a"][0], st)
            if f.get("cls") and not f.get("static"):
                if isinstance(o, ObjV):
                    if n["o"] == "=" and f.get("body") is None:
                        src = self.eval(n["a"][1], st)
                        self.copyfields(o.oid, src, st)
                        return RefV(lv0) if lv0 else o
                    return self.invoke(f, o.oid, n["a"][1:], st, n)
            else:
                return self.invoke(f, None, n["a"], st, n)
        if n["o"] == "=" and fk is not None:
            o = self.eval(n["a"][0], st)
            if isinstance(o, ObjV) and self.meta[o.oid]["cls"] in self.CLS and self.cname(n.get("t", "")) in self.CLS:
                src = self.eval(n["a"][1], st)
                self.copyfields(o.oid, src, st)
                return o
        return self.model.op(n, st)

    def e_mcall(self, n, st):
        return self.call_node(n, st)
    e_call = e_mcall

    def call_node(self, n, st):
        q = n.get("q", "")
        if n["k"] == "mcall":
            r = self.model.special_mcall(n, st)
            if r is not None:
                return r
            if n.get("inroot"):
                o = self.eval(n["o"], st)
                return self.mcall(o, n, st)
            return self.model.mcall(n, st)
        if "f" in n and "fn" not in n:
            f = self.eval(n["f"], st)
            return self.call_val(f, n, st)
        r = self.model.special_call(n, st)
        if r is not None:
            return r
        if n.get("inroot") or n.get("fn") in self.F:
            f = self.F.get(n["fn"])
            if f is not None and f.get("body") is not None:
                if self.stubs.get(f["q"]) is not None:
                    f = self.stubs[f["q"]]
                return self.invoke(f, None, n["a"], st, n)
            self.havoc_args(n, st)
            return self.unk("function %s has no body" % n["fn"], n.get("t"), n)
        return self.model.call(n, st)

    def call_val(self, f, n, st, args=None):
        if isinstance(f, Choice):
            return self.branch(f.c, st, lambda s: self.call_val(f.a, n, s), lambda s: self.call_val(f.b, n, s))
        if isinstance(f, FnV) and self.F.get(f.fn, {}).get("body") is not None:
            return self.invoke(self.F[f.fn], None, n["a"], st, n)
        if isinstance(f, LamV):
            return self.invoke_lambda(f, n["a"], st, n)
        self.havoc_args(n, st)
        return self.unk("indirect call", n.get("t"), n)

    def dispatch(self, f, oid):
        """most derived override of virtual f for an object of exactly known class"""
        m = self.meta.get(oid)
        if m is None or not m["exact"]:
            return None
        cls = m["cls"]
        return self.find_override(cls, f)

    def find_override(self, cls, f):
        sig = f["key"][len(f["q"]):]
        name = f["n"]
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            k = "%s::%s%s" % (c, name, sig)
            if k in self.F and self.F[k].get("body") is not None:
                return self.F[k]
            if f.get("dtor"):
                return None
            todo += self.bases(c)
        return None

    def mcall(self, o, n, st):
        if isinstance(o, Choice):
            return self.branch(o.c, st, lambda s: self.mcall(o.a, n, s), lambda s: self.mcall(o.b, n, s))
        if isinstance(o, IterV):
            o = self.read(st, o.lv.ext(("idx", o.pos)))
        if not isinstance(o, (ObjV, Ptr)) or o.oid is None or isinstance(o.oid, LV):
            self.havoc_args(n, st)
            return self.unk("method %s of %r" % (n.get("m"), o), n.get("t"), n)
        f = self.F.get(n["fn"])
        oid = o.oid
        if n.get("virt"):
            m = self.meta[oid]
            if m["exact"]:
                g = self.method_decl(n)
                f = self.find_override(m["cls"], g) if g else f
            else:
                return self.opaque_call(oid, n, st)
        if f is None or f.get("body") is None:
            if f is not None and f.get("defaulted"):
                return VOID
            self.havoc_args(n, st)
            return self.unk("method %s has no body" % n["fn"], n.get("t"), n)
        if f["q"] in self.opaque:
            return self.opaque_call(oid, n, st)
        if self.stubs.get(f["q"]) is not None:
            return self.invoke(self.stubs[f["q"]], None, n["a"], st, n)
        return self.invoke(f, oid, n["a"], st, n)

    def method_decl(self, n):
        f = self.F.get(n["fn"])
        if f is not None:
            return f
        q = n["q"]
        return dict(key=n["fn"], q=q, n=n["m"])

    # opaque method of an object whose concrete class is not known
    def opaque_call(self, oid, n, st):
        name = n["m"]
        args = [self.eval(a, st) for a in n["a"]]
        m = self.meta[oid]
        if name == "clone":
            return Ptr(self.cloneobj(oid, st))
        sig, ts = self.pack(ObjV(oid), st)
        asig = []
        for a in args:
            s, t = self.pack(a, st)
            asig.append(s)
            ts = ts + t
        base = "%s(%s;%s)" % (name, sig, ",".join(asig))
        if not n.get("const"):
            const_like = n["m"] in self.model.QUERY
            if not const_like:
                h = self.getloc(st, (oid, "#hist"))
                items = h.items if isinstance(h, ListV) else ()
                self.setloc(st, (oid, "#hist"), ListV(items + (ListV([StrV(name)] + args, "call"),), "hist"))
                if n.get("t") == "void":
                    return VOID
        if any(x.taint for x in ts) or "unk:" in base:
            return self.symbolic_unknown("opaque call on unknown", n.get("t"))
        return self.model.opaque_result(name, base, ts, args, oid, n, st)

    def pack(self, v, st, depth=0):
        """(signature, terms) that identify a value"""
        if isinstance(v, Poly):
            return "#", [v]
        if isinstance(v, Tn):
            return "@%d" % len(v.dims), [v.lam()]
        if isinstance(v, Ptr):
            if v.oid is None:
                return "null", []
            if isinstance(v.oid, LV):
                return self.pack(self.read(st, v.oid), st, depth)
            v = ObjV(v.oid)
        if isinstance(v, ObjV):
            if depth > 6:
                return "deep", []
            m = self.meta[v.oid]
            sig, ts = [m["cls"]], []
            fields = {}
            for (o, f), x in st.env.items():
                if o == v.oid:
                    fields[f] = x
            if m["origin"] is None and m["cls"] in self.model.STRUCTURAL:
                # a copy that still equals an original is identified with it
                for o in {okey(x["origin"]): x["origin"] for x in self.meta.values() if x["cls"] == m["cls"] and x["origin"] is not None and x["exact"]}.values():
                    if all(vkey(fields.get(f["n"])) == vkey(self.sym(o[0] + "." + f["n"], f["t"], o[1])) for f in self.allfields(m["cls"])
                           if f["n"] not in self.model.IGNORED_FIELDS):
                        m, fields = dict(m, origin=o), {}
                        break
            if m["origin"] is not None:
                sig.append("=" + m["origin"][0])
                ts += list(m["origin"][1])
                for f in sorted(fields, key=str):
                    x = fields[f]
                    if f == "#hist":
                        if isinstance(x, ListV) and not x.items:
                            continue
                    else:
                        t = self.fieldtype(m["cls"], f)
                        if t is not None:
                            orig = self.sym(m["origin"][0] + "." + f, t, m["origin"][1])
                            if vkey(orig) == vkey(x) and not isinstance(x, (ObjV, Ptr)):
                                continue
                            if isinstance(x, (ObjV, Ptr)) and vkey(orig) == vkey(x):
                                s, t2 = self.pack(x, st, depth + 1)
                                s0 = "%s|=%s" % (self.meta[x.oid]["cls"], self.meta[x.oid]["origin"][0]) if x.oid in self.meta and self.meta[x.oid]["origin"] else ""
                                if s == s0:
                                    continue
                    s, t2 = self.pack(x, st, depth + 1)
                    sig.append("%s:%s" % (f, s))
                    ts += t2
            else:
                for f in self.allfields(m["cls"]):
                    if f["n"] in self.model.IGNORED_FIELDS:
                        continue
                    x = fields.get(f["n"])
                    if x is None:
                        continue
                    s, t2 = self.pack(x, st, depth + 1)
                    sig.append("%s:%s" % (f["n"], s))
                    ts += t2
                h = fields.get("#hist")
                if h is not None:
                    s, t2 = self.pack(h, st, depth + 1)
                    sig.append("hist:" + s)
                    ts += t2
            return "|".join(sig), ts
        if isinstance(v, ListV):
            sig, ts = [], []
            for i in v.items:
                s, t = self.pack(i, st, depth + 1)
                sig.append(s)
                ts += t
            return "[" + ",".join(sig) + "]", ts
        if isinstance(v, OptV):
            s, t = self.pack(v.val, st, depth + 1) if v.val is not None else ("-", [])
            return "opt" + s, [v.has] + t
        if isinstance(v, Choice):
            s1, t1 = self.pack(v.a, st, depth + 1)
            s2, t2 = self.pack(v.b, st, depth + 1)
            return "(%s?%s:%s)" % ("c", s1, s2), [v.c] + t1 + t2
        if isinstance(v, SymSeq):
            return "seq=" + v.origin[0], list(v.origin[1]) + [v.size]
        if isinstance(v, (StrV, FnV)):
            return v.key, []
        if isinstance(v, Uninit):
            return v.key, []
        if v is None:
            return "none", []
        return "unk:" + vkey(v), [unknown("packed")]

    def cloneobj(self, oid, st):
        m = self.meta[oid]
        new = self.newoid(m["cls"], m["origin"], m["exact"])
        for (o, f), x in list(st.env.items()):
            if o == oid:
                st.env[(new, f)] = self.copyval(x, st, None)
        return new

    def copyfields(self, dst, src, st):
        if isinstance(src, Choice):
            s1, s2 = st.copy(), st.copy()
            self.copyfields(dst, src.a, s1)
            self.copyfields(dst, src.b, s2)
            st.env = self.merge(src.c, s1, s2).env
            return
        if isinstance(src, ObjV):
            m = self.meta[dst]
            sm = self.meta[src.oid]
            if self.written is not None:
                self.written.add((dst, "#all"))
            for key in [k for k in st.env if k[0] == dst]:
                del st.env[key]
            for f in list(self.allfields(m["cls"])):
                v = self.getloc(st, (src.oid, f["n"]))
                self.setloc(st, (dst, f["n"]), self.copyval(v, st, None))
            h = st.env.get((src.oid, "#hist"))
            if h is not None:
                self.setloc(st, (dst, "#hist"), h)
            return
        for f in list(self.allfields(self.meta[dst]["cls"])):
            self.setloc(st, (dst, f["n"]), Unk("copied from unknown"))

    def copyval(self, v, st, n):
        """value semantics: objects are copied when initialising / assigning unless the node is a fresh temporary"""
        if isinstance(v, Choice) and isinstance(v.a, ObjV):
            return Choice(v.c, self.copyval(v.a, st, n), self.copyval(v.b, st, n))
        if not isinstance(v, ObjV):
            return v
        if n is not None:
            k = n["k"]
            if k in ("ctor", "init"):
                return v
            if k in ("call", "mcall", "pmcall", "op") and not n.get("lvalue"):
                return v
        m = self.meta[v.oid]
        new = self.newoid(m["cls"], m["origin"], m["exact"])
        for (o, f), x in list(st.env.items()):
            if o == v.oid:
                st.env[(new, f)] = self.copyval(x, st, None)
        return ObjV(new)

    # ------------------------------------------------------------ constructors
    def e_ctor(self, n, st):
        cls = n.get("cls", "")
        if cls in self.CLS:
            f = self.F.get(n["fn"])
            if n.get("copy") and len(n["a"]) >= 1 and (f is None or f.get("body") is None or n.get("defaulted")):
                src = self.eval(n["a"][0], st)
                if isinstance(src, ObjV):
                    if n["a"][0]["k"] in ("ctor", "init", "call", "mcall", "pmcall") and n.get("move", False):
                        return src
                    new = self.newoid(self.meta[src.oid]["cls"] if self.meta[src.oid]["origin"] else cls, self.meta[src.oid]["origin"], self.meta[src.oid]["exact"])
                    for (o, fl), x in list(st.env.items()):
                        if o == src.oid:
                            st.env[(new, fl)] = self.copyval(x, st, None)
                    return ObjV(new)
                if isinstance(src, Choice):
                    return src
                return self.unk("copy of %r" % (src,), n.get("t"), n)
            oid = self.newoid(cls)
            self.construct(oid, cls, f, n["a"], st, n)
            return ObjV(oid)
        return self.model.ctor(n, st)

    def construct(self, oid, cls, f, argnodes, st, n):
        """run constructor f of cls on oid"""
        if f is not None and f.get("ctor") and (f.get("inits") is not None):
            self.invoke(f, oid, argnodes, st, n, ctor=cls)
            return
        # implicit constructor: bases, default member initialisers
        self.default_construct(oid, cls, st, n)

    def default_construct(self, oid, cls, st, n):
        for b in self.bases(cls):
            self.base_default(oid, b, st, n)
        for fl in self.CLS.get(cls, {}).get("fields", []):
            self.init_field(oid, fl, st)

    def base_default(self, oid, b, st, n):
        nm = b.split("::")[-1]
        f = self.F.get("%s::%s()" % (b, nm))
        if f is not None and f.get("inits") is not None:
            self.invoke(f, oid, [], st, n, ctor=b)
        else:
            self.default_construct(oid, b, st, n)

    def init_field(self, oid, fl, st):
        loc = (oid, fl["n"])
        if fl.get("i") is not None:
            sv = self.this
            self.this = oid
            try:
                v = self.eval(fl["i"], st)
            finally:
                self.this = sv
            st.env[loc] = self.conv(self.copyval(v, st, fl["i"]), fl["t"])
        else:
            c = self.cname(fl["t"])
            if c in self.CLS and not fl["t"].endswith("*"):
                o2 = self.newoid(c)
                self.base_default(o2, c, st, None)
                st.env[loc] = ObjV(o2)
            else:
                st.env[loc] = self.default(fl["t"], "%s" % fl["q"])
        if self.written is not None:
            self.written.add(loc)

    # ------------------------------------------------------------ calls
    frame = "f0"
    this = None
    lexframes = ()

    def havoc_args(self, n, st):
        """an unknown callee may write through non-const references and pointers"""
        pts = n.get("pt", [])
        for i, a in enumerate(n.get("a", [])):
            pt = pts[i] if i < len(pts) else ""
            if (pt.endswith("&") or pt.endswith("*")) and not pt.startswith("const "):
                if a["k"] in ("var", "mem", "op", "mcall", "un", "idx"):
                    x = a["e"] if a["k"] == "un" and a["o"] == "&" else a
                    lv = self.lval(x, st)
                    if lv is not None:
                        old = self.getloc(st, lv.loc)
                        if isinstance(old, ObjV):
                            self.havoc_obj(old.oid, st)
                        elif not isinstance(old, Ptr):
                            self.setloc(st, lv.loc, self.taint_like(old, "written by unknown callee"))

    def havoc_obj(self, oid, st):
        m = self.meta[oid]
        for f in list(self.allfields(m["cls"])):
            old = self.getloc(st, (oid, f["n"]))
            self.setloc(st, (oid, f["n"]), self.taint_like(old, "object passed to unknown callee"))

    frame, this, lexframes = "f0", None, ()

    def run_claim(self, f):
        st = St()
        # functions decided by claims of their own: stub_X__f stands for gwm::X::f
        ns = f["q"].rsplit("::", 1)[0] + "::stub_"
        own = f["n"].endswith("_itself")
        for g in self.F.values():
            if g["q"].startswith(ns) and g.get("body") is not None and not own:
                self.stubs["gwm::" + g["q"][len(ns):].replace("__", "::")] = g
        self.fnstack.append(f)
        self.frame = "c0"
        r = self.exec(f["body"], st)
        self.fnstack.pop()
        return r

    def invoke(self, f, oid, argnodes, st, n, ctor=None):
        """inline the callee"""
        if self.depth > self.MAXDEPTH or self.fnstack.count(f) > 3:
            self.havoc_args(n, st)
            return self.unk("recursion in %s" % f["q"], n.get("t"), n)
        self.analysed[f["key"]] = self.analysed.get(f["key"], 0) + 1
        # evaluate arguments in the caller
        bind = []
        ps = f["p"]
        for i, p in enumerate(ps):
            a = argnodes[i] if i < len(argnodes) else None
            if a is None:
                bind.append(self.unk("missing argument", p["t"], n))
                continue
            pt = p["pt"]
            if pt.endswith("&") and not pt.endswith("&&"):
                lv = self.lval(a, st)
                if lv is not None:
                    cur = self.read(st, lv)
                    bind.append(RefV(lv))
                    continue
                v = self.eval(a, st)
                bind.append(self.conv(v, p["t"]))
                continue
            v = self.eval(a, st)
            v = self.conv(self.copyval(v, st, a), p["t"])
            bind.append(v)
        self.nframe += 1
        sv = (self.frame, self.this, self.lexframes, self.inlambda)
        self.frame = "f%d" % self.nframe
        self.this = oid if oid is not None else None
        if f.get("static"):
            self.this = None
        self.lexframes = ()
        self.inlambda = 0
        self.depth += 1
        self.fnstack.append(f)
        fr = self.frame
        try:
            for p, v in zip(ps, bind):
                st.env[(fr, p["id"])] = v
                self.types[(fr, p["id"])] = p["pt"]
            if ctor is not None:
                self.run_inits(f, oid, ctor, st, n)
            if f.get("body") is None:
                return VOID
            r = self.exec(f["body"], st)
        finally:
            self.frame, self.this, self.lexframes, self.inlambda = sv
            self.depth -= 1
            self.fnstack.pop()
        return self.finish_call(r, st, fr, f)

    def finish_call(self, r, st, fr, f):
        fall, ret, th = r.get("fall"), r.get("ret"), r.get("throw")
        if fall is not None and fall[0].const() != 0:
            fall = (fall[0], fall[1], VOID)
            ret = self.merge_out(fall[0], fall, ret) if ret is not None else fall
        if ret is None:
            if th is not None:
                st.env = th[1].env
                st.pend = por(st.pend, th[0])
                if self.mode == "value":
                    self.lastthrow = th
                return self.symbolic_unknown("no return", f.get("rt")) if self.mode == "value" else self.dead(f)
            return VOID
        st.env = ret[1].env
        if th is not None and th[0].const() != 0:
            if self.mode == "fail":
                st.pend = por(st.pend, th[0])
            else:
                st.pend = por(st.pend, th[0])
        v = ret[2]
        if isinstance(v, RefV):
            if v.lv.loc[0] == fr:
                v = self.read(st, v.lv)
        # drop the callee's frame
        if isinstance(v, RefV) or not isinstance(v, (Poly, Tn)):
            pass
        for loc in [l for l in st.env if l[0] == fr]:
            if isinstance(v, LamV):
                break
            del st.env[loc]
        return v if v is not None else VOID

    def dead(self, f):
        t = f.get("rt", "")
        if t in SCALAR_FLT or t in SCALAR_INT:
            return T.opq("dead", ())
        if t in TEN:
            d = [C(1)] * TEN[t]
            return build(d, lambda *i: T.opq("dead", ()))
        return Uninit("dead")

    def invoke_lambda(self, f, argnodes, st, n, vals=None):
        node = f.node
        args = vals if vals is not None else None
        self.nframe += 1
        fr = "f%d" % self.nframe
        bind = []
        for i, p in enumerate(node["p"]):
            if args is not None:
                bind.append(args[i])
                continue
            a = argnodes[i]
            if p["pt"].endswith("&"):
                lv = self.lval(a, st)
                if lv is not None:
                    bind.append(RefV(lv))
                    continue
            bind.append(self.copyval(self.eval(a, st), st, a))
        sv = (self.frame, self.this, self.lexframes, self.inlambda)
        self.lexframes = tuple(sv[2]) + (f.frame,)
        self.frame, self.this = fr, f.this
        self.inlambda = 1
        self.depth += 1
        try:
            for p, v in zip(node["p"], bind):
                st.env[(fr, p["id"])] = v
            for cid, v in f.caps.items():
                st.env[(fr, cid)] = v
            r = self.exec(node["body"], st)
        finally:
            self.frame, self.this, self.lexframes, self.inlambda = sv
            self.depth -= 1
        return self.finish_call(r, st, fr, {"rt": node.get("t", "")})

    def run_inits(self, f, oid, cls, st, n):
        inits = f.get("inits") or []
        if any(i.get("deleg") for i in inits):
            e = inits[0]["e"]
            g = self.F.get(e.get("fn"))
            self.construct(oid, cls, g, e["a"], st, n)
            return
        done_b, done_f = set(), set()
        for i in inits:
            if "b" in i:
                b = self.cname(i["b"])
                e = i["e"]
                done_b.add(b)
                if e is not None and e["k"] == "ctor":
                    g = self.F.get(e.get("fn"))
                    if g is not None and e.get("copy") and (g.get("body") is None or e.get("defaulted")):
                        src = self.eval(e["a"][0], st)
                        if isinstance(src, ObjV):
                            for fl in list(self.allfields(b)):
                                st.env[(oid, fl["n"])] = self.copyval(self.getloc(st, (src.oid, fl["n"])), st, None)
                        continue
                    self.construct(oid, b, g, e["a"], st, n)
                else:
                    self.base_default(oid, b, st, n)
            elif "m" in i:
                pass
        for b in self.bases(cls):
            if b not in done_b:
                self.base_default(oid, b, st, n)
        byname = {i["m"]: i for i in inits if "m" in i}
        for fl in self.CLS.get(cls, {}).get("fields", []):
            i = byname.get(fl["n"])
            if i is not None and i.get("e") is not None:
                e = i["e"]
                v = self.eval(e, st)
                st.env[(oid, fl["n"])] = self.conv(self.copyval(v, st, e), fl["t"])
                if isinstance(st.env[(oid, fl["n"])], ListV) and fl["t"] in SCALAR_INT | SCALAR_FLT:
                    l = st.env[(oid, fl["n"])].items
                    st.env[(oid, fl["n"])] = l[0] if l else C(0)
                if self.written is not None:
                    self.written.add((oid, fl["n"]))
            else:
                self.init_field(oid, fl, st)


def por(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return a + b - a * b


def is_bool(p):
    """polynomial made of brackets only, with value in {0,1} (syntactic)"""
    for m in p.t:
        for a, e in m:
            if not a.idem:
                return False
    return True


def _targs(t):
    """template arguments of t at depth 1"""
    i = t.index("<")
    depth, cur, out = 0, "", []
    for ch in t[i + 1:-1]:
        if ch in "<([":
            depth += 1
        if ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
