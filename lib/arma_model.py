"""Index-level meaning of the Armadillo / std vocabulary used by the library."""
from fractions import Fraction
from values import *
import os
import terms as T

SC_INT = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short", "char", "bool"}
SC_FLT = {"double", "float"}


class View:
    def __init__(self, dims, fwd, inv):
        self.dims, self.fwd, self.inv = dims, fwd, inv

    def read(self, t):
        return build(self.dims(t), lambda *o: t.at(*self.fwd(t, o)), t.isint)

    def write(self, t, new):
        if self.inv is None:
            u = unknown("store through index vector")
            return build(t.dims, lambda *i: u)
        if isinstance(new, Poly):
            return build(t.dims, lambda *a: ite(self.inv(t, a)[0], new, t.at(*a)), t.isint)
        if not isinstance(new, Tn):
            u = unknown("store of unknown")
            return build(t.dims, lambda *a: u)

        def f(*a):
            c, o = self.inv(t, a)
            if len(o) == 2 and o[0] == "phi":
                ph = T.phi(o[1])
                v = new.at(*([var(ph)] + [C(0)] * (len(new.dims) - 1))) if new.dims[0].const() != 1 or len(new.dims) == 1 else new.at(C(0), var(ph))
                del T.PHI[ph]
                if ph in v.fv:
                    v = unknown("store through index vector")
                return ite(c, v, t.at(*a))
            if isinstance(o[0], tuple):        # rows picked by a condition
                ph = T.phi(o[0][1])
                v = new.at(var(ph), *o[1:]) if len(new.dims) > 1 else new.at(var(ph))
                del T.PHI[ph]
                if ph in v.fv:
                    v = unknown("store through index vector")
                return ite(c, v, t.at(*a))
            if len(new.dims) == 1 and len(o) == 2:
                o = (o[0],)
            return ite(c, new.at(*o), t.at(*a))
        return build(t.dims, f, t.isint)


def vcol(c):
    return View(lambda t: (t.dims[0], C(1)), lambda t, o: (o[0], c), lambda t, a: (eq(a[1] - c), (a[0], C(0))))


def vrow(r):
    return View(lambda t: (C(1), t.dims[1]), lambda t, o: (r, o[1]), lambda t, a: (eq(a[0] - r), (C(0), a[1])))


def vcuberow(r):
    return View(lambda t: (t.dims[1], t.dims[2]), lambda t, o: (r, o[0], o[1]), lambda t, a: (eq(a[0] - r), (a[1], a[2])))


def vslice(s):
    return View(lambda t: (t.dims[0], t.dims[1]), lambda t, o: (o[0], o[1], s), lambda t, a: (eq(a[2] - s), (a[0], a[1])))


def vcols(a0, b0):
    return View(lambda t: (t.dims[0], b0 - a0 + 1), lambda t, o: (o[0], o[1] + a0), lambda t, a: (in_range(a[1], a0, b0 + 1), (a[0], a[1] - a0)))


def vrows(a0, b0):
    return View(lambda t: (b0 - a0 + 1, t.dims[1]), lambda t, o: (o[0] + a0, o[1]), lambda t, a: (in_range(a[0], a0, b0 + 1), (a[0] - a0, a[1])))


def vsubmat(r0, c0, r1, c1):
    return View(lambda t: (r1 - r0 + 1, c1 - c0 + 1), lambda t, o: (o[0] + r0, o[1] + c0),
                lambda t, a: (in_range(a[0], r0, r1 + 1) * in_range(a[1], c0, c1 + 1), (a[0] - r0, a[1] - c0)))


def vcolsidx(u):
    return View(lambda t: (t.dims[0], vlen(u)), lambda t, o: (o[0], vat(u, o[1])), None)


def vrowsidx(u):
    inv = None
    L = find_of(u)
    if L is not None:
        def inv(t, a):
            return (L(a[0]), (("phi", a[0]),) + tuple(a[1:]))
    return View(lambda t: (vlen(u), t.dims[1]), lambda t, o: (vat(u, o[0]), o[1]), inv)


def velem(u):
    def fwd(t, o):
        i = vat(u, o[0])
        if t.dims[0].const() == 1:
            return (C(0), i)
        return (i, C(0))
    inv = None
    L = find_of(u)
    if L is not None:
        def inv(t, a):
            pos = a[1] if t.dims[0].const() == 1 and len(a) == 2 else a[0]
            return (L(pos), ("phi", pos))
    return View(lambda t: (vlen(u), C(1)), fwd, inv)


def find_of(u):
    """the condition (position -> Poly) when u is find(condition)"""
    x = u.at(*[var(v) for v in u.vs]) if isinstance(u, Tn) else None
    return None if x is None else _find_of(x)


def _find_of(x):
    b = T._top_brk(x, exclude=())
    if b is not None:
        f1, f0 = _find_of(T.cofactor(x, b, 1)), _find_of(T.cofactor(x, b, 0))
        if f1 is None or f0 is None:
            return None
        return lambda pos: ite(T.A(b), f1(pos), f0(pos))
    if len(x.t) != 1:
        return None
    (m, c), = x.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "tfn" or m[0][0].name[0] != "find":
        return None
    L = m[0][0].args[0]
    return lambda pos: T.open_lam(L, tuple([pos] + [C(0)] * (len(L.dims) - 1)))


def vdiag():
    def dd(t):
        return (t.dims[0], C(1))
    return View(dd, lambda t, o: (o[0], o[0]), lambda t, a: (eq(a[0] - a[1]), (a[0], C(0))))


def vlen(u):
    if len(u.dims) == 1:
        return u.dims[0]
    if u.dims[0].const() == 1 and u.dims[1].const() != 1:
        return u.dims[1]
    return u.dims[0]


def vat(u, i):
    if len(u.dims) == 1:
        return u.at(i)
    if u.dims[0].const() == 1 and u.dims[1].const() != 1:
        return u.at(C(0), i)
    return u.at(i, C(0))


def mean_dims(a, b):
    """dims of an elementwise result"""
    out = []
    for x, y in zip(a.dims, b.dims):
        out.append(y if (x.const() is None and y.const() is not None) else x)
    return out


class Model:
    QUERY = {"weight", "distance", "weightVector", "maxDistance", "minDistance", "type", "parameter", "name", "weightType"}
    IGNORED_FIELDS = {"mTelegram"}
    STRUCTURAL = {"gwm::BandwidthWeight"}     # identified by their fields: no other state, no subclass

    def __init__(self, eng):
        self.e = eng

    # ---------------------------------------------------------- constants
    def const_flt(self, s):
        v = float(s)
        import math
        for k, c in ((1, math.pi), (Fraction(1, 2), math.pi / 2), (2, 2 * math.pi)):
            if abs(v - c) < 1e-7 and v != int(v):
                return leaf("π") * C(k)
        if v != v or v in (float("inf"), float("-inf")):
            return leaf("const:" + s)
        return C(Fraction(repr(v)))

    def gconst(self, q, n):
        if q.endswith("::pi"):
            return leaf("π")
        if q.startswith("arma::fill::"):
            return StrV(q)
        if q.startswith("arma::Datum") or q.startswith("arma::datum"):
            return leaf("datum:" + q.split("::")[-1])
        if q == "std::nullopt":
            return OptV(C(0), None)
        return None

    # ---------------------------------------------------------- element access
    def index(self, t, idx):
        idx = [i if isinstance(i, Poly) else unknown("index") for i in idx]
        if len(t.dims) == len(idx):
            return tuple(idx)
        if len(idx) == 1 and len(t.dims) == 2:
            i = idx[0]
            if t.dims[1].const() == 1:
                return (i, C(0))
            if t.dims[0].const() == 1:
                return (C(0), i)
            if i.const() == 0:
                return (C(0), C(0))
            return (fn("mod", i, t.dims[0]), fn("idiv", i, t.dims[0]))
        if len(t.dims) == 1 and len(idx) == 2:
            return (idx[0],)
        if len(t.dims) == 2 and len(idx) == 3:
            return tuple(idx[:2])
        return tuple([unknown("index arity")] * len(t.dims))

    def elem(self, v, idx):
        if isinstance(v, Tn):
            ii = self.index(v, idx)
            # the leaf of a vector field carries no unit index
            return v.at(*ii)
        if isinstance(v, Choice):
            return vite(v.c, self.elem(v.a, idx), self.elem(v.b, idx))
        if isinstance(v, Poly):
            return v
        if isinstance(v, ListV):
            return self.seq_get(v, idx[0])
        return unknown("element of %r" % (v,))

    def elem_set(self, v, idx, val):
        if not isinstance(v, Tn):
            return Unk("element store")
        if isinstance(val, Tn):
            val = val.at(*[C(0)] * len(val.dims))
        if not isinstance(val, Poly):
            val = unknown("stored value")
        ii = self.index(v, idx)

        def f(*a):
            c = C(1)
            for x, y, d in zip(a, ii, v.dims):
                if d.const() == 1:
                    continue
                c = c * eq(x - y)
            return ite(c, val, v.at(*a))
        return build(v.dims, f, v.isint)

    # ---------------------------------------------------------- std::vector
    def seq_size(self, v):
        if isinstance(v, ListV):
            return C(len(v.items))
        if isinstance(v, Tn):
            if len(v.dims) == 1:
                return v.dims[0]
            return v.nelem()
        if isinstance(v, SymSeq):
            return v.size
        if isinstance(v, Choice):
            a, b = self.seq_size(v.a), self.seq_size(v.b)
            if a is not None and b is not None:
                return ite(v.c, a, b)
        if isinstance(v, MapV):
            return C(len(v.items))
        return None

    def seq_get(self, v, i):
        if isinstance(v, Choice):
            return vite(v.c, self.seq_get(v.a, i), self.seq_get(v.b, i))
        if not isinstance(i, Poly):
            return Unk("index")
        if isinstance(v, ListV):
            k = i.const()
            if k is not None and 0 <= k < len(v.items):
                return v.items[int(k)]
            if v.items and len(v.items) <= 6:
                r = v.items[-1]
                for j in range(len(v.items) - 2, -1, -1):
                    r = vite(eq(i - j), v.items[j], r)
                return r
            if not v.items and k is None:
                return Unk("element of empty list")
            return Unk("element %s of list" % k)
        if isinstance(v, Tn):
            return self.elem(v, (i,))
        if isinstance(v, SymSeq):
            return self.e.sym(v.origin[0], self.qual(v.cls), v.origin[1] + (i,))
        if isinstance(v, MapV):
            k = i.const()
            if k is not None and 0 <= k < len(v.items):
                return ListV(v.items[int(k)], "pair")
        if isinstance(v, Unk):
            return Unk("element of unknown")
        return Unk("element of %r" % (v,))

    def qual(self, t):
        return t

    def seq_set(self, v, i, val):
        if isinstance(v, ListV):
            k = i.const()
            if k is not None and 0 <= k < len(v.items):
                it = list(v.items)
                it[int(k)] = val
                return ListV(it, v.kind)
            if v.items and len(v.items) <= 6:
                return ListV([vite(eq(i - j), val, x) for j, x in enumerate(v.items)], v.kind)
            t = self.list_to_tensor(v)
            if t is not None:
                return self.seq_set(t, i, val)
            return Unk("store into list")
        if isinstance(v, Tn):
            return self.elem_set(v, (i,), val)
        return Unk("store into sequence")

    def list_to_tensor(self, v):
        if not v.items:
            return build((C(0),), lambda i: C(0))
        if not all(isinstance(x, Poly) for x in v.items):
            return None

        def f(i):
            r = v.items[-1]
            for j in range(len(v.items) - 2, -1, -1):
                r = ite(eq(i - j), v.items[j], r)
            return r
        return build((C(len(v.items)),), f)

    def vec_n(self, n, t):
        el = t[len("std::vector<"):-1].strip()
        k = n.const()
        if k is not None and k <= 16:
            return ListV([C(0) if el in SC_INT | SC_FLT else self.e.default(el, "vector element") for _ in range(int(k))], "vector")
        if el in SC_INT | SC_FLT:
            return build((n,), lambda i: C(0))
        return Unk("vector of %s" % el)

    def from_list(self, v, t):
        items = v.items
        if items and all(isinstance(x, Poly) for x in items):
            def f(i):
                r = items[-1]
                for j in range(len(items) - 2, -1, -1):
                    r = ite(eq(i - j), items[j], r)
                return r
            if t in ("vec", "uvec"):
                return build((C(len(items)), C(1)), lambda i, j: f(i))
            return build((C(1), C(len(items))), lambda i, j: f(j))
        if items and all(isinstance(x, ListV) for x in items):
            rows = [x.items for x in items]
            if len({len(r) for r in rows}) == 1 and all(isinstance(y, Poly) for r in rows for y in r):
                def g(i, j):
                    r = C(0)
                    for a, row in enumerate(rows):
                        for b, x in enumerate(row):
                            r = r + eq(i - a) * eq(j - b) * x
                    return r
                return build((C(len(rows)), C(len(rows[0]))), g)
        if not items:
            return self.e.default(t, "empty")
        return self.e.symbolic_unknown("list initialiser", t)

    # ---------------------------------------------------------- members
    def tmember(self, b, name):
        if name == "n_rows":
            return b.dims[0]
        if name == "n_cols":
            return b.dims[1] if len(b.dims) > 1 else C(1)
        if name == "n_slices":
            return b.dims[2] if len(b.dims) > 2 else C(1)
        if name == "n_elem":
            return b.nelem()
        return None

    # ---------------------------------------------------------- matrix algebra
    def matmul(self, a, b):
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.elt("*", a, b)
        n = a.dims[1]
        if n.const() is None and b.dims[0].const() is not None:
            n = b.dims[0]

        def f(i, j):
            v = fresh("u", C(0), n)
            return sum_(v, C(0), n, a.at(i, var(v)) * b.at(var(v), j))
        return build((a.dims[0], b.dims[1]), f)

    def tr(self, a):
        return build((a.dims[1], a.dims[0]), lambda i, j: a.at(j, i), a.isint)

    def inv(self, a, st, what="inv"):
        L = a.lam()
        self.e.systems += 1
        self.fails("SING", [L], st)
        return build((a.dims[0], a.dims[1]), lambda i, j: T.tfn("inv", [L], (i, j)))

    def fails(self, name, args, st):
        if self.e.mode == "fail":
            from engine import por
            st.pend = por(st.pend, T.opq(name, args, idem=True))

    def f1(self, a, f, isint=False):
        if isinstance(a, Poly):
            return f(a)
        if isinstance(a, Tn):
            return build(a.dims, lambda *i: f(a.at(*i)), isint)
        return Unk("elementwise")

    def elt(self, o, a, b):
        ops = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "%": lambda x, y: x * y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}
        isint = (not isinstance(a, Tn) or a.isint) and (not isinstance(b, Tn) or b.isint)
        cmp = {"<": lambda x, y: lt(x - y, isint), ">": lambda x, y: lt(y - x, isint), "<=": lambda x, y: C(1) - lt(y - x, isint),
               ">=": lambda x, y: C(1) - lt(x - y, isint), "==": lambda x, y: eq(x - y), "!=": lambda x, y: C(1) - eq(x - y),
               "&&": lambda x, y: x * y, "||": lambda x, y: x + y - x * y}
        f = ops.get(o) or cmp[o]
        ri = isint or o in cmp
        if isinstance(a, Poly) and isinstance(b, Poly):
            return f(a, b)
        if isinstance(a, Poly):
            return build(b.dims, lambda *i: f(a, b.at(*i)), ri)
        if isinstance(b, Poly):
            return build(a.dims, lambda *i: f(a.at(*i), b), ri)
        if len(a.dims) != len(b.dims):
            return Unk("shape")
        return build(mean_dims(a, b), lambda *i: f(a.at(*i), b.at(*i)), ri)

    def each(self, o, e, w):
        t = e.t
        if e.ax == 0:     # each_col: w is a column
            wv = lambda i, j: w.at(i, C(0)) if isinstance(w, Tn) else w
        else:
            wv = lambda i, j: w.at(C(0), j) if isinstance(w, Tn) else w
        f = {"%": lambda x, y: x * y, "+": lambda x, y: x + y, "-": lambda x, y: x - y, "/": lambda x, y: x / y, "=": lambda x, y: y}[o]
        return build(t.dims, lambda i, j: f(t.at(i, j), wv(i, j)))

    def total(self, a):
        r = None

        def rec(k, idx):
            if k == len(a.dims):
                return a.at(*idx)
            d = a.dims[k]
            if d.const() == 1:
                return rec(k + 1, idx + (C(0),))
            v = fresh("u", C(0), d)
            return sum_(v, C(0), d, rec(k + 1, idx + (var(v),)))
        return rec(0, ())

    def sumdim(self, a, dim):
        if dim == 0:
            def f(i, j):
                v = fresh("u", C(0), a.dims[0])
                return sum_(v, C(0), a.dims[0], a.at(var(v), j))
            return build((C(1), a.dims[1]), f)

        def g(i, j):
            v = fresh("u", C(0), a.dims[1])
            return sum_(v, C(0), a.dims[1], a.at(i, var(v)))
        return build((a.dims[0], C(1)), g)

    def flat(self, a):
        """tensor -> closed vector argument of an opaque function"""
        return a.lam()

    # ---------------------------------------------------------- designators
    def lval(self, n, st):
        e = self.e
        if n["k"] == "op":
            o = n["o"]
            if o in ("()", "[]"):
                base = n["a"][0]
                bl = e.lval(base, st)
                if bl is None:
                    return None
                bv = e.read(st, bl)
                if isinstance(bv, (LamV, FnV)):
                    return None
                if isinstance(bv, ObjV):
                    return self.own_lval(n, st)
                idx = [e.eval(a, st) for a in n["a"][1:]]
                if any(isinstance(i, (ListV,)) for i in idx):
                    return None
                if isinstance(bv, MapV):
                    return bl.ext(("key", idx[0], n.get("t", "")))
                if isinstance(bv, Poly) and n.get("q", "").startswith(("std::unordered_map", "std::map")) and len(idx) == 1:
                    return bl.ext(("rec", idx[0]))
                if isinstance(bv, Tn) and len(bv.dims) > 1:
                    if not all(isinstance(i, Poly) for i in idx):
                        if len(idx) == 1 and isinstance(idx[0], Tn):
                            return bl.ext(("view", velem(idx[0])))
                        return None
                    return bl.ext(("el", tuple(idx)))
                if len(idx) == 1 and isinstance(idx[0], Poly):
                    return bl.ext(("idx", idx[0]))
                return None
            if o in ("=", "+=", "-=", "*=", "/=", "%="):
                e.eval(n, st)
                return e.lval(n["a"][0], st)
            if o == "*":
                v = e.eval(n["a"][0], st) if len(n["a"]) == 1 else None
                if isinstance(v, IterV):
                    return v.lv.ext(("idx", v.pos))
                if isinstance(v, Ptr) and v.oid is not None and not isinstance(v.oid, LV) and v.oid in e.meta:
                    return None
                return None
            return self.own_lval(n, st)
        # mcall
        if n.get("inroot"):
            v = e.call_node(n, st)
            if isinstance(v, RefV):
                return v.lv
            return e.temp(v, st)
        m = n.get("m")
        bl = e.lval(n["o"], st)
        if bl is None:
            return None
        if m in ("value",):
            return bl.ext(("opt",))
        if m in ("at",):
            idx = [e.eval(a, st) for a in n["a"]]
            bv = e.read(st, bl)
            if isinstance(bv, Tn) and len(bv.dims) > 1:
                return bl.ext(("el", tuple(idx)))
            return bl.ext(("idx", idx[0]))
        if m in ("front",):
            return bl.ext(("idx", C(0)))
        if m == "back":
            s = self.seq_size(e.read(st, bl))
            return bl.ext(("idx", s - 1)) if s is not None else None
        v = self.view(m, n, st, e.read(st, bl))
        if v is not None:
            return bl.ext(("view", v))
        return None

    def own_lval(self, n, st):
        e = self.e
        f = e.F.get(n.get("fn"))
        if f is not None and f.get("body") is not None:
            v = e.e_op(n, st)
            if isinstance(v, RefV):
                return v.lv
            return e.temp(v, st)
        return None

    def view(self, m, n, st, bv):
        e = self.e
        if not isinstance(bv, Tn):
            return None
        if m in ("col", "row", "slice", "cols", "rows", "diag", "elem", "subvec", "head", "tail", "head_rows", "tail_rows", "head_cols", "tail_cols", "submat"):
            a = [e.eval(x, st) for x in n["a"]]
        else:
            return None
        if m == "diag":
            return vdiag()
        if any(not isinstance(x, (Poly, Tn)) for x in a):
            return None
        if m == "col" and isinstance(a[0], Poly):
            return vcol(a[0])
        if m == "row" and isinstance(a[0], Poly):
            return vrow(a[0]) if len(bv.dims) == 2 else vcuberow(a[0])
        if m == "slice":
            return vslice(a[0])
        if m == "cols":
            if len(a) == 1 and isinstance(a[0], Tn):
                return vcolsidx(a[0])
            if len(a) == 2:
                return vcols(a[0], a[1])
        if m == "rows":
            if len(a) == 1 and isinstance(a[0], Tn):
                return vrowsidx(a[0])
            if len(a) == 2:
                return vrows(a[0], a[1])
        if m == "elem" and isinstance(a[0], Tn):
            return velem(a[0])
        if m == "subvec" and len(a) == 2:
            return vrows(a[0], a[1]) if bv.dims[0].const() != 1 else vcols(a[0], a[1])
        if m in ("head", "head_rows"):
            return vrows(C(0), a[0] - 1) if bv.dims[0].const() != 1 else vcols(C(0), a[0] - 1)
        if m in ("tail", "tail_rows"):
            return vrows(bv.dims[0] - a[0], bv.dims[0] - 1) if bv.dims[0].const() != 1 else vcols(bv.dims[1] - a[0], bv.dims[1] - 1)
        if m == "head_cols":
            return vcols(C(0), a[0] - 1)
        if m == "tail_cols":
            return vcols(bv.dims[1] - a[0], bv.dims[1] - 1)
        if m == "submat" and len(a) == 4:
            return vsubmat(*a)
        return None

    def own_op(self, n):
        return True

    # ---------------------------------------------------------- operators
    def op(self, n, st):
        e = self.e
        o = n["o"]
        A = n["a"]
        q = n.get("q", "")
        if o == "()":
            # callable objects
            b = e.eval(A[0], st)
            if isinstance(b, (LamV, FnV, Choice)) and not isinstance(b, Tn):
                if isinstance(b, LamV) or (isinstance(b, FnV)) or (isinstance(b, Choice) and isinstance(b.a, (LamV, FnV))):
                    return e.call_val(b, dict(n, a=A[1:]), st)
        if o in ("()", "[]"):
            lv = self.lval(n, st)
            if lv is not None:
                v = e.read(st, lv)
                if isinstance(v, Uninit):
                    return e.uninit(v, n)
                return v
            b = e.eval(A[0], st)
            idx = [e.eval(a, st) for a in A[1:]]
            if isinstance(b, MapV):
                if not b.items:
                    return e.default(n.get("t", ""), "map element")
                return self.lookup(b, idx[0], n)
            if isinstance(b, Tn) and all(isinstance(i, Poly) for i in idx):
                return self.elem(b, tuple(idx))
            if isinstance(b, (ListV, SymSeq, Choice)) and len(idx) == 1 and isinstance(idx[0], Poly):
                return self.seq_get(b, idx[0])
            if isinstance(b, Tn) and len(idx) == 1 and isinstance(idx[0], Tn):
                return velem(idx[0]).read(b)
            return e.unk("subscript of %s" % type(b).__name__, n.get("t"), n)
        if o == "=":
            v = e.eval(A[1], st)
            if q.startswith("std::exception") or q.startswith("std::runtime_error"):
                return VOID
            v = e.copyval(v, st, A[1])
            b = e.eval(A[0], st)
            if isinstance(b, EachV):
                if b.lv is not None and isinstance(v, Tn):
                    e.write(st, b.lv, self.each("=", b, v))
                return VOID
            lv = e.lval(A[0], st)
            if lv is None:
                e.lost(A[0], st, n)
                return v
            t = A[0].get("t", "")
            if lv.path and lv.path[-1][0] == "view" and isinstance(v, Poly):
                pass
            elif isinstance(v, Poly) and q.startswith("arma::"):
                d = 2 if "Cube" not in q else 3
                v = build([C(1)] * d, lambda *i, v=v: v)
            if isinstance(v, ListV) and q.startswith("arma::"):
                v = self.from_list(v, t)
            if q.startswith("std::optional") and not isinstance(v, (OptV, Choice, Unk)):
                v = OptV(C(1), v)
            if q.startswith("std::unordered_map") or q.startswith("std::map"):
                v = self.mapval(v)
            e.write(st, lv, v)
            return v
        if o in ("+=", "-=", "*=", "/=", "%="):
            b = e.eval(A[1], st)
            a = e.eval(A[0], st)
            if isinstance(a, EachV):
                if a.lv is not None and isinstance(b, (Tn, Poly)):
                    e.write(st, a.lv, self.each(o[0], a, b))
                    return VOID
            lv = e.lval(A[0], st)
            if isinstance(a, StrV) or isinstance(b, StrV):
                if lv is not None:
                    e.write(st, lv, StrV("…"))
                return StrV("…")
            if isinstance(a, (Tn, Poly)) and isinstance(b, (Tn, Poly)):
                v = self.matmul(a, b) if o == "*=" else self.elt(o[0], a, b)
            else:
                v = e.unk("compound assignment", A[0].get("t"), n)
            if lv is None:
                e.lost(A[0], st, n)
                return v
            e.write(st, lv, v)
            return v
        if o == "->":
            v = e.eval(A[0], st)
            return v
        if o in ("++", "--"):
            v = e.eval(A[0], st)
            if isinstance(v, IterV):
                nv = IterV(v.lv, v.pos + (1 if o == "++" else -1))
                lv = e.lval(A[0], st)
                if lv is not None:
                    e.write(st, lv, nv)
                return v if len(A) == 2 else nv
            return e.unk("iterator", n.get("t"), n)
        vals = [e.eval(a, st) for a in A]
        if o == "<<" or o == ">>":
            return vals[0]
        return self.op_vals(o, vals, n, st)

    def op_vals(self, o, vals, n, st):
        e = self.e
        for k, v in enumerate(vals):
            if isinstance(v, Choice):
                def f(x, k=k):
                    vv = list(vals)
                    vv[k] = x
                    return self.op_vals(o, vv, n, st)
                return vite(v.c, f(v.a), f(v.b))
        if len(vals) == 1:
            a = vals[0]
            if o == "-":
                return self.f1(a, lambda x: -x) if isinstance(a, (Tn, Poly)) else e.unk("-", n.get("t"), n)
            if o == "*":
                return e.deref(a, n, st)
            if o == "!":
                return C(1) - e.truth(a, st)
            if o == "+":
                return a
        else:
            a, b = vals[0], vals[1]
            if isinstance(a, EachV):
                if isinstance(b, (Tn, Poly)):
                    return self.each(o, a, b)
            if isinstance(b, EachV):
                if isinstance(a, (Tn, Poly)):
                    ev = EachV(b.t, b.ax, None)
                    if o in ("%", "+"):
                        return self.each(o, ev, a)
                    # a - x.each_col()
                    f = {"-": lambda x, y: y - x, "/": lambda x, y: y / x}[o]
                    w = a
                    if b.ax == 0:
                        return build(b.t.dims, lambda i, j: f(b.t.at(i, j), w.at(i, C(0))))
                    return build(b.t.dims, lambda i, j: f(b.t.at(i, j), w.at(C(0), j)))
            if isinstance(a, (StrV,)) or isinstance(b, (StrV,)):
                if o in ("==", "!="):
                    if isinstance(a, StrV) and isinstance(b, StrV) and "…" not in a.s + b.s:
                        return C(1 if (a.s == b.s) == (o == "==") else 0)
                    x, y = self.strcode(a), self.strcode(b)
                    if x is not None and y is not None:
                        c = eq(x - y)
                        return c if o == "==" else C(1) - c
                    return e.unkbool("string comparison")
                return StrV("…")
            if isinstance(a, IterV):
                if isinstance(b, (IterV, Poly)):
                    return e.binop(o, a, b, "", "", n)
            if isinstance(a, OptV) or isinstance(b, OptV):
                return e.unk("optional operator", n.get("t"), n)
            if isinstance(a, (Tn, Poly)) and isinstance(b, (Tn, Poly)):
                if o == "*":
                    return self.matmul(a, b)
                if o in ("+", "-", "%", "/", "<", ">", "<=", ">=", "==", "!=", "&&", "||"):
                    return self.elt(o, a, b)
            if isinstance(a, (Ptr,)) and isinstance(b, (Ptr,)) and o in ("==", "!="):
                return e.binop(o, a, b, "", "", n)
            if isinstance(a, ListV) and isinstance(b, ListV) and o in ("==", "!="):
                c = C(1)
                if len(a.items) == len(b.items) and all(isinstance(x, Poly) and isinstance(y, Poly) for x, y in zip(a.items, b.items)):
                    for x, y in zip(a.items, b.items):
                        c = c * eq(x - y)
                    return c if o == "==" else C(1) - c
        return e.unk("operator %s (%s)" % (o, ",".join(type(v).__name__ for v in vals)), n.get("t"), n)

    def mapval(self, v):
        if isinstance(v, ListV):
            items = []
            for x in v.items:
                if isinstance(x, ListV) and len(x.items) == 2:
                    items.append((x.items[0], x.items[1]))
                else:
                    return Unk("map")
            return MapV(items)
        return v

    def lookup(self, m, k, n):
        res = None
        poss = []
        for a, b in m.items:
            c = self.valeq(a, k)
            if c is None:
                return self.e.unk("map lookup", n.get("t"), n)
            if c.const() == 1:
                poss = [(c, b)]
                break
            if c.const() == 0:
                continue
            poss.append((c, b))
        if not poss:
            return Unk("missing map key")
        r = poss[-1][1]
        if poss[-1][0].const() != 1:
            r = vite(poss[-1][0], r, Unk("missing map key")) if False else r
        for c, b in reversed(poss[:-1]):
            r = vite(c, b, r)
        return r

    def map_find(self, m, k):
        """position of a key among distinct known keys; None when that depends on the input"""
        for i, (a, b) in enumerate(m.items):
            c = self.valeq(a, k)
            if c is None or c.const() is None:
                return None
            if c.const() == 1:
                return i
        return len(m.items)

    def map_get(self, m, k, t):
        i = self.map_find(m, k) if isinstance(m, MapV) else None
        if i is None:
            return Unk("map lookup")
        if i < len(m.items):
            return m.items[i][1]
        v = self.e.default(t.rstrip("&").strip(), "map element")
        return C(0) if not isinstance(v, (StrV, ListV, MapV, Tn)) else v

    def map_set(self, m, k, val, replace=True):
        i = self.map_find(m, k) if isinstance(m, MapV) else None
        if i is None:
            return Unk("map update")
        it = list(m.items)
        if i < len(it):
            if replace:
                it[i] = (it[i][0], val)
        else:
            it.append((k, val))
        return MapV(it)

    def strcode(self, v):
        """number of a known string (strings inside containers are represented by their numbers)"""
        if isinstance(v, StrV) and "…" not in v.s:
            return C(self.e.codes.setdefault(v.s, len(self.e.codes)))
        if isinstance(v, Choice):
            a, b = self.strcode(v.a), self.strcode(v.b)
            return ite(v.c, a, b) if a is not None and b is not None else None
        return v if isinstance(v, Poly) else None

    def valeq(self, a, b):
        if isinstance(a, (StrV, Choice)) and isinstance(b, (Poly, StrV, Choice)) or isinstance(b, (StrV, Choice)) and isinstance(a, Poly):
            x, y = self.strcode(a), self.strcode(b)
            return eq(x - y) if x is not None and y is not None else None
        if isinstance(a, Poly) and isinstance(b, Poly):
            return eq(a - b)
        if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
            c = C(1)
            for x, y in zip(a.items, b.items):
                z = self.valeq(x, y)
                if z is None:
                    return None
                c = c * z
            return c
        if isinstance(a, StrV) and isinstance(b, StrV):
            return C(1 if a.s == b.s else 0)
        return None

    # ---------------------------------------------------------- constructors
    def ctor(self, n, st):
        e = self.e
        cls = n.get("cls", "")
        t = n.get("t", "")
        A = n["a"]
        if cls in ("arma::Mat", "arma::Col", "arma::Row", "arma::Cube"):
            real = [a for a in A if not (a.get("def") and a["k"] in ("null",))]
            vals = [e.eval(a, st) for a in A]
            vals = [v for v in vals if not (isinstance(v, Ptr) and v.oid is None)]
            return self.arma_ctor(cls, t, vals, n, st)
        vals = None
        if cls in ("std::pair",):
            vals = [e.eval(a, st) for a in A]
            if len(vals) == 1:
                return vals[0]
            if len(vals) == 2:
                return ListV(vals, "pair")
        if cls == "std::optional":
            if not A:
                return OptV(C(0), None)
            v = e.eval(A[0], st)
            return v if isinstance(v, (OptV, Choice, Unk)) else OptV(C(1), v)
        if cls in ("std::unique_ptr", "std::shared_ptr"):
            if not A:
                return Ptr(None)
            return e.eval(A[0], st)
        if cls == "std::vector":
            vals = [e.eval(a, st) for a in A if not a.get("def")]
            if not vals:
                return ListV([], "vector")
            v = vals[0]
            if isinstance(v, (ListV, SymSeq, Choice, Unk)) and len(vals) == 1:
                return v if not isinstance(v, ListV) else ListV(v.items, "vector")
            if isinstance(v, Tn) and len(vals) == 1:
                return v
            if isinstance(v, Poly):
                el = t[len("std::vector<"):-1].strip() if t.startswith("std::vector<") else ""
                if len(vals) == 1:
                    return self.vec_n(v, t)
                if isinstance(vals[1], Poly):
                    k = v.const()
                    if k is not None and k <= 16:
                        return ListV([vals[1]] * int(k), "vector")
                    return build((v,), lambda i: vals[1])
            if len(vals) == 2 and isinstance(vals[0], IterV) and isinstance(vals[1], IterV):
                src = e.read(st, vals[0].lv)
                n0 = vals[1].pos - vals[0].pos
                if isinstance(src, Tn):
                    return build((n0,), lambda i: self.elem(src, (i + vals[0].pos,)))
                if isinstance(src, ListV) and n0.const() is not None and vals[0].pos.const() is not None:
                    a = int(vals[0].pos.const())
                    return ListV(src.items[a:a + int(n0.const())], "vector")
            return e.unk("vector constructor", t, n)
        if cls in ("std::unordered_map", "std::map"):
            if not A:
                return e.default(t, "map")
            v0 = e.eval(A[0], st)
            return v0 if isinstance(v0, Poly) else self.mapval(v0)
        if cls == "std::basic_string":
            if A:
                v = e.eval(A[0], st)
                if isinstance(v, StrV):
                    return v
                if len([a for a in A if not a.get("def")]) == 1 and (isinstance(v, Poly) or isinstance(v, Choice) and self.strcode(v) is not None):
                    return v
            return StrV("…" if A else "")
        if cls in ("std::exception", "std::runtime_error", "std::logic_error", "std::length_error", "std::out_of_range", "std::invalid_argument", "std::domain_error", "std::bad_alloc"):
            return StrV("exc:" + cls)
        if cls in ("std::variant", "std::function", "std::initializer_list", "__gnu_cxx::__normal_iterator", "std::__detail::_Node_const_iterator", "std::__detail::_Node_iterator", "std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::less", "std::allocator", "std::reference_wrapper"):
            return e.eval(A[0], st) if A else Unk(cls)
        if cls == "arma::span":
            vals = [e.eval(a, st) for a in A]
            return ListV(vals, "span")
        if n.get("copy") and A:
            return e.eval(A[0], st)
        for a in A:
            e.eval(a, st)
        return e.unk("constructor of %s" % cls, t, n)

    def arma_ctor(self, cls, t, vals, n, st):
        e = self.e
        rank = 3 if cls == "arma::Cube" else 2
        isint = t in ("uvec", "umat", "imat", "ivec", "urowvec")
        if not vals:
            d = [C(0)] * rank
            if cls == "arma::Col":
                d[1] = C(1)
            if cls == "arma::Row":
                d[0] = C(1)
            return build(d, lambda *i: C(0), isint)
        v0 = vals[0]
        if isinstance(v0, Choice):
            return vite(v0.c, self.arma_ctor(cls, t, [v0.a] + vals[1:], n, st), self.arma_ctor(cls, t, [v0.b] + vals[1:], n, st))
        if isinstance(v0, Tn):
            if len(v0.dims) == 1:
                if cls == "arma::Row":
                    return build((C(1), v0.dims[0]), lambda i, j: v0.at(j), isint)
                return build((v0.dims[0], C(1)), lambda i, j: v0.at(i), isint)
            if cls == "arma::Col" and len(v0.dims) == 2 and v0.dims[1].const() != 1 and v0.dims[0].const() != 1:
                # a column built from an expression that is a column by construction
                pass
            return v0
        if isinstance(v0, ListV) and v0.kind == "size":
            ds = list(v0.items)
            if cls == "arma::Col":
                ds = ds[:1]
            elif cls == "arma::Row":
                ds = ds[1:2]
            vals = ds + list(vals[1:])
            v0 = vals[0]
        if isinstance(v0, ListV) and v0.kind not in ("pair",):
            return self.from_list(v0, t if t in ("vec", "uvec", "rowvec", "mat", "umat") else "mat")
        if isinstance(v0, EachV):
            return v0.t
        if isinstance(v0, Poly):
            sizes = []
            fill = None
            for v in vals:
                if isinstance(v, Poly) and len(sizes) < (1 if cls in ("arma::Col", "arma::Row") else rank):
                    sizes.append(v)
                elif isinstance(v, StrV):
                    fill = v.s
                elif isinstance(v, ListV) or isinstance(v, Poly):
                    fill = v
            if cls == "arma::Col":
                d = [sizes[0], C(1)]
            elif cls == "arma::Row":
                d = [C(1), sizes[0]]
            else:
                d = sizes
                if len(d) < rank:
                    d = d + [C(1)] * (rank - len(d))
            f = lambda *i: C(0)
            if isinstance(fill, str):
                if fill.endswith("ones"):
                    f = lambda *i: C(1)
                elif fill.endswith("eye"):
                    f = lambda *i: eq(i[0] - i[1])
                elif fill.endswith(("randu", "randn")):
                    return e.symbolic_unknown("random fill", t)
                elif fill.endswith("none"):
                    f = lambda *i: T.opq("uninit:fill::none", tuple(i))
            elif isinstance(fill, Poly):
                f = lambda *i: fill
            return build(d, f, isint)
        if isinstance(v0, Ptr) and isinstance(v0.oid, LV):
            src = e.read(st, v0.oid)
            sizes = [v for v in vals[1:] if isinstance(v, Poly)]
            if isinstance(src, Tn) and len(src.dims) == 1 and cls == "arma::Col" and sizes:
                return build((sizes[0], C(1)), lambda i, j: src.at(i))
            if isinstance(src, Tn) and len(src.dims) == 2 and cls == "arma::Col" and sizes and src.dims[1].const() == 1:
                return build((sizes[0], C(1)), lambda i, j: src.at(i, C(0)))
        return e.unk("%s constructor" % cls, t, n)

    # ---------------------------------------------------------- calls with special meaning
    def each_apply(self, o, ax, f, n, st):
        """x.each_col(f): f rewrites one column (row) after the other"""
        e = self.e
        p = f.node["p"][0] if len(f.node["p"]) == 1 else None
        lv = e.lval(n["o"], st)
        if p is None or lv is None:
            return e.unk("each_col(idx)", None, n)
        r, c = o.dims
        v = T.fresh("k", C(0), c if ax == 0 else r)
        one = build((r,), lambda i: o.at(i, var(v))) if ax == 0 else build((C(1), c), lambda i, j: o.at(var(v), j))
        before = dict(st.env)
        s2 = st.copy()
        cell = e.temp(one, s2)
        e.invoke_lambda(f, None, s2, n, [RefV(cell)])
        res = e.read(s2, cell)
        if s2.pend is not st.pend or not isinstance(res, Tn):
            return e.unk("each_col(idx)", None, n)
        for k, x in before.items():
            if s2.env.get(k) is not x:
                return e.unk("each_col(idx)", None, n)
        if ax == 0:
            w = build((r, c), lambda i, j: T.subst(res.at(i) if len(res.dims) == 1 else res.at(i, C(0)), {v: j}))
        else:
            w = build((r, c), lambda i, j: T.subst(res.at(C(0), j), {v: i}))
        e.write(st, lv, w)
        return w

    def special_mcall(self, n, st):
        e = self.e
        q = n.get("q", "")
        if q.startswith("gwm::ITelegram::"):
            m = n["m"]
            if m == "stop":
                if e.mode == "fail":
                    e.nadv += 1
                    if e.nostop:
                        return C(0)
                    return T.opq("STOP", [C(e.nadv)] + [var(v) for v in e.loopctx], idem=True)
                return C(0)
            for a in n["a"]:
                if has_effect(a):
                    e.eval(a, st)
            return VOID if n.get("t") == "void" else e.symbolic_unknown("telegram", n.get("t"))
        if q.startswith("gwm::Logger::") or n.get("m") == "what" and q.startswith("std::"):
            return StrV("…")
        return None

    def special_call(self, n, st):
        e = self.e
        q = n.get("q", "")
        if q.startswith("gwmv::"):
            return self.claim_call(q[6:], n, st)
        if q.startswith("gwm::IBandwidthSelectable::info") or q.startswith("gwm::IVarialbeSelectable::info") or q.startswith("gwm::Logger"):
            return StrV("…")
        return None

    def claim_call(self, name, n, st):
        e = self.e
        A = n["a"]
        if name in ("mat_", "vec_", "rowvec_", "uvec_", "umat_", "cube_", "sq_", "vecd_"):
            nm = e.eval(A[0], st).s
            dims = [e.eval(a, st) for a in A[1:]]
            isint = name in ("uvec_", "umat_")
            if name in ("vec_", "uvec_"):
                return build((dims[0], C(1)), lambda i, j: leaf(nm, (i,), isint=isint), isint)
            if name == "vecd_":
                return build((dims[0],), lambda i: leaf(nm, (i,)))
            if name == "rowvec_":
                return build((C(1), dims[0]), lambda i, j: leaf(nm, (j,)))
            return build(dims, lambda *i: leaf(nm, i, isint=isint), isint)
        if name == "int_":
            nm = e.eval(A[0], st).s
            T.NONNEG.add(nm)
            return leaf(nm, isint=True)
        if name == "real_":
            return leaf(e.eval(A[0], st).s)
        if name == "fn_":
            nm = e.eval(A[0], st).s
            return T.tfn("fn:" + nm, [e.eval(a, st) for a in A[1:]], ())
        if name == "matfn_":
            nm = e.eval(A[0], st).s
            d = (e.eval(A[1], st), e.eval(A[2], st))
            ar = [e.eval(a, st) for a in A[3:]]
            if any(not isinstance(x, (Tn, Poly)) for x in ar):
                return e.unk("matfn_", n.get("t"), n)
            ar = [x.lam() if isinstance(x, Tn) else x for x in ar]
            return build(d, lambda i, j: T.tfn("fn:" + nm, ar, (i, j)))
        if name == "pred_":
            nm = e.eval(A[0], st).s
            return T.tfn("fn:" + nm, [e.eval(a, st) for a in A[1:]], (), boolean=True)
        if name == "bool_":
            return leaf(e.eval(A[0], st).s, boolean=True)
        if name == "obj_":
            return e.sym(e.eval(A[0], st).s, n["t"])
        if name == "ptr_":
            return e.sym(e.eval(A[0], st).s, n["t"])
        if name == "objs_":
            nm = e.eval(A[0], st).s
            size = e.eval(A[1], st)
            el = n["t"][len("std::vector<"):-1].strip()
            el = el.split(",")[0].strip()
            if el.startswith(("std::string", "std::basic_string")):
                return build((size,), lambda i: leaf(nm, (i,), isint=True), True)
            if el in ("unsigned long", "long", "int", "unsigned int", "size_t", "std::size_t", "uword", "arma::uword", "double"):
                return build((size,), lambda i: leaf(nm, (i,), isint=el != "double"), el != "double")
            return SymSeq((nm, ()), el, size)
        if name in ("same", "same_shape", "fails_as"):
            lab = e.eval(A[0], st).s
            x, y = e.eval(A[1], st), e.eval(A[2], st)
            e.checks.append((lab, name, x, y, n.get("l"), st.pend, self.guard()))
            return VOID
        if name == "dim":
            # fix the extent of an input
            return VOID
        if name in ("throws", "reports"):
            lab = e.eval(A[0], st).s
            s2 = st.copy()
            s2.pend = None
            f = e.eval(A[1], st)
            e.call_val(f, {"a": [], "t": "void", "k": "call"}, s2)
            e.checks.append((lab, name, s2.pend if s2.pend is not None else C(0), C(1), n.get("l"), None, self.guard()))
            return VOID
        if name == "threaded":
            lab = e.eval(A[0], st).s
            want = e.eval(A[2], st)
            f = e.eval(A[1], st)
            before = e.teams
            e.call_val(f, {"a": [], "t": "void", "k": "call"}, st)
            e.checks.append((lab, "same", C(1 if e.teams > before else 0), want, n.get("l"), None, self.guard()))
            return VOID
        if name == "quiet":
            lab = e.eval(A[0], st).s
            s2 = st.copy()
            s2.pend = None
            f = e.eval(A[1], st)
            e.call_val(f, {"a": [], "t": "void", "k": "call"}, s2)
            e.checks.append((lab, "throws", s2.pend if s2.pend is not None else C(0), C(0), n.get("l"), None, self.guard()))
            return VOID
        if name == "note":
            return VOID
        return e.unk("claim primitive " + name, n.get("t"), n)

    def guard(self):
        g = C(1)
        for c in self.e.guards:
            g = g * c
        return g

    # ---------------------------------------------------------- opaque results
    def opaque_result(self, name, sig, ts, args, oid, n, st):
        e = self.e
        t = n.get("t", "")
        if name == "weight" and t == "vec" and args and isinstance(args[0], Tn):
            d = args[0].dims
            return build(d, lambda *i: T.tfn(sig, ts, i[:1]))
        if name in ("distance",) and t == "vec":
            d = self.ndist(oid, st)
            return build((d, C(1)), lambda i, j: T.tfn(sig, ts, (i,)))
        if t in ("vec", "mat", "uvec", "cube"):
            d = [T.tfn(sig + ".d%d" % k, ts, (), isint=True) for k in range(3 if t == "cube" else 2)]
            if t in ("vec", "uvec"):
                d[1] = C(1)
            return build(d, lambda *i: T.tfn(sig, ts, [x for x, dd in zip(i, d) if dd.const() != 1]))
        if t in SC_FLT or t in SC_INT or t in e.p["enums"] or e.cname(t) in e.p["enums"]:
            return T.tfn(sig, ts, (), isint=t not in SC_FLT, boolean=(t == "bool"))
        if t == "void":
            return VOID
        if t.endswith("*"):
            c = e.cname(t[:-1])
            if all(isinstance(x, Poly) for x in ts):
                return Ptr(e.symobj(c, (sig, tuple(ts))))
        return Unk("opaque " + name)

    def ndist(self, oid, st):
        e = self.e
        p = st.env.get((oid, "mParameter"))
        if isinstance(p, Ptr) and p.oid in e.meta:
            d = st.env.get((p.oid, "dataPoints"))
            if isinstance(d, Tn):
                return d.dims[0]
            d = st.env.get((p.oid, "total"))
            if isinstance(d, Poly):
                return d
        h = e.getloc(st, (oid, "#hist"))
        if isinstance(h, ListV) and h.items:
            for it in reversed(h.items):
                if it.items[0].s == "makeParameter" and len(it.items) > 1 and isinstance(it.items[1], ListV) and len(it.items[1].items) >= 2:
                    d = it.items[1].items[1]
                    if isinstance(d, Tn):
                        return d.dims[0]
                break
        m = e.meta[oid]
        return leaf((m["origin"][0] if m["origin"] else m["cls"]) + ".n_dist", m["origin"][1] if m["origin"] else (), isint=True)

    # ---------------------------------------------------------- member functions
    def mcall(self, n, st):
        e = self.e
        m = n.get("m", "")
        q = n.get("q", "")
        o = e.eval(n["o"], st)
        return self.mcall_val(o, m, q, n, st)

    def mcall_val(self, o, m, q, n, st):
        e = self.e
        A = n["a"]
        t = n.get("t", "")
        if isinstance(o, Choice):
            if m in ("push_back", "emplace_back", "resize", "clear", "reset", "pop_back", "erase", "insert", "fill", "zeros", "ones"):
                pass
            else:
                return e.branch(o.c, st, lambda s: self.mcall_val(o.a, m, q, n, s), lambda s: self.mcall_val(o.b, m, q, n, s))
        if isinstance(o, Tn):
            v = self.view(m, n, st, o) if len(o.dims) >= 2 else None
            if v is not None:
                return v.read(o)
            if m == "t" or m == "st":
                return self.tr(o)
            if m == "i":
                return self.inv(o, st)
            if m in ("each_col", "each_row"):
                idx = [e.eval(a, st) for a in A if not a.get("def")]
                if len(idx) == 1 and isinstance(idx[0], LamV) and isinstance(o, Tn) and len(o.dims) == 2:
                    return self.each_apply(o, 0 if m == "each_col" else 1, idx[0], n, st)
                if idx:
                    return e.unk("each_col(idx)", None, n)
                return EachV(o, 0 if m == "each_col" else 1, e.lval(n["o"], st))
            if m in ("is_empty", "empty"):
                ne = o.dims[0] if len(o.dims) == 1 else o.nelem()
                k = ne.const()
                if k is not None:
                    return C(1 if k == 0 else 0)
                return eq(ne)
            if m == "size":
                return o.dims[0] if len(o.dims) == 1 else o.nelem()
            if m in ("max", "min", "index_max", "index_min"):
                return T.tfn(m, [o.lam()], (), isint=m.startswith("index"))
            if m in ("is_finite",):
                return C(1) if e.mode != "fail" else T.opq("FIN", [o.lam()], idem=True)
            if m in ("has_nan", "has_inf", "has_nonfinite"):
                return C(0) if e.mode != "fail" else C(1) - T.opq("FIN", [o.lam()], idem=True)
            if m == "memptr" or m == "data":
                lv = e.lval(n["o"], st)
                return Ptr(lv) if lv is not None else Unk("memptr")
            if m == "at" and len(A) >= 1:
                return self.elem(o, tuple(e.eval(a, st) for a in A))
            if m in ("begin", "cbegin", "end", "cend"):
                lv = e.lval(n["o"], st) or e.temp(o, st)
                return IterV(lv, C(0) if "begin" in m else self.seq_size(o))
            if m in ("fill", "zeros", "ones", "eye", "clear", "reset", "resize", "set_size", "swap_rows", "swap_cols", "shed_row", "shed_col", "insert_cols", "push_back", "pop_back", "reserve"):
                return self.mutate(o, m, n, st)
            if m in ("front", "back"):
                s = self.seq_size(o)
                return self.elem(o, (C(0) if m == "front" else s - 1,))
            if m == "as_col":
                return o
            if m == "eval":
                return o
            if m in ("cbegin",):
                return IterV(e.lval(n["o"], st), C(0))
        if isinstance(o, (ListV, SymSeq)) or (isinstance(o, (Choice, Unk)) and q.startswith("std::vector")):
            r = self.vec_mcall(o, m, n, st)
            if r is not None:
                return r
        if isinstance(o, Ptr):
            if m in ("get", "release"):
                return o
            if m == "operator bool":
                return C(0 if o.oid is None else 1)
            if m == "reset":
                v = e.eval(A[0], st) if A and not A[0].get("def") else Ptr(None)
                lv = e.lval(n["o"], st)
                if lv is not None:
                    e.write(st, lv, v)
                return VOID
        if q.startswith("std::unique_ptr") and m == "reset":
            lv = e.lval(n["o"], st)
            v = e.eval(A[0], st) if A and not A[0].get("def") else Ptr(None)
            if lv is not None:
                e.write(st, lv, v)
            return VOID
        if isinstance(o, OptV):
            if m in ("has_value", "operator bool"):
                return o.has
            if m == "value":
                return o.val if o.val is not None else Unk("empty optional")
            if m == "value_or":
                d = e.eval(A[0], st)
                if o.val is None:
                    return d
                return vite(o.has, o.val, d)
            if m == "reset":
                lv = e.lval(n["o"], st)
                if lv is not None:
                    e.write(st, lv, OptV(C(0), None))
                return VOID
        if isinstance(o, StrV):
            if m in ("size", "length"):
                return unknown("string length")
            return StrV("…")
        if isinstance(o, IterV):
            pass
        if q.startswith("std::_Bit_reference") and isinstance(o, Poly):
            return o
        if isinstance(o, Poly) and q.startswith(("std::unordered_map", "std::map")):
            lv = e.lval(n["o"], st)
            vals = [e.eval(a, st) for a in A]
            if m == "clear":
                e.write(st, lv, C(0))
                return VOID
            if m in ("insert", "emplace", "insert_or_assign"):
                if m == "insert" and len(vals) == 1 and isinstance(vals[0], ListV) and len(vals[0].items) == 2:
                    vals = list(vals[0].items)
                if lv is not None and len(vals) == 2:
                    e.write(st, lv.ext(("rec", vals[0])), vals[1])
                    return VOID
            return e.unk("map " + m, n.get("t"), n)
        if isinstance(o, MapV):
            lv = e.lval(n["o"], st)
            if m in ("begin", "cbegin", "end", "cend") and lv is not None:
                return IterV(lv, C(0 if "begin" in m else len(o.items)))
            if m in ("size", "empty"):
                return C(len(o.items)) if m == "size" else C(0 if o.items else 1)
            if m in ("find", "count", "at", "contains") and A:
                i = self.map_find(o, e.eval(A[0], st))
                if i is not None:
                    if m == "find" and lv is not None:
                        return IterV(lv, C(i))
                    if m in ("count", "contains"):
                        return C(1 if i < len(o.items) else 0)
                    if m == "at" and i < len(o.items):
                        return o.items[i][1]
            if m in ("insert", "emplace", "insert_or_assign") and lv is not None:
                vals = [e.eval(a, st) for a in A]
                if len(vals) == 1 and isinstance(vals[0], ListV) and len(vals[0].items) == 2:
                    vals = list(vals[0].items)
                if len(vals) == 2:
                    i = self.map_find(o, vals[0])
                    r = self.map_set(o, vals[0], vals[1], m == "insert_or_assign")
                    e.write(st, lv, r)
                    if i is not None:
                        return ListV([IterV(lv, C(i)), C(1 if i == len(o.items) else 0)], "pair")
                    return Unk("map")
            if m == "clear" and lv is not None:
                e.write(st, lv, MapV([]))
                return VOID
        if isinstance(o, MapV) and m in ("insert", "emplace", "erase", "clear"):
            lv = e.lval(n["o"], st)
            for a in A:
                e.eval(a, st)
            if lv is not None:
                e.write(st, lv, Unk("map update"))
            return Unk("map")
        # unknown method: the receiver is modified unless const
        for a in A:
            e.eval(a, st)
        e.havoc_args(n, st)
        if not n.get("const"):
            lv = e.lval(n["o"], st)
            if lv is not None and not isinstance(o, (ObjV, Ptr)):
                e.setloc(st, lv.loc, e.taint_like(e.getloc(st, lv.loc), "method %s" % m))
        return e.unk("method %s of %s" % (q or m, type(o).__name__), t, n)

    def vec_mcall(self, o, m, n, st):
        e = self.e
        A = n["a"]
        if m == "size":
            s = self.seq_size(o)
            return s if s is not None else unknown("size")
        if m == "empty":
            s = self.seq_size(o)
            return eq(s) if s is not None else e.unkbool("empty")
        if m in ("begin", "cbegin", "end", "cend"):
            lv = e.lval(n["o"], st) or e.temp(o, st)
            return IterV(lv, C(0) if "begin" in m else self.seq_size(o))
        if m in ("push_back", "emplace_back", "pop_back", "clear", "resize", "reserve", "erase"):
            return self.mutate(o, m, n, st)
        if m in ("at",):
            return self.seq_get(o, e.eval(A[0], st))
        if m in ("front", "back"):
            s = self.seq_size(o)
            return self.seq_get(o, C(0) if m == "front" else s - 1)
        return None

    def mutate(self, o, m, n, st):
        e = self.e
        A = [e.eval(a, st) for a in n["a"] if not a.get("def")]
        lv = e.lval(n["o"], st)
        new = None
        if m == "reserve":
            return VOID
        if isinstance(o, Tn) and len(o.dims) >= 2:
            if m == "fill" and isinstance(A[0], Poly):
                new = build(o.dims, lambda *i: A[0], o.isint)
            elif m in ("zeros", "ones", "eye"):
                d = o.dims
                sz = [a for a in A if isinstance(a, Poly)]
                if sz:
                    d = sz if len(sz) == len(o.dims) else ([sz[0], C(1)] if o.dims[0].const() != 1 else [C(1), sz[0]])
                new = build(d, (lambda *i: C(0)) if m == "zeros" else (lambda *i: C(1)) if m == "ones" else (lambda *i: eq(i[0] - i[1])), o.isint)
            elif m in ("clear", "reset"):
                d = [C(0) if x.const() != 1 else C(1) for x in o.dims]
                new = build([C(0)] + list(d[1:]), lambda *i: C(0), o.isint)
            elif m in ("resize", "set_size"):
                sz = [a for a in A if isinstance(a, Poly)]
                d = sz if len(sz) == len(o.dims) else ([sz[0], C(1)] if o.dims[0].const() != 1 else [C(1), sz[0]])
                if m == "resize":
                    def f(*i):
                        c = C(1)
                        for x, dd in zip(i, o.dims):
                            if dd.const() == 1:
                                continue
                            c = c * in_range(x, C(0), dd)
                        return ite(c, o.at(*i), C(0)) if c.const() != 0 else C(0)
                    new = build(d, f, o.isint)
                else:
                    new = build(d, lambda *i: T.opq("uninit:set_size", i))
        elif isinstance(o, Tn):
            nn = o.dims[0]
            if m in ("push_back", "emplace_back") and isinstance(A[0], Poly):
                new = build((nn + 1,), lambda i: ite(eq(i - nn), A[0], o.at(i)), o.isint)
            elif m == "pop_back":
                new = build((nn - 1,), lambda i: o.at(i), o.isint)
            elif m == "clear":
                new = ListV([], "vector")
            elif m == "resize":
                fillv = A[1] if len(A) > 1 else C(0)
                new = build((A[0],), lambda i: ite(in_range(i, C(0), nn), o.at(i), fillv), o.isint)
        elif isinstance(o, ListV):
            if m in ("push_back", "emplace_back") and len(A) == 1 and isinstance(A[0], (StrV, Choice)) and self.strcode(A[0]) is not None:
                A = [self.strcode(A[0])]
            if m in ("push_back", "emplace_back") and len(A) == 1:
                new = ListV(o.items + (e.copyval(A[0], st, n["a"][0]),), o.kind)
            elif m in ("emplace_back",) and len(A) == 2:
                new = ListV(o.items + (ListV(A, "pair"),), o.kind)
            elif m == "pop_back" and o.items:
                new = ListV(o.items[:-1], o.kind)
            elif m == "clear":
                new = ListV([], o.kind)
            elif m == "erase" and len(A) == 1 and isinstance(A[0], IterV) and o.items and len(o.items) <= 6:
                p = A[0].pos
                k = p.const()
                if k is not None:
                    if 0 <= k < len(o.items):
                        new = ListV(o.items[:int(k)] + o.items[int(k) + 1:], o.kind)
                else:
                    new = ListV([vite(lt(C(j) - p, True), o.items[j], o.items[j + 1]) for j in range(len(o.items) - 1)], o.kind)
            elif m == "resize" and isinstance(A[0], Poly):
                k = A[0].const()
                if k is not None and k <= 16:
                    it = list(o.items[:int(k)])
                    while len(it) < k:
                        it.append(C(0))
                    new = ListV(it, o.kind)
                elif not o.items:
                    new = build((A[0],), lambda i: C(0))
        if new is None:
            new = e.taint_like(o, "container update %s" % m)
            e.note("container update %s" % m, n)
        if lv is None:
            e.lost(n["o"], st, n)
            return VOID
        e.write(st, lv, new)
        return VOID

    # ---------------------------------------------------------- free functions
    def call(self, n, st):
        e = self.e
        q = n.get("q", "")
        name = q.split("::")[-1]
        A = n["a"]
        t = n.get("t", "")
        if q == "arma::svd" or q == "arma::svd_econ" or q == "arma::eig_sym":
            return self.svd(n, st, name)
        if q in ("std::move", "std::forward"):
            return e.eval(A[0], st)
        if q == "std::get":
            lv = e.lval(A[0], st)
            return e.eval(A[0], st)
        if q == "std::swap":
            l0, l1 = e.lval(A[0], st), e.lval(A[1], st)
            a, b = e.eval(A[0], st), e.eval(A[1], st)
            if l0 and l1:
                e.write(st, l0, b)
                e.write(st, l1, a)
                return VOID
        if q in ("std::sort", "std::stable_sort") and len(A) == 3:
            r = self.sort(n, st)
            if r is not None:
                return r
        if q in ("std::find", "std::find_if", "std::count", "std::count_if", "std::any_of", "std::all_of", "std::none_of") and len(A) == 3:
            r = self.search(q[5:], [e.eval(a, st) for a in A], st, n)
            if r is not None:
                return r
        if q in ("std::transform", "std::copy", "std::for_each") and len(A) in (3, 4):
            r = self.transform(q[5:], [e.eval(a, st) for a in A], st, n)
            if r is not None:
                return r
        if q == "std::to_string":
            return StrV("…")
        if q == "std::make_pair":
            return ListV([e.copyval(e.eval(a, st), st, a) for a in A], "pair")
        if q == "std::make_unique" or q == "std::make_shared":
            return self.make_unique(n, st)
        if name == "omp_get_thread_num":
            if e.omp:
                nt, v = e.omp[-1]
                return fn("tid", nt, *([var(v)] if v else []))
            return C(0)
        if name in ("omp_get_num_threads",):
            return e.omp[-1][0] if e.omp else C(1)
        if name in ("omp_get_max_threads", "omp_get_num_procs"):
            return leaf(name, isint=True)
        vals = [e.eval(a, st) for a in A]
        return self.call_vals(q, name, vals, n, st)

    def elements(self, a, b, st):
        """values between two iterators when their number is known"""
        e = self.e
        if not (isinstance(a, IterV) and isinstance(b, IterV)) or repr(a.lv) != repr(b.lv) or a.pos is None or b.pos is None:
            return None
        i, j = a.pos.const(), b.pos.const()
        if i is None or j is None or not 0 <= j - i <= 12:
            return None
        v = e.read(st, a.lv)
        if isinstance(v, Unk):
            return None
        return [self.seq_get(v, C(k)) for k in range(int(i), int(j))]

    def search(self, name, vals, st, n):
        e = self.e
        a, b, x = vals
        el = self.elements(a, b, st)
        if el is None:
            return None
        hits = []
        for v in el:
            if name.endswith(("_if", "_of")):
                if not isinstance(x, (LamV, FnV)):
                    return None
                c = e.truth(e.invoke_lambda(x, None, st, n, [v]), st) if isinstance(x, LamV) else None
            else:
                c = self.valeq(v, x)
            if not isinstance(c, Poly):
                return None
            hits.append(c)
        if name in ("count", "count_if"):
            r = C(0)
            for h in hits:
                r = r + h
            return r
        if name in ("any_of", "none_of", "all_of"):
            r = C(1)
            for h in hits:
                r = r * (h if name == "all_of" else C(1) - h)
            return C(1) - r if name == "any_of" else r
        r = b.pos
        for k in range(len(hits) - 1, -1, -1):
            r = ite(hits[k], a.pos + k, r)
        return IterV(a.lv, r)

    def transform(self, name, vals, st, n):
        e = self.e
        el = self.elements(vals[0], vals[1], st)
        if el is None or (name != "copy" and not isinstance(vals[-1], LamV)) or len(vals) == 4 and name != "transform":
            return None
        if name == "for_each":
            for v in el:
                e.invoke_lambda(vals[2], None, st, n, [v])
            return vals[2]
        out = vals[2]
        if len(vals) != (3 if name == "copy" else 4) or not isinstance(out, IterV):
            return None
        for k, v in enumerate(el):
            r = v if name == "copy" else e.invoke_lambda(vals[3], None, st, n, [v])
            e.write(st, out.lv.ext(("idx", out.pos + k)), r)
        return IterV(out.lv, out.pos + len(el))

    def sort(self, n, st):
        """sorting network over a few elements with the comparison given"""
        e = self.e
        a, b, f = [e.eval(x, st) for x in n["a"]]
        if not (isinstance(a, IterV) and isinstance(b, IterV) and isinstance(f, LamV) and repr(a.lv) == repr(b.lv)):
            return None
        if a.pos is None or b.pos is None:
            return None
        i, j = a.pos.const(), b.pos.const()
        v = e.read(st, a.lv)
        if i is None or j is None or not isinstance(v, ListV) or not 0 <= i <= j <= len(v.items) or j - i > 4:
            return None
        i, j = int(i), int(j)
        it = list(v.items)
        for end in range(j - 1, i, -1):
            for k in range(i, end):
                c = e.truth(e.invoke_lambda(f, None, st, n, [it[k + 1], it[k]]), st)
                it[k], it[k + 1] = vite(c, it[k + 1], it[k]), vite(c, it[k], it[k + 1])
        e.write(st, a.lv, ListV(it, v.kind))
        return VOID

    def make_unique(self, n, st):
        e = self.e
        t = n.get("t", "")
        if t.startswith("std::unique_ptr<"):
            el = t[len("std::unique_ptr<"):-1].split(",")[0].strip()
            c = e.cname(el)
            if c in e.CLS:
                fs = [f for f in e.F.values() if f.get("ctor") and f.get("cls") == c and len(f["p"]) == len(n["a"]) and not f.get("copyctor") and not f.get("movector")]
                oid = e.newoid(c)
                if len(fs) == 1 or (not n["a"]):
                    e.construct(oid, c, fs[0] if fs else None, n["a"], st, n)
                    return Ptr(oid)
                cp = [f for f in e.F.values() if f.get("ctor") and f.get("cls") == c and f.get("copyctor")]
                if len(n["a"]) == 1:
                    v = e.eval(n["a"][0], st)
                    if isinstance(v, ObjV):
                        e.copyfields(oid, v, st)
                        return Ptr(oid)
                if len(fs) > 1:
                    at = [a.get("t", "") for a in n["a"]]
                    best = [f for f in fs if all(p["t"].replace("const ", "") == x.replace("const ", "") for p, x in zip(f["p"], at))]
                    if best:
                        e.construct(oid, c, best[0], n["a"], st, n)
                        return Ptr(oid)
            if el.endswith("[]"):
                sz = e.eval(n["a"][0], st)
                if isinstance(sz, Poly):
                    lv = e.temp(build((sz,), lambda i: C(0)), st)
                    return Ptr(lv)
        for a in n["a"]:
            e.eval(a, st)
        return e.unk("make_unique", t, n)

    def svd(self, n, st, name):
        e = self.e
        A = n["a"]
        X = e.eval(A[-1] if not A[-1].get("def") else [a for a in A if not a.get("def")][-1], st)
        outs = [a for a in A if not a.get("def")]
        # svd(U, s, V, X [, method]) | svd(s, X) | eig_sym(val, vec, X)
        xs = [(a, e.eval(a, st)) for a in outs]
        pts = n.get("pt", [])
        src = None
        for i, (a, v) in enumerate(xs):
            if isinstance(v, Tn) and (i >= len(pts) or pts[i].startswith("const ")):
                src = v
        if src is None:
            return e.unk("svd", n.get("t"), n)
        L = src.lam()
        self.fails("SVDF", [L], st)
        if len(outs) == 1:
            return build((src.dims[1], C(1)), lambda i, j: T.tfn("svds", [L], (i,)))
        outn = [a for i, (a, v) in enumerate(xs) if i < len(pts) and not pts[i].startswith("const ") and pts[i].endswith("&")]
        names = {3: ["svdU", "svds", "svdV"], 1: ["svds"], 2: ["eigval", "eigvec"]}[len(outn)]
        mn = src.dims[1]
        for a, nm in zip(outn, names):
            lv = e.lval(a, st)
            if nm in ("svds", "eigval"):
                v = build((mn, C(1)), lambda i, j: T.tfn("svds", [L], (i,)))
            elif nm == "svdU":
                v = build((src.dims[0], src.dims[0]), lambda i, j: T.tfn("svdU", [L], (i, j)))
            else:
                v = build((src.dims[1], src.dims[1]), lambda i, j, nm=nm: T.tfn(nm, [L], (i, j)))
            if lv is None:
                e.lost(a, st, n)
            else:
                e.write(st, lv, v)
        return C(1)

    def call_vals(self, q, name, vals, n, st):
        e = self.e
        t = n.get("t", "")
        for k, v in enumerate(vals):
            if isinstance(v, Choice):
                def f(x, k=k):
                    vv = list(vals)
                    vv[k] = x
                    return self.call_vals(q, name, vv, n, st)
                return vite(v.c, f(v.a), f(v.b))
            if isinstance(v, EachV):
                vals = list(vals)
                vals[k] = v.t
        num = [v for v in vals if isinstance(v, (Tn, Poly))]
        a = vals[0] if vals else None
        if isinstance(a, (Tn, Poly)):
            r = self.numeric(q, name, vals, n, st)
            if r is not None:
                return r
        if q.startswith("arma::") and name in ("zeros", "ones", "eye", "linspace", "randu"):
            r = self.gen(name, vals, t, n)
            if r is not None:
                return r
        if name in ("min", "max") and q.startswith("std::") and isinstance(a, ListV) and all(isinstance(x, Poly) for x in a.items):
            r = a.items[0]
            for x in a.items[1:]:
                r = fn(name, r, x)
            return r
        if q.startswith("gsl_") or q.startswith("MPI_"):
            e.havoc_args(n, st)
            return e.unk(q, t, n)
        e.havoc_args(n, st)
        return e.unk("call of %s" % q, t, n)

    def gen(self, name, vals, t, n):
        sz = [v for v in vals if isinstance(v, Poly)]
        if name == "linspace" and len(sz) >= 2:
            nn = sz[2] if len(sz) > 2 else C(100)
            if (sz[1] - sz[0] - nn + 1).const() == 0:
                return build((nn, C(1)), lambda i, j: sz[0] + i)
            return build((nn, C(1)), lambda i, j: sz[0] + i * (sz[1] - sz[0]) / (nn - 1))
        if not sz:
            return None
        if len(sz) == 1:
            d = (sz[0], C(1)) if "row" not in t else (C(1), sz[0])
        else:
            d = tuple(sz)
        f = {"zeros": lambda *i: C(0), "ones": lambda *i: C(1), "eye": lambda *i: eq(i[0] - i[1])}.get(name)
        return build(d, f) if f else None

    UN = {"exp": lambda x: fn("exp", x), "log": lambda x: fn("log", x), "sqrt": lambda x: mkpow(x, T.HALF), "abs": lambda x: fn("abs", x), "fabs": lambda x: fn("abs", x),
          "square": lambda x: x * x, "floor": lambda x: fn("floor", x), "ceil": lambda x: fn("ceil", x), "round": lambda x: fn("round", x), "trunc": lambda x: fn("trunc", x),
          "sin": lambda x: fn("sin", x), "cos": lambda x: fn("cos", x), "tan": lambda x: fn("tan", x), "atan": lambda x: fn("atan", x), "asin": lambda x: fn("asin", x), "acos": lambda x: fn("acos", x),
          "lgamma": lambda x: fn("lgamma", x), "tgamma": lambda x: fn("tgamma", x), "log2": lambda x: fn("log", x) / fn("log", C(2)), "log10": lambda x: fn("log", x) / fn("log", C(10)),
          "sign": lambda x: fn("sign", x), "log1p": lambda x: fn("log", x + 1), "expm1": lambda x: fn("exp", x) - 1}

    def numeric(self, q, name, vals, n, st):
        e = self.e
        t = n.get("t", "")
        a = vals[0]
        b = vals[1] if len(vals) > 1 else None
        scalar = t in SC_FLT or t in SC_INT
        if name in self.UN:
            return self.f1(a, self.UN[name])
        if name == "pow":
            if isinstance(b, Poly):
                return self.f1(a, lambda x: fn("pow", x, b))
            if isinstance(b, Tn) and isinstance(a, Tn):
                return build(a.dims, lambda *i: fn("pow", a.at(*i), b.at(*i)))
        if name in ("isfinite",):
            if e.mode != "fail":
                return C(1)
            return T.opq("FIN", [a if isinstance(a, Poly) else a.lam()], idem=True)
        if name in ("isinf", "isnan"):
            if e.mode != "fail":
                return C(0)
            return C(1) - T.opq("FIN", [a if isinstance(a, Poly) else a.lam()], idem=True)
        if name in ("min", "max", "fmin", "fmax") and isinstance(a, Poly) and isinstance(b, Poly) and q.startswith(("std::", "fm", "f")):
            return fn(name[-3:], a, b)
        if name == "hypot" and isinstance(a, Poly):
            return mkpow(a * a + b * b, T.HALF)
        if name in ("atan2", "fmod", "gsl_ran_binomial_pdf", "gsl_sf_lnfact") and all(isinstance(v, Poly) for v in vals):
            return fn(name, *vals)
        if isinstance(a, Poly):
            if name in ("as_scalar", "accu", "sum", "mean", "median", "max", "min", "trans", "det", "trace") and b is None:
                return a
            if name in ("join_rows", "join_cols", "join_horiz", "join_vert"):
                pass
            if name in ("zeros", "ones", "eye", "linspace"):
                return None
            if not name.startswith("join"):
                return None
            a = build((C(1), C(1)), lambda i, j: vals[0])
        # tensors
        if name in ("trans", "strans"):
            return self.tr(a)
        if name == "sum":
            if scalar:
                return self.total(a)
            d = b.const() if isinstance(b, Poly) else None
            if d is None:
                d = 0
            return self.sumdim(a, d)
        if name == "accu":
            return self.total(a)
        if name == "as_scalar":
            return a.at(*[C(0)] * len(a.dims))
        if name == "mean":
            if scalar:
                return self.total(a) / self.nel(a)
            d = b.const() if isinstance(b, Poly) else 0
            s = self.sumdim(a, d)
            return self.elt("/", s, a.dims[int(d)])
        if name in ("stddev", "var"):
            if scalar:
                nn = self.nel(a)
                mu = self.total(a) / nn
                cnt = nn - 1 if not (isinstance(b, Poly) and b.const() == 1) else nn
                v = self.total(self.f1(a, lambda x: (x - mu) * (x - mu))) / cnt
                return mkpow(v, T.HALF) if name == "stddev" else v
            d = int(vals[2].const()) if len(vals) > 2 and isinstance(vals[2], Poly) else 0
            if d not in (0, 1):
                return None
            mu = self.elt("/", self.sumdim(a, d), a.dims[d])
            cnt = a.dims[d] - 1 if not (isinstance(b, Poly) and b.const() == 1) else a.dims[d]
            dev = build(a.dims, lambda i, j: (lambda z: z * z)(a.at(i, j) - (mu.at(C(0), j) if d == 0 else mu.at(i, C(0)))))
            v = self.elt("/", self.sumdim(dev, d), cnt)
            return self.f1(v, lambda x: mkpow(x, T.HALF)) if name == "stddev" else v
        if name == "median":
            if scalar:
                return T.tfn("median", [a.lam()], ())
            d = int(b.const()) if isinstance(b, Poly) else 0
            return self.reduce_opq("median", a, d)
        if name in ("max", "min"):
            if isinstance(b, Tn):
                return build(a.dims, lambda *i: fn(name, a.at(*i), b.at(*i)))
            if scalar:
                return T.tfn(name, [a.lam()], ())
            d = int(b.const()) if isinstance(b, Poly) and b.const() is not None else 0
            return self.reduce_opq(name, a, d)
        if name in ("index_max", "index_min"):
            if scalar:
                return T.tfn(name, [a.lam()], (), isint=True)
            d = int(b.const()) if isinstance(b, Poly) else 0
            return self.reduce_opq(name, a, d, True)
        if name in ("inv", "inv_sympd", "pinv"):
            if isinstance(b, Tn):
                return None
            return self.inv(a, st)
        if name == "solve" and isinstance(b, Tn):
            return self.matmul(self.inv(a, st), b)
        if name == "det":
            if a.dims[0].const() == 1:
                return a.at(C(0), C(0))
            return T.tfn("det", [a.lam()], ())
        if name == "trace":
            v = fresh("u", C(0), a.dims[0])
            return sum_(v, C(0), a.dims[0], a.at(var(v), var(v)))
        if name == "diagmat":
            if a.dims[1].const() == 1:
                return build((a.dims[0], a.dims[0]), lambda i, j: eq(i - j) * a.at(i, C(0)))
            if a.dims[0].const() == 1:
                return build((a.dims[1], a.dims[1]), lambda i, j: eq(i - j) * a.at(C(0), i))
            return build(a.dims, lambda i, j: eq(i - j) * a.at(i, i))
        if name == "diagvec":
            return build((a.dims[0], C(1)), lambda i, j: a.at(i, i))
        if name == "sort":
            d = vals[1:] if len(vals) > 1 else []
            mode = d[0].s if d and isinstance(d[0], StrV) else "ascend"
            if a.dims[1].const() == 1 or a.dims[0].const() == 1:
                L = a.lam()
                k = 0 if a.dims[0].const() != 1 else 1
                return build(a.dims, lambda *i: T.tfn("sort:" + mode, [L], (i[k],)))
            return None
        if name in ("sort_index", "stable_sort_index"):
            d = vals[1:] if len(vals) > 1 else []
            mode = d[0].s if d and isinstance(d[0], StrV) else "ascend"
            L = a.lam()
            k = 0 if a.dims[0].const() != 1 else 1
            return build((a.nelem(), C(1)), lambda i, j: T.tfn("sort_index:" + mode, [L], (i,), isint=True), True)
        if name == "cumsum":
            if a.dims[1].const() == 1:
                def f(i, j):
                    v = fresh("u", C(0), i + 1)
                    return sum_(v, C(0), i + 1, a.at(var(v), C(0)))
                return build(a.dims, f)
            if a.dims[0].const() == 1:
                def f(i, j):
                    v = fresh("u", C(0), j + 1)
                    return sum_(v, C(0), j + 1, a.at(C(0), var(v)))
                return build(a.dims, f)
            return None
        if name == "find":
            L = a.lam()
            if not (len(a.dims) == 1 or a.dims[1].const() == 1):
                return None
            cnt = self.total(a)
            return build((cnt, C(1)), lambda i, j: T.tfn("find", [L], (i,), isint=True), True)
        if name in ("all", "any"):
            if scalar:
                if name == "all":
                    v = fresh("u", C(0), a.dims[0])
                    return T.tfn("all", [a.lam()], (), boolean=True)
                return T.tfn("any", [a.lam()], (), boolean=True)
            return None
        if name == "norm":
            k = b.const() if isinstance(b, Poly) else 2
            if (k == 2 or b is None) and isinstance(a, Tn) and len(a.dims) == 2 and not any(d.const() == 1 for d in a.dims):
                return T.tfn("svds", [a.lam()], (C(0),))    # largest singular value
            if k == 1 and isinstance(a, Tn) and len(a.dims) == 2 and not any(d.const() == 1 for d in a.dims):
                return None
            if k == 2 or b is None:
                return mkpow(self.total(self.f1(a, lambda x: x * x)), T.HALF)
            if k == 1:
                return self.total(self.f1(a, lambda x: fn("abs", x)))
            return None
        if name == "dot" and isinstance(b, Tn):
            # elements are paired in storage order, whatever the orientations
            if len(a.dims) == 2 and len(b.dims) == 2 and a.dims != b.dims:
                one = lambda t, k: t.dims[k].const() == 1
                if one(a, 0) and one(b, 1) and not one(a, 1):
                    a = self.tr(a)
                elif one(a, 1) and one(b, 0) and not one(b, 1):
                    b = self.tr(b)
            return self.total(self.elt("%", a, b))
        if name in ("join_rows", "join_horiz"):
            r = a
            for x in vals[1:]:
                if isinstance(x, Poly):
                    x = build((C(1), C(1)), lambda i, j, x=x: x)
                if not isinstance(x, Tn):
                    return None
                r = self.joinr(r, x)
            return r
        if name in ("join_cols", "join_vert"):
            r = self.tr(a)
            for x in vals[1:]:
                if isinstance(x, Poly):
                    x = build((C(1), C(1)), lambda i, j, x=x: x)
                if not isinstance(x, Tn):
                    return None
                r = self.joinr(r, self.tr(x))
            return self.tr(r)
        if name == "vectorise":
            if a.dims[1].const() == 1:
                return a
            if a.dims[0].const() == 1:
                return self.tr(a)
            nr = a.dims[0]
            return build((a.nelem(), C(1)), lambda i, j: a.at(fn("mod", i, nr), fn("idiv", i, nr)))
        if name == "size":
            return ListV(a.dims, "size")
        if name in ("repmat",):
            return None
        if name == "as_col":
            return a
        if name in ("conv_to",):
            return a
        if name in ("is_finite",):
            return C(1) if e.mode != "fail" else T.opq("FIN", [a.lam()], idem=True)
        return None

    def nel(self, a):
        r = C(1)
        for d in a.dims:
            r = r * d
        return r

    def reduce_opq(self, name, a, d, isint=False):
        if d == 0:
            def f(i, j):
                v = fresh("k", C(0), a.dims[0])
                return T.tfn(name, [lam((a.dims[0], C(1)), (v, fresh("k")), a.at(var(v), j))], (), isint=isint)
            return build((C(1), a.dims[1]), f, isint)

        def g(i, j):
            v = fresh("k", C(0), a.dims[1])
            return T.tfn(name, [lam((C(1), a.dims[1]), (fresh("k"), v), a.at(i, var(v)))], (), isint=isint)
        return build((a.dims[0], C(1)), g, isint)

    def joinr(self, a, b):
        if a.dims[1].const() == 0:
            return b
        n = a.dims[1]
        rows = a.dims[0] if a.dims[0].const() is None else b.dims[0] if a.dims[0].const() == 0 else a.dims[0]
        return build((rows, n + b.dims[1]), lambda i, j: ite(lt(j - n, True), a.at(i, j), b.at(i, j - n)))


def has_effect(n):
    """does evaluating the expression write anything?"""
    if isinstance(n, dict):
        if n.get("k") == "asg" or (n.get("k") == "un" and n.get("o") in ("++", "--")):
            return True
        if n.get("k") == "op" and n.get("o") in ("=", "+=", "-=", "++", "--"):
            return True
        return any(has_effect(v) for v in n.values())
    if isinstance(n, list):
        return any(has_effect(v) for v in n)
    return False
