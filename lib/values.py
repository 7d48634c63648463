"""Abstract values of the value-flow analysis."""
from terms import *
import terms as T


class Tn:
    """tensor: a function of its indices.  dims: tuple of Poly, body: Poly over the index variables vs"""
    __slots__ = ("dims", "vs", "body", "_key", "_memo", "isint")

    def __init__(self, dims, vs, body, isint=False):
        self.dims = tuple(dims)
        self.vs = tuple(vs)
        self.body = body
        self._key = None
        self._memo = {}
        self.isint = isint

    @property
    def key(self):
        if self._key is None:
            self._key = self.lam().key
        return self._key

    def lam(self):
        # indices along unit dimensions are irrelevant
        mp = {}
        for d, v in zip(self.dims, self.vs):
            if d.const() == 1:
                mp[v] = C(0)
        b = subst(self.body, mp) if mp else self.body
        return lam(self.dims, self.vs, b)

    def at(self, *idx):
        idx = tuple(_poly(i) for i in idx)
        k = tuple(i.key for i in idx)
        r = self._memo.get(k)
        if r is None:
            mp = {}
            for v, i in zip(self.vs, idx):
                mp[v] = i
            r = subst(self.body, mp)
            if len(self._memo) < 64:
                self._memo[k] = r
        return r

    def nelem(self):
        r = C(1)
        for d in self.dims:
            r = r * d
        return r

    def __repr__(self):
        return "T[%s](%s)" % ("x".join(show(d, 2) for d in self.dims), show(self.body, 5))


def _poly(x):
    return x if isinstance(x, Poly) else C(x)


def build(dims, f, isint=False):
    dims = tuple(_poly(d) for d in dims)
    vs = tuple(fresh("k", C(0), d) for d in dims)
    args = []
    for v, d in zip(vs, dims):
        args.append(C(0) if d.const() == 1 else var(v))
    return Tn(dims, vs, f(*args), isint)


class Ptr:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    @property
    def key(self):
        return "ptr:%s" % (self.oid,)

    def __repr__(self):
        return "Ptr(%s)" % (self.oid,)


class ObjV:
    __slots__ = ("oid",)

    def __init__(self, oid):
        self.oid = oid

    @property
    def key(self):
        return "obj:%s" % (self.oid,)

    def __repr__(self):
        return "Obj(%s)" % (self.oid,)


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    @property
    def key(self):
        return "fn:" + self.fn

    def __repr__(self):
        return "Fn(%s)" % self.fn


class LamV:
    """closure: node + captured environment frame"""
    __slots__ = ("node", "frame", "caps", "this")

    def __init__(self, node, frame, caps, this):
        self.node, self.frame, self.caps, self.this = node, frame, caps, this

    @property
    def key(self):
        return "lambda:%d" % id(self.node)


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    @property
    def key(self):
        return "str:" + str(self.s)


class ListV:
    """known finite list (initializer list, std::vector with known elements, pair)"""
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items = tuple(items)
        self.kind = kind

    @property
    def key(self):
        return "list:" + ",".join(vkey(i) for i in self.items)

    def __repr__(self):
        return "%s%r" % (self.kind, self.items)


class SymSeq:
    """symbolic std::vector of objects: elements named by index"""
    __slots__ = ("origin", "cls", "size")

    def __init__(self, origin, cls, size):
        self.origin, self.cls, self.size = origin, cls, size

    @property
    def key(self):
        return "symseq:%s:%s" % (okey(self.origin), self.size.key)


class OptV:
    __slots__ = ("has", "val")

    def __init__(self, has, val):
        self.has, self.val = has, val

    @property
    def key(self):
        return "opt:%s:%s" % (self.has.key, vkey(self.val))


class MapV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    @property
    def key(self):
        return "map:" + ",".join(vkey(a) + ">" + vkey(b) for a, b in self.items)


class RefV:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    @property
    def key(self):
        return "ref:%s:%s" % (self.lv.loc, len(self.lv.path))


class EachV:
    """x.each_col() / x.each_row()"""
    __slots__ = ("t", "ax", "lv", "idx")

    def __init__(self, t, ax, lv, idx=None):
        self.t, self.ax, self.lv, self.idx = t, ax, lv, idx

    @property
    def key(self):
        return "each:%s" % self.t.key


class IterV:
    """iterator into a container: (container location, position)"""
    __slots__ = ("lv", "pos")

    def __init__(self, lv, pos):
        self.lv, self.pos = lv, pos

    @property
    def key(self):
        return "iter:%s:%s" % (self.lv.loc if self.lv else None, self.pos.key)


class Choice:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    @property
    def key(self):
        return "choice:%s:%s:%s" % (self.c.key, vkey(self.a), vkey(self.b))

    def __repr__(self):
        return "Choice(%s,%r,%r)" % (show(self.c, 3), self.a, self.b)


class Unk:
    __slots__ = ("why", "n")
    _c = [0]

    def __init__(self, why):
        self.why = why
        Unk._c[0] += 1
        self.n = Unk._c[0]

    @property
    def key(self):
        return "unk:%d" % self.n

    def __repr__(self):
        return "Unk(%s)" % self.why


class Uninit:
    """storage that was never written"""
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    @property
    def key(self):
        return "uninit:" + self.what

    def __repr__(self):
        return "Uninit(%s)" % self.what


class VoidV:
    key = "void"


VOID = VoidV()


def okey(origin):
    n, idx = origin
    return n + ("[" + ",".join(i.key for i in idx) + "]" if idx else "")


def vkey(v):
    return v.key if v is not None else "None"


class LV:
    """storage designator: root location + access path"""
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, tuple(path)

    def ext(self, *steps):
        return LV(self.loc, self.path + steps)

    def __repr__(self):
        return "LV(%s,%s)" % (self.loc, [s[0] for s in self.path])


def vmap(v, f):
    """apply f to every Poly inside the value"""
    if isinstance(v, Poly):
        return f(v)
    if isinstance(v, Tn):
        nb = f(v.body)
        nd = tuple(f(d) for d in v.dims)
        if nb is v.body and all(a is b for a, b in zip(nd, v.dims)):
            return v
        return Tn(nd, v.vs, nb, v.isint)
    if isinstance(v, ListV):
        return ListV([vmap(i, f) for i in v.items], v.kind)
    if isinstance(v, OptV):
        return OptV(f(v.has), vmap(v.val, f))
    if isinstance(v, Choice):
        return vite(f(v.c), vmap(v.a, f), vmap(v.b, f))
    if isinstance(v, SymSeq):
        return SymSeq((v.origin[0], tuple(f(i) for i in v.origin[1])), v.cls, f(v.size))
    return v


def vpolys(v, acc=None):
    if acc is None:
        acc = []
    vmap(v, lambda p: (acc.append(p), p)[1])
    return acc


def vite(c, a, b):
    if a is b:
        return a
    k = c.const()
    if k is not None:
        return a if k else b
    if isinstance(a, Poly) and isinstance(b, Poly):
        return ite(c, a, b)
    if isinstance(a, Tn) and isinstance(b, Tn) and len(a.dims) == len(b.dims):
        dims = tuple(ite(c, x, y) for x, y in zip(a.dims, b.dims))
        rng = tuple(fresh("k", C(0), d) for d in dims)
        vs = [var(n) for n in rng]
        return Tn(dims, rng, ite(c, a.at(*vs), b.at(*vs)), a.isint and b.isint)
    if vkey(a) == vkey(b):
        return a
    if isinstance(a, ListV) and isinstance(b, ListV) and len(a.items) == len(b.items):
        return ListV([vite(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
    if isinstance(a, OptV) and isinstance(b, OptV):
        if a.val is None:
            return OptV(ite(c, a.has, b.has), b.val)
        if b.val is None:
            return OptV(ite(c, a.has, b.has), a.val)
        return OptV(ite(c, a.has, b.has), vite(c, a.val, b.val))
    if isinstance(a, Uninit):
        return b
    if isinstance(b, Uninit):
        return a
    if a is VOID:
        return b
    if b is VOID:
        return a
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    return Choice(c, a, b)


def vtaint(v):
    if isinstance(v, Unk):
        return True
    if isinstance(v, Choice):
        return vtaint(v.a) or vtaint(v.b) or v.c.taint
    if isinstance(v, ListV):
        return any(vtaint(i) for i in v.items)
    return any(p.taint for p in vpolys(v))


class St:
    __slots__ = ("env", "pend")

    def __init__(self, env=None, pend=None):
        self.env = env if env is not None else {}
        self.pend = pend

    def copy(self):
        return St(dict(self.env), self.pend)
