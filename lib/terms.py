"""Value numbering domain: every scalar the program computes is kept as a normal form
(polynomial over atoms with exact rational coefficients).  Atoms are inputs, index-summations,
matrix inverses, Iverson brackets for conditions and uninterpreted functions.  Two program
values are considered equal iff their normal forms are identical.  No solver, no evaluation."""
from fractions import Fraction
import hashlib
import itertools

ONE = Fraction(1)
ZERO = Fraction(0)
HALF = Fraction(1, 2)


class TooBig(Exception):
    pass


MAX_TERMS = 6000

_atoms = {}
_fresh = [0]
RANGE = {}          # fresh index variable -> (lo Poly, hi Poly)


def H(*parts):
    m = hashlib.blake2b(digest_size=12)
    for p in parts:
        m.update(p.encode() if isinstance(p, str) else repr(p).encode())
        m.update(b"\x00")
    return m.hexdigest()


class Atom:
    __slots__ = ("kind", "name", "args", "key", "fv", "h", "pre", "taint", "idem", "isint", "__weakref__")

    def __repr__(self):
        return show_atom(self)


def _mk(kind, name, args, idem=False, isint=False, bound=()):
    parts = [kind, str(name), "I" if isint else ""]
    fv, h, pre, taint = set(), 0, set(), False
    for a in args:
        parts.append(a.key if a is not None else "-")
        if a is not None:
            fv |= a.fv
            h = max(h, a.h)
            pre |= a.pre
            taint = taint or a.taint
    key = H(*parts)
    at = _atoms.get(key)
    if at is not None:
        return at
    at = Atom()
    at.kind, at.name, at.args, at.key = kind, name, tuple(args), key
    at.fv = frozenset(fv - set(bound))
    at.h = h + (1 if bound else 0)
    at.pre = frozenset(pre)
    at.taint = taint
    at.idem = idem
    at.isint = isint
    _atoms[key] = at
    return at


class Poly:
    __slots__ = ("t", "_key", "_fv", "_h", "_pre", "_taint")

    def __init__(self, t):
        self.t = t
        self._key = None
        self._fv = None
        self._h = None
        self._pre = None
        self._taint = None

    @property
    def key(self):
        if self._key is None:
            items = sorted((mono_key(m), c) for m, c in self.t.items())
            self._key = H("P", *["%s*%s" % (c, k) for k, c in items])
        return self._key

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def h(self):
        if self._h is None:
            self._h = max([a.h for m in self.t for a, e in m] or [0])
        return self._h

    @property
    def pre(self):
        if self._pre is None:
            s = set()
            for m in self.t:
                for a, e in m:
                    s |= a.pre
            self._pre = frozenset(s)
        return self._pre

    @property
    def taint(self):
        if self._taint is None:
            self._taint = any(a.taint for m in self.t for a, e in m)
        return self._taint

    def const(self):
        if not self.t:
            return ZERO
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __add__(self, o):
        return add(self, _p(o))
    __radd__ = __add__

    def __neg__(self):
        return scale(self, -ONE)

    def __sub__(self, o):
        return add(self, scale(_p(o), -ONE))

    def __rsub__(self, o):
        return add(_p(o), scale(self, -ONE))

    def __mul__(self, o):
        return mul(self, _p(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return mul(self, mkpow(_p(o), -ONE))

    def __rtruediv__(self, o):
        return mul(_p(o), mkpow(self, -ONE))

    def __repr__(self):
        return show(self)


def mono_key(m):
    return "|".join("%s^%s" % (a.key, e) for a, e in m)


def C(x):
    x = Fraction(x)
    return Poly({(): x}) if x else Poly({})


def _p(x):
    return x if isinstance(x, Poly) else C(x)


def A(atom):
    return Poly({((atom, ONE),): ONE})


def scale(p, c):
    if c == 1:
        return p
    if c == 0:
        return Poly({})
    return Poly({m: v * c for m, v in p.t.items()})


def add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    t = dict(p.t)
    for m, v in q.t.items():
        s = t.get(m, ZERO) + v
        if s:
            t[m] = s
        else:
            t.pop(m, None)
    r = Poly(t)
    if _haspow(r):
        r = _reduce(r)
    return r


def _haspow(p):
    for m in p.t:
        for a, e in m:
            if a.kind == "base" and e < 0:
                return True
    return False


def _reduce(p):
    """divide the coefficient of base^-k by base where possible"""
    for _ in range(50):
        target = None
        for m in p.t:
            for a, e in m:
                if a.kind == "base" and e < 0 and e.denominator == 1:
                    target = a
                    # coefficient polynomial of a^e with minimal e
                    r = _try_div(p, a)
                    if r is not None:
                        p = r
                        break
            else:
                continue
            break
        else:
            return p
    return p


def _try_div(p, a):
    B = a.args[0]
    exps = {}
    for m in p.t:
        for b, e in m:
            if b is a:
                exps.setdefault(e, []).append(m)
    if not exps:
        return None
    lead = max(B.t, key=lambda m: (len(m), mono_key(m)))
    lc = B.t[lead]
    leadd = dict((x.key, (x, e)) for x, e in lead)
    if not lead:
        return None
    for e, monos in exps.items():
        if not (e < 0 and e.denominator == 1):
            continue
        # all terms with a^e : is a term divisible by lead, with all the other terms of B present?
        mset = set(monos)
        for m in monos:
            md = dict((x.key, (x, ex)) for x, ex in m)
            ok = True
            for k, (x, ex) in leadd.items():
                if k not in md or (x.idem is False and md[k][1] < ex):
                    ok = False
                    break
                if x.kind in ("sum",) and md[k][1] < ex:
                    ok = False
                    break
            if not ok:
                continue
            q = tuple(sorted([(x, ex - (leadd[x.key][1] if x.key in leadd else 0)) for x, ex in m if x is not a and (ex - (leadd[x.key][1] if x.key in leadd else 0)) != 0], key=lambda t: t[0].key))
            if any(x.idem for x, ex in lead):
                continue
            coef = p.t[m] / lc
            qp = Poly({q: coef})
            # replacement: q * (B) * a^e  ->  q * a^(e+1)
            BB = _mulraw(qp, B)
            full = _mulraw(BB, Poly({((a, e),): ONE}))
            if all(mm in p.t for mm in full.t):
                # only when it makes the polynomial smaller
                t = dict(p.t)
                for mm, v in full.t.items():
                    s = t.get(mm, ZERO) - v
                    if s:
                        t[mm] = s
                    else:
                        t.pop(mm, None)
                rest = Poly(t)
                ne = e + 1
                addp = _mulraw(qp, Poly({((a, ne),): ONE})) if ne != 0 else qp
                t = dict(rest.t)
                for mm, v in addp.t.items():
                    s = t.get(mm, ZERO) + v
                    if s:
                        t[mm] = s
                    else:
                        t.pop(mm, None)
                if len(t) < len(p.t):
                    return Poly(t)
    return None


def _combine(m1, m2):
    """product of two monomials -> (mono, coeff) or a Poly when a rewriting expands"""
    d = {}
    for a, e in m1:
        d[a.key] = (a, e)
    for a, e in m2:
        if a.key in d:
            e = d[a.key][1] + e
        d[a.key] = (a, e)
    return _norm_mono(d)


def _norm_mono(d):
    """d: key -> (atom, exp).  returns list of (mono, coef)"""
    coef = ONE
    extra = None
    eqs, lts, exps = [], [], []
    cps = {}
    out = {}
    for k, (a, e) in d.items():
        if e == 0:
            continue
        if a.idem and e > 0:
            e = ONE
        if a.kind == "fn" and a.name == "abs" and e.denominator == 1 and e.numerator % 2 == 0:
            r = mkpow(a.args[0], e)
            extra = r if extra is None else mul(extra, r)
            continue
        if a.kind == "cpow":
            cps[a.name[0]] = cps.get(a.name[0], ZERO) + a.name[1] * e
            continue
        if a.kind == "base" and e > 0 and e.denominator == 1:
            r = mkpow(a.args[0], e)
            extra = r if extra is None else mul(extra, r)
            continue
        if a.kind == "EQ" and e > 0:
            eqs.append(a)
        if a.kind == "LT" and e > 0:
            lts.append(a)
        if a.kind == "fn" and a.name == "exp":
            exps.append((a, e))
            continue
        out[k] = (a, e)
    for p, ee in cps.items():
        fl = ee.numerator // ee.denominator
        coef = coef * Fraction(p) ** fl
        if ee - fl:
            a = _mk("cpow", (p, ee - fl), ())
            out[a.key] = (a, ONE)
    if exps:
        if len(exps) == 1 and exps[0][1] == 1:
            out[exps[0][0].key] = exps[0]
        else:
            s = C(0)
            for a, e in exps:
                s = s + scale(a.args[0], e)
            r = fn("exp", s)
            extra = r if extra is None else mul(extra, r)
    # contradictions / absorption between brackets
    for x, y in itertools.combinations(eqs, 2):
        c = (x.args[0] - y.args[0]).const()
        if c is None:
            c = (x.args[0] + y.args[0]).const()
            if c is not None:
                # q+c1==0 and -q+c2==0 : normal form forbids, ignore
                c = None
        if c is not None and c != 0:
            return []
    drop = set()
    for x, y in itertools.combinations(lts, 2):
        c = (x.args[0] - y.args[0]).const()
        if c is not None:
            # [q+c<0][q<0]
            drop.add(y.key if c > 0 else x.key)
    for x in eqs:
        for y in lts:
            c = (y.args[0] - x.args[0]).const()
            if c is not None:
                if c < 0:
                    drop.add(y.key)
                else:
                    return []
    for k in drop:
        out.pop(k, None)
    # apply equality v==e : rewrite other atoms containing v
    for x in eqs:
        if x.key not in out:
            continue
        se = _solved(x)
        if se is None:
            continue
        v, ex = se
        others = [(a, e) for k, (a, e) in out.items() if k != x.key and v in a.fv]
        if others:
            r = Poly({((x, ONE),): ONE})
            keep = {k: ae for k, ae in out.items() if k != x.key and v not in ae[0].fv}
            r = mul(r, Poly({tuple(sorted(keep.values(), key=lambda t: t[0].key)): ONE}))
            for a, e in others:
                r = mul(r, mkpow(subst(A(a), {v: ex}), e))
            if extra is not None:
                r = mul(r, extra)
            return [(m, c * coef) for m, c in r.t.items()]
    mono = tuple(sorted(out.values(), key=lambda t: t[0].key))
    if extra is not None:
        r = mul(Poly({mono: ONE}), extra)
        return [(m, c * coef) for m, c in r.t.items()]
    return [(mono, coef)]


def _solved(x):
    """EQ atom q==0 -> (var, expr) with var the canonically chosen eliminated variable"""
    q = x.args[0]
    best = None
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            v = m[0][0].name
            rest = Poly({mm: cc for mm, cc in q.t.items() if mm != m})
            if v in rest.fv:
                continue
            if abs(c) != 1:
                continue
            if best is None or _vrank(v) > _vrank(best[0]):
                best = (v, scale(rest, -ONE / c))
    return best


def _vrank(v):
    # bound variables are eliminated first, then tensor placeholders, then loop variables
    return ((2 if v.startswith("β") else 1 if v.startswith("k") else 0), v)


def _mulraw(p, q):
    t = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            if not m1:
                rs = [(m2, ONE)]
            elif not m2:
                rs = [(m1, ONE)]
            else:
                rs = _combine(m1, m2)
            for m, c in rs:
                s = t.get(m, ZERO) + c * c1 * c2
                if s:
                    t[m] = s
                else:
                    t.pop(m, None)
        if len(t) > MAX_TERMS:
            raise TooBig()
    return Poly(t)


def mul(p, q):
    if not p.t or not q.t:
        return Poly({})
    c = p.const()
    if c is not None:
        return scale(q, c)
    c = q.const()
    if c is not None:
        return scale(p, c)
    if len(p.t) * len(q.t) > 40000:
        raise TooBig()
    r = _mulraw(p, q)
    if _haspow(r):
        r = _reduce(r)
    return r


def _iroot_factor(n):
    """n>0 int -> dict prime->mult (small primes only; the rest as one factor)"""
    f = {}
    for p in (2, 3, 5, 7, 11, 13):
        while n % p == 0:
            f[p] = f.get(p, 0) + 1
            n //= p
    if n > 1:
        f[n] = f.get(n, 0) + 1
    return f


def _constpow(c, e):
    c = Fraction(c)
    e = Fraction(e)
    if e.denominator == 1:
        if c == 0 and e < 0:
            return A(_mk("cinf", "1/0", ()))
        return C(c ** int(e))
    if c == 0:
        return C(0)
    if c < 0:
        return A(_mk("fn", "pow", (C(c), C(e))))
    r = C(1)
    fac = _iroot_factor(c.numerator)
    for p, k in _iroot_factor(c.denominator).items():
        fac[p] = fac.get(p, 0) - k
    for p, k in fac.items():
        ee = e * k
        fl = ee.numerator // ee.denominator
        fr = ee - fl
        r = scale(r, Fraction(p) ** fl)
        if fr:
            r = Poly(_mul_cpow(r, p, fr))
    return r


def _mul_cpow(r, p, fr):
    a = _mk("cpow", (p, fr), ())
    t = {}
    for m, c in r.t.items():
        t[tuple(sorted(m + ((a, ONE),), key=lambda x: x[0].key))] = c
    return t


def mkpow(p, e):
    e = Fraction(e)
    if e == 0:
        return C(1)
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        return _constpow(c, e)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c < 0 and e.denominator != 1 and e.denominator % 2 == 0:
            # the root of a negative constant does not exist: let a negated base absorb the sign
            for i, (a, ex) in enumerate(m):
                if a.kind == "base" and ex.denominator == 1 and ex % 2:
                    rest = Poly({m[:i] + m[i + 1:]: -c})
                    return mul(mkpow(rest, e), Poly({((_mk("base", "b", (scale(a.args[0], -1),)), ex * e),): ONE}))
            return Poly({((_mk("base", "b", (p,)), e),): ONE})
        r = _constpow(c, e) if c != 1 else C(1)
        d = {}
        for a, ex in m:
            d[a.key] = (a, ex * e)
        out = C(1)
        q = _norm_mono(d)
        return mul(r, Poly(dict(q)))
    if e.denominator == 1 and e > 0:
        if e > 8:
            return A(_mk("fn", "pow", (p, C(e))))
        r = p
        for _ in range(int(e) - 1):
            r = mul(r, p)
        return r
    # Shannon expansion on top level brackets
    b = _top_brk(p)
    if b is not None:
        return shannon(b, p, lambda q: mkpow(q, e))
    # pull out common factors
    common = None
    for m in p.t:
        d = {a.key: (a, ex) for a, ex in m}
        if common is None:
            common = d
        else:
            common = {k: (a, min(ex, d[k][1])) for k, (a, ex) in common.items() if k in d}
        if not common:
            break
    common = {k: v for k, v in (common or {}).items() if not v[0].idem and v[1] > 0}
    if common:
        cm = Poly({tuple(sorted(common.values(), key=lambda t: t[0].key)): ONE})
        inv = mkpow(cm, -1)
        return mul(mkpow(cm, e), mkpow(mul(p, inv), e))
    # normalise the leading coefficient
    lead = max(p.t, key=lambda m: (len(m), mono_key(m)))
    lc = p.t[lead]
    if lc != 1:
        if e.denominator == 1:
            return mul(_constpow(lc, e), mkpow(scale(p, 1 / lc), e))
        if lc > 0:
            return mul(_constpow(lc, e), mkpow(scale(p, 1 / lc), e))
        if lc != -1:
            return mul(_constpow(-lc, e), mkpow(scale(p, -1 / lc), e))
    return Poly({((_mk("base", "b", (p,)), e),): ONE})


# ---------------------------------------------------------------- leaves
def var(name):
    return A(_mkvar(name))


def _mkvar(name):
    key = H("var", name)
    at = _atoms.get(key)
    if at is None:
        at = Atom()
        at.kind, at.name, at.args, at.key = "var", name, (), key
        at.fv = frozenset([name])
        at.h, at.pre, at.taint, at.idem, at.isint = 0, frozenset(), False, False, True
        _atoms[key] = at
    return at


def fresh(prefix="v", lo=None, hi=None):
    _fresh[0] += 1
    n = "%s%d" % (prefix, _fresh[0])
    if hi is not None:
        RANGE[n] = (lo if lo is not None else C(0), hi)
    return n


def leaf(name, idx=(), boolean=False, isint=False):
    return A(_mk("leaf", name, tuple(idx), idem=boolean, isint=isint))


def preleaf(name, idx=(), boolean=False, isint=False):
    """loop-carried value at the start of an iteration"""
    a = _mk("preleaf", name, tuple(idx), idem=boolean, isint=isint)
    if name not in a.pre:
        a.pre = frozenset(set(a.pre) | {name})
    return A(a)


def unknown(reason):
    _fresh[0] += 1
    a = _mk("unk", "%s#%d" % (reason, _fresh[0]), ())
    a.taint = True
    return A(a)


NONSHANNON = set()


def _top_brk(p, exclude=()):
    best = None
    for m in p.t:
        for a, e in m:
            if a.idem and not (a.fv & set(exclude)):
                if best is None or a.key < best.key:
                    best = a
    return best


def cofactor(p, atom, val):
    t = {}
    for m, c in p.t.items():
        hit = False
        mm = []
        for a, e in m:
            if a is atom:
                hit = True
            else:
                mm.append((a, e))
        if hit and not val:
            continue
        mm = tuple(mm)
        s = t.get(mm, ZERO) + c
        if s:
            t[mm] = s
        else:
            t.pop(mm, None)
    return Poly(t)


_shdepth = [0]


def shannon(b, p, f):
    _shdepth[0] += 1
    if _shdepth[0] > 12:
        _shdepth[0] -= 1
        raise TooBig()
    try:
        x = f(cofactor(p, b, 1))
        y = f(cofactor(p, b, 0))
        B = A(b)
        return add(mul(B, x), mul(C(1) - B, y)) if x != y else x
    finally:
        _shdepth[0] -= 1


def ite(c, x, y):
    if x == y:
        return x
    k = c.const()
    if k is not None:
        return x if k else y
    return add(mul(c, x), mul(C(1) - c, y))


# ---------------------------------------------------------------- conditions
def _lead(p):
    ms = [m for m in p.t if m]
    return max(ms, key=lambda m: (len(m), mono_key(m)))


def eq(p, isint=False):
    """[p == 0]"""
    c = p.const()
    if c is not None:
        return C(1 if c == 0 else 0)
    b = _top_brk(p)
    if b is not None:
        return shannon(b, p, lambda q: eq(q, isint))
    lc = p.t[_lead(p)]
    # common nonzero-constant factor
    p = scale(p, 1 / lc)
    # range contradiction: v + c == 0 with v a non negative index variable
    return A(_mk("EQ", "", (p,), idem=True))


def lt(p, isint=False):
    """[p < 0]"""
    c = p.const()
    if c is not None:
        return C(1 if c < 0 else 0)
    b = _top_brk(p)
    if b is not None:
        return shannon(b, p, lambda q: lt(q, isint))
    if isint:
        # integral: clear denominators are not expected
        lc = p.t[_lead(p)]
        if lc < 0:
            # p<0  <=>  -p>0 <=> not(-p<=0) <=> not(-p-1<0)
            return C(1) - lt(scale(p, -ONE) - 1, True)
        if lc != 1 and all((v / lc).denominator == 1 for v in p.t.values()):
            p = scale(p, 1 / lc)
        return A(_mk("LT", "i", (p,), idem=True))
    lc = p.t[_lead(p)]
    if lc < 0:
        q = scale(p, -1 / -lc * -1) if False else scale(p, 1 / lc)
        # p = lc*q, lc<0: p<0 <=> q>0
        return C(1) - A(_mk("LT", "r", (q,), idem=True)) - eq(q)
    p = scale(p, 1 / lc)
    return A(_mk("LT", "r", (p,), idem=True))


def le(p, isint=False):
    if isint:
        return lt(p - 1, True)
    c = p.const()
    if c is not None:
        return C(1 if c <= 0 else 0)
    return lt(p, False) + eq(p)


def in_range(e, lo, hi):
    """bracket [lo <= e][e < hi], simplified with the known ranges of index variables"""
    c = e.const()
    if c is not None and lo.const() is not None and hi.const() is not None:
        return C(1 if lo.const() <= c < hi.const() else 0)
    low = lower_ok(e, lo)
    up = upper_ok(e, hi)
    r = C(1)
    if not low:
        r = mul(r, C(1) - lt(e - lo, True))
    if not up:
        r = mul(r, lt(e - hi, True))
    return r


def _var_of(e):
    """e = v + rest with v a single range-known variable"""
    for m, c in e.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and c == 1 and m[0][0].name in RANGE:
            return m[0][0].name, Poly({mm: cc for mm, cc in e.t.items() if mm != m})
    return None


NONNEG = set()      # leaf-name predicates: sizes


def nonneg(p):
    """syntactic: all coefficients >= 0 and all atoms sizes / unsigned indices"""
    for m, c in p.t.items():
        if c < 0:
            return False
        for a, e in m:
            if a.kind == "var":
                if a.name in RANGE:
                    lo = RANGE[a.name][0].const()
                    if lo is None or lo < 0:
                        return False
                continue
            if a.idem:
                continue
            if a.kind == "leaf" and (a.name.endswith((".n_rows", ".n_cols", ".n_elem", ".size", ".n_slices")) or a.name in NONNEG):
                continue
            if a.kind == "fn" and a.name in ("tid", "nelem"):
                continue
            return False
    return True


def lower_ok(e, lo):
    if (e - lo).const() is not None:
        return (e - lo).const() >= 0
    if nonneg(e - lo):
        return True
    v = _var_of(e)
    if v:
        d = RANGE[v[0]][0] + v[1] - lo
        if d.const() is not None and d.const() >= 0:
            return True
        if nonneg(d):
            return True
    return False


def upper_ok(e, hi):
    d = e - hi
    if d.const() is not None:
        return d.const() < 0
    if nonneg(scale(d, -ONE) - 1):
        return True
    v = _var_of(e)
    if v:
        d = RANGE[v[0]][1] + v[1] - hi
        if d.const() is not None and d.const() <= 0:
            return True
        if nonneg(scale(d, -ONE)):
            return True
    # thread id
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "fn" and m[0][0].name == "tid":
            if m[0][0].args and m[0][0].args[0] == hi:
                return True
    return False


# ---------------------------------------------------------------- functions
POSITIVE_LOG = True


def fn(name, *args):
    args = tuple(_p(a) for a in args)
    if name == "exp":
        if args[0].const() == 0:
            return C(1)
    if name == "log":
        c = args[0].const()
        if c == 1:
            return C(0)
        if len(args[0].t) == 1 and c is None:
            (m, k), = args[0].t.items()
            r = fn("log", C(k)) if k != 1 and k > 0 else C(0)
            if k > 0:
                for a, e in m:
                    if a.kind == "fn" and a.name == "exp":
                        r = r + scale(a.args[0], e)
                    elif a.kind == "base":
                        r = r + scale(A(_mk("fn", "log", (a.args[0],))), e)
                    elif a.kind == "cpow":
                        r = r + scale(fn("log", C(a.name[0])), a.name[1] * e)
                    elif a.idem:
                        r = r + A(_mk("fn", "log", (Poly({((a, e),): ONE}),)))
                    else:
                        r = r + scale(A(_mk("fn", "log", (A(a),))), e)
                return r
        if c is not None and c > 0 and c != 1:
            r = C(0)
            fac = _iroot_factor(c.numerator)
            for p, k in _iroot_factor(c.denominator).items():
                fac[p] = fac.get(p, 0) - k
            for p, k in fac.items():
                r = r + scale(A(_mk("fn", "log", (C(p),))), Fraction(k))
            return r
        # pull out common factor / leading coefficient through mkpow's normaliser
        if c is None and len(args[0].t) > 1 and _top_brk(args[0]) is None:
            q = mkpow(args[0], -1)
            if len(q.t) == 1:
                (m, k), = q.t.items()
                if not (k == 1 and len(m) == 1 and m[0][0].kind == "base" and m[0][0].args[0] == args[0]):
                    if k > 0:
                        return scale(fn("log", q), -ONE)
                    # negative leading coefficient: log(-(q))
    if name == "abs":
        c = args[0].const()
        if c is not None:
            return C(abs(c))
        p = args[0]
        if _top_brk(p) is None:
            lc = p.t[_lead(p)]
            if lc < 0:
                return fn("abs", scale(p, -ONE))
            if len(p.t) == 1:
                (m, k), = p.t.items()
                if k != 1:
                    return scale(fn("abs", Poly({m: ONE})), abs(k))
    if name in ("floor", "trunc", "round", "ceil"):
        c = args[0].const()
        if c is not None:
            import math
            f = {"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": lambda v: math.floor(v + HALF) if v >= 0 else -math.floor(-v + HALF)}[name]
            return C(f(c))
        if len(args[0].t) == 1:
            (m, k), = args[0].t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].isint:
                return args[0]
    if name == "pow":
        e = args[1].const()
        if e is not None:
            return mkpow(args[0], e)
    if name in ("min", "max"):
        if args[0] == args[1]:
            return args[0]
        c0, c1 = args[0].const(), args[1].const()
        if c0 is not None and c1 is not None:
            return C((min if name == "min" else max)(c0, c1))
        # min(a,b) = ite(a<b, a, b)
        c = lt(args[0] - args[1])
        return ite(c, args[0], args[1]) if name == "min" else ite(c, args[1], args[0])
    # expand brackets in the arguments
    if name not in ("tid", "lam"):
        for k, a in enumerate(args):
            if isinstance(a, Poly):
                b = _top_brk(a)
                if b is not None and len(a.t) > 0:
                    def f(q, k=k):
                        aa = list(args)
                        aa[k] = q
                        return fn(name, *aa)
                    return shannon(b, a, f)
    return A(_mk("fn", name, args, isint=name in ("floor", "trunc", "round", "ceil", "tid", "sort_index")))


class Lam:
    """closed tensor (function of indices) used as the argument of an opaque function"""
    __slots__ = ("key", "fv", "h", "pre", "taint", "dims", "names", "body")


def lam(dims, vs, body):
    h = max([body.h] + [d.h for d in dims])
    names = ["β%d.%d" % (h + 1, k) for k in range(len(vs))]
    b = subst(body, {v: var(n) for v, n in zip(vs, names)})
    # substitution may change the height
    while b.h > h:
        h = b.h
        n2 = ["β%d.%d" % (h + 1, k) for k in range(len(vs))]
        b = subst(b, {v: var(n) for v, n in zip(names, n2)})
        names = n2
    L = Lam()
    L.dims, L.names, L.body = tuple(dims), tuple(names), b
    L.key = H("lam", str(len(vs)), b.key, *[d.key for d in dims])
    L.fv = frozenset((b.fv - set(names)) | set().union(*[d.fv for d in dims]) if dims else b.fv - set(names))
    L.h = h + 1
    L.pre = b.pre | frozenset().union(*[d.pre for d in dims]) if dims else b.pre
    L.taint = b.taint or any(d.taint for d in dims)
    return L


def open_lam(L, idx):
    return subst(L.body, {n: i for n, i in zip(L.names, idx)})


SYMM = {}


def _is_symm(L):
    r = SYMM.get(L.key)
    if r is None:
        if len(L.names) != 2:
            r = False
        else:
            u, v = fresh("s"), fresh("s")
            a = subst(L.body, {L.names[0]: var(u), L.names[1]: var(v)})
            b = subst(L.body, {L.names[0]: var(v), L.names[1]: var(u)})
            r = a == b
        SYMM[L.key] = r
    return r


# position variables that stand for "the number of the selected element": find(L)(phi) is PHI[phi]
PHI = {}


def _only_var(p):
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var":
            return m[0][0].name
    return None


def phi(pos):
    n = fresh("φ")
    PHI[n] = pos
    return n


def tfn(name, args, idx, isint=False, boolean=False):
    """element idx of an opaque tensor function of closed arguments (Lam or Poly)"""
    idx = tuple(_p(i) for i in idx)
    if name == "find" and PHI:
        v = _only_var(idx[0])
        if v in PHI:
            return PHI[v]
    if name == "inv" and len(idx) == 2:
        L = args[0]
        d0 = L.dims[0].const()
        if d0 == 1:
            return mkpow(open_lam(L, (C(0), C(0))), -1)
        if _is_symm(L):
            if idx[1].key < idx[0].key:
                idx = (idx[1], idx[0])
    # loop-invariant brackets in scalar / tensor arguments: Shannon
    for k, a in enumerate(args):
        if isinstance(a, Lam):
            b = _top_brk(a.body, exclude=a.names)
            if b is not None:
                def f(q, k=k, a=a):
                    v2 = [fresh("l") for _ in a.names]
                    aa = list(args)
                    aa[k] = lam(a.dims, v2, subst(q, {n: var(v) for n, v in zip(a.names, v2)}))
                    return tfn(name, aa, idx, isint, boolean)
                return shannon(b, a.body, f)
        else:
            b = _top_brk(a)
            if b is not None:
                def f(q, k=k):
                    aa = list(args)
                    aa[k] = q
                    return tfn(name, aa, idx, isint, boolean)
                return shannon(b, a, f)
    for k, a in enumerate(idx):
        b = _top_brk(a)
        if b is not None:
            def f(q, k=k):
                aa = list(idx)
                aa[k] = q
                return tfn(name, args, aa, isint, boolean)
            return shannon(b, a, f)
    return A(_mk("tfn", (name, len(args)), tuple(args) + idx, isint=isint, idem=boolean))


def leafx(name, idx=(), boolean=False, isint=False, pre=False):
    """leaf with bracket expansion in its indices"""
    idx = tuple(_p(i) for i in idx)
    for k, a in enumerate(idx):
        b = _top_brk(a)
        if b is not None:
            def f(q, k=k):
                aa = list(idx)
                aa[k] = q
                return leafx(name, aa, boolean, isint, pre)
            return shannon(b, a, f)
    return (preleaf if pre else leaf)(name, idx, boolean, isint)


# ---------------------------------------------------------------- summation
def sum_(v, lo, hi, body):
    """sum of body for v in [lo, hi)"""
    n = hi - lo
    k = n.const()
    if k is not None:
        if k <= 0:
            return C(0)
        if k <= 4:
            r = C(0)
            for j in range(int(k)):
                r = r + subst(body, {v: lo + j})
            return r
    return _multisum([(v, lo, hi)], body)


def _delta(a, names):
    """(v, expr) when the equality determines summation index v"""
    q = a.args[0]
    for mm, cc in q.t.items():
        if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].kind == "var" and mm[0][0].name in names and abs(cc) == 1:
            v = mm[0][0].name
            if not any(v in x.fv for m2 in q.t if m2 != mm for x, e in m2):
                return v, scale(Poly({x: y for x, y in q.t.items() if x != mm}), -ONE / cc)
    return None


def _multisum(binders, poly):
    r = C(0)
    if not binders:
        return poly
    for m, c in poly.t.items():
        r = r + scale(_ms1(binders, m), c)
    return r


def _ms1(binders, m):
    """sum of one monomial over several indices"""
    names = {b[0] for b in binders}
    # constant ranges
    for b in binders:
        k = (b[2] - b[1]).const()
        if k is not None and k <= 4:
            rest = [x for x in binders if x is not b]
            if k <= 0:
                return C(0)
            if any(b[0] in x[1].fv or b[0] in x[2].fv for x in rest):
                continue
            r = C(0)
            for j in range(int(k)):
                r = r + subst(Poly({m: ONE}), {b[0]: b[1] + j})
            return _multisum(rest, r)
    # nested sums
    for a, e in m:
        if a.kind == "sum" and e > 0 and e.denominator == 1 and a.fv & names:
            rest = tuple(x for x in m if x[0] is not a)
            prod = Poly({rest: ONE})
            bs = list(binders)
            for _ in range(int(e)):
                b2, mono = _open_sum(a)
                bs += b2
                prod = mul(prod, mono)
            return _multisum(bs, prod)
    # delta elimination
    for a, e in m:
        if a.kind == "EQ" and a.fv & names:
            d = _delta(a, names)
            if d is None:
                continue
            v, ex = d
            (b,) = [x for x in binders if x[0] == v]
            rest = []
            bad = False
            for x in binders:
                if x is b:
                    continue
                if v in x[1].fv or v in x[2].fv:
                    if x[0] in ex.fv:
                        bad = True
                    x = (x[0], subst(x[1], {v: ex}), subst(x[2], {v: ex}))
                rest.append(x)
            if bad:
                continue
            others = C(1)
            for y, ey in m:
                if y is not a:
                    others = mul(others, mkpow(subst(A(y), {v: ex}), ey) if v in y.fv else Poly({((y, ey),): ONE}))
            return _multisum(rest, mul(in_range(ex, b[1], b[2]), others))
    # selected elements: sum over the k-th element of find(L) is the sum over all elements where L holds
    for b in binders:
        if b[1].const() != 0:
            continue
        fs = [f for x, e in m if b[0] in x.fv for f in collect(A(x), lambda q: q.kind == "tfn" and q.name[0] == "find" and _only_var(q.args[1]) == b[0])]
        if not fs:
            continue
        L = fs[0].args[0]
        i = fresh("k", C(0), L.dims[0])
        Li = open_lam(L, tuple([var(i)] + [C(0)] * (len(L.dims) - 1)))
        hi = b[2]
        for x, e in m:
            if x.idem and e > 0 and x.kind not in ("var",):
                hi = cofactor(hi, x, 1)
        if sum_(i, C(0), L.dims[0], Li) != hi:
            continue
        ph = phi(var(i))
        mm = C(1)
        for y, ey in m:
            mm = mul(mm, mkpow(subst(A(y), {b[0]: var(ph)}), ey) if b[0] in y.fv else Poly({((y, ey),): ONE}))
        rest = [(x[0], subst(x[1], {b[0]: var(ph)}), subst(x[2], {b[0]: var(ph)})) for x in binders if x is not b]
        del PHI[ph]
        if ph in mm.fv or any(ph in x[1].fv or ph in x[2].fv for x in rest):
            continue
        return _multisum(rest + [(i, C(0), L.dims[0])], mul(Li, mm))
    # indices that do not occur
    for b in binders:
        if not any(b[0] in a.fv for a, e in m) and not any(b[0] in x[1].fv or b[0] in x[2].fv for x in binders if x is not b):
            return _multisum([x for x in binders if x is not b], mul(Poly({m: ONE}), b[2] - b[1]))
    return _mksum(binders, m)


def _order_binders(binders):
    names = {b[0] for b in binders}
    out, left = [], list(binders)
    while left:
        for b in left:
            deps = (b[1].fv | b[2].fv) & {x[0] for x in left if x is not b}
            if not deps:
                out.append(b)
                left.remove(b)
                break
        else:
            return out + left
    return out


class SumBody:
    __slots__ = ("key", "fv", "h", "pre", "taint", "binders", "mono")


def _mksum(binders, mono):
    # connected components
    names = [b[0] for b in binders]
    comp = {n: n for n in names}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    items = [(a, e) for a, e in mono]
    free = []
    for a, e in items:
        vs = [n for n in names if n in a.fv]
        if not vs:
            free.append((a, e))
        for x in vs[1:]:
            comp[find(vs[0])] = find(x)
    for b in binders:
        for d in (b[1], b[2]):
            for n in names:
                if n != b[0] and n in d.fv:
                    comp[find(b[0])] = find(n)
    groups = {}
    for b in binders:
        groups.setdefault(find(b[0]), [[], []])[0].append(b)
    for a, e in items:
        vs = [n for n in names if n in a.fv]
        if vs:
            groups[find(vs[0])][1].append((a, e))
    r = Poly({tuple(sorted(free, key=lambda t: t[0].key)): ONE}) if free else C(1)
    for bs, its in groups.values():
        if not its:
            x = C(1)
            for b in reversed(_order_binders(bs)):
                x = sum_(b[0], b[1], b[2], x)
            r = mul(r, x)
            continue
        r = mul(r, A(_canon_sum(bs, its)))
    return r


_canon_cache = {}


def _canon_sum(bs, its):
    names = [b[0] for b in bs]
    h = max([a.h for a, e in its] + [max(b[1].h, b[2].h) for b in bs])
    # colour refinement
    col = {}
    if len(names) > 1:
        mask = {n: var("★") for n in names}
        for b in bs:
            col[b[0]] = H("r", subst(b[1], mask).key, subst(b[2], mask).key)
        occ = {n: [(a, e) for a, e in its if n in a.fv] for n in names}
        for rnd in range(len(names) + 1):
            new = {}
            cm = {n: var("☆" + col[n]) for n in names}
            for b in bs:
                n = b[0]
                mp = dict(cm)
                mp[n] = var("★")
                sig = sorted(H(subst(A(a), mp).key, str(e)) for a, e in occ[n])
                sig.append(H(subst(b[1], mp).key, subst(b[2], mp).key))
                new[n] = H(col[n], *sig)
            if len(set(new.values())) == len(set(col.values())):
                col = new
                break
            col = new
    else:
        col[names[0]] = "0"
    classes = {}
    for n in names:
        classes.setdefault(col[n], []).append(n)
    order = [classes[c] for c in sorted(classes)]
    nperm = 1
    for c in order:
        for k in range(2, len(c) + 1):
            nperm *= k
    cands = itertools.product(*[itertools.permutations(c) for c in order]) if nperm <= 720 else [tuple(tuple(c) for c in order)]
    best = None
    bd = {b[0]: b for b in bs}
    for cand in cands:
        seq = [n for c in cand for n in c]
        mp = {n: var("β%d.%d" % (h + 1, k)) for k, n in enumerate(seq)}
        body = subst(Poly({tuple(sorted(its, key=lambda t: t[0].key)): ONE}), mp)
        rng = tuple((subst(bd[n][1], mp), subst(bd[n][2], mp)) for n in seq)
        k = H(body.key, *[x.key for r in rng for x in r])
        if best is None or k < best[0]:
            best = (k, body, rng, seq)
    k, body, rng, seq = best
    SB = SumBody()
    nb = ["β%d.%d" % (h + 1, i) for i in range(len(seq))]
    SB.binders = tuple((n, r[0], r[1]) for n, r in zip(nb, rng))
    SB.mono = body
    SB.key = H("SB", k, str(len(seq)))
    fv = set(body.fv)
    pre = set(body.pre)
    for r in rng:
        fv |= r[0].fv | r[1].fv
        pre |= r[0].pre | r[1].pre
    SB.fv = frozenset(fv - set(nb))
    SB.h = h + 1
    SB.pre = frozenset(pre)
    SB.taint = body.taint or any(x.taint for r in rng for x in r)
    return _mk("sum", "Σ", (SB,))


def _open_sum(a):
    SB = a.args[0]
    mp = {}
    for n, lo, hi in SB.binders:
        mp[n] = var(fresh("u"))
    bs = []
    for n, lo, hi in SB.binders:
        nn = next(iter(mp[n].fv))
        l2, h2 = subst(lo, mp), subst(hi, mp)
        RANGE[nn] = (l2, h2)
        bs.append((nn, l2, h2))
    return bs, subst(SB.mono, mp)


def all_(v, lo, hi, cond):
    """bracket: cond holds for every v in [lo,hi)"""
    if v not in cond.fv:
        return cond     # non-empty range assumed
    for a in collect(cond, lambda a: a.kind == "LT" and a.name == "i" and v in a.fv):
        d = a.args[0]
        cv = [c for m, c in d.t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and m[0][0].name == v]
        if len(cv) != 1 or abs(cv[0]) != 1 or v in (d - scale(var(v), cv[0])).fv:
            continue
        first, last = subst(d, {v: lo}), subst(d, {v: hi - 1})
        if cv[0] < 0:
            first, last = last, first
        if nonneg(first):
            cond = cofactor(cond, a, 0)
        elif nonneg(scale(last, -ONE) - 1):
            cond = cofactor(cond, a, 1)
    if v not in cond.fv:
        return cond
    L = lam([hi - lo], [v], subst(cond, {v: var(v)}) if lo.const() == 0 else subst(cond, {v: var(v) + lo}))
    return A(_mk("ALL", "∀", (L,), idem=True))


# ---------------------------------------------------------------- substitution
_subst_stack = []


def subst(x, mp, pre=None, memo=None):
    """replace index variables (mp: name->Poly) and loop-carried leaves (pre: name->callable(idx)->Poly)"""
    if memo is None:
        memo = {}
    keys = frozenset(mp)
    return _sub(x, mp, keys, pre or {}, memo)


def _touch(x, keys, pre):
    return bool(x.fv & keys) or (pre and bool(x.pre & pre.keys()))


def _sub(p, mp, keys, pre, memo):
    if not _touch(p, keys, pre):
        return p
    r = memo.get(p.key)
    if r is not None:
        return r
    res = C(0)
    keep = {}
    for m, c in p.t.items():
        if not any(_touch(a, keys, pre) for a, e in m):
            keep[m] = c
            continue
        out = C(c)
        rest = []
        for a, e in m:
            if _touch(a, keys, pre):
                out = mul(out, mkpow(_sub_atom(a, mp, keys, pre, memo), e))
            else:
                rest.append((a, e))
        if rest:
            out = mul(out, Poly({tuple(rest): ONE}))
        res = res + out
    if keep:
        res = Poly(keep) + res
    memo[p.key] = res
    return res


def _sub_any(a, mp, keys, pre, memo):
    if isinstance(a, Poly):
        return _sub(a, mp, keys, pre, memo)
    if isinstance(a, Lam):
        if not _touch(a, keys, pre):
            return a
        vs = [fresh("l") for _ in a.names]
        mp2 = dict(mp)
        for n, v in zip(a.names, vs):
            mp2[n] = var(v)
        b = subst(a.body, mp2, pre)
        return lam([_sub(d, mp, keys, pre, memo) for d in a.dims], vs, b)
    raise TypeError(a)


def _sub_atom(a, mp, keys, pre, memo):
    if not _touch(a, keys, pre):
        return A(a)
    k = a.kind
    if k == "var":
        return mp.get(a.name) if a.name in mp else A(a)
    if k == "leaf":
        return leafx(a.name, [_sub(i, mp, keys, pre, memo) for i in a.args], a.idem, a.isint)
    if k == "preleaf":
        idx = [_sub(i, mp, keys, pre, memo) for i in a.args]
        if a.name in pre:
            return pre[a.name](idx)
        return leafx(a.name, idx, a.idem, a.isint, pre=True)
    if k == "sum":
        bs, mono = _open_sum(a)
        nb = [(n, subst(lo, mp, pre), subst(hi, mp, pre)) for n, lo, hi in bs]
        for n, lo, hi in nb:
            RANGE[n] = (lo, hi)
        return _multisum(nb, subst(mono, mp, pre))
    if k == "base":
        return _sub(a.args[0], mp, keys, pre, memo)
    if k == "EQ":
        return eq(_sub(a.args[0], mp, keys, pre, memo))
    if k == "LT":
        return lt(_sub(a.args[0], mp, keys, pre, memo), a.name == "i")
    if k == "fn":
        return fn(a.name, *[_sub(x, mp, keys, pre, memo) for x in a.args])
    if k == "tfn":
        n = a.name[1]
        args = [_sub_any(x, mp, keys, pre, memo) for x in a.args[:n]]
        idx = [_sub(x, mp, keys, pre, memo) for x in a.args[n:]]
        return tfn(a.name[0], args, idx, a.isint, a.idem)
    if k == "ALL":
        L = _sub_any(a.args[0], mp, keys, pre, memo)
        return A(_mk("ALL", "∀", (L,), idem=True))
    if k == "opq":
        return A(_mk("opq", a.name, tuple(_sub_any(x, mp, keys, pre, memo) for x in a.args), idem=a.idem, isint=a.isint))
    return A(a)


def opq(name, args=(), idem=False, isint=False):
    """uninterpreted symbol applied to terms / closed tensors"""
    return A(_mk("opq", name, tuple(args), idem=idem, isint=isint))


def collect(p, pred, acc=None, seen=None):
    """all atoms (nested) satisfying pred"""
    if acc is None:
        acc, seen = [], set()
    def go(x):
        if x is None or x.key in seen:
            return
        seen.add(x.key)
        if isinstance(x, Poly):
            for m in x.t:
                for a, e in m:
                    go(a)
        elif isinstance(x, Lam):
            go(x.body)
            for d in x.dims:
                go(d)
        elif isinstance(x, SumBody):
            go(x.mono)
            for n, lo, hi in x.binders:
                go(lo)
                go(hi)
        else:
            if pred(x):
                acc.append(x)
            for y in x.args:
                go(y)
    go(p)
    return acc


_sizes = {}


def size(x):
    """written-out size of a term (shared parts counted every time)"""
    if x is None:
        return 0
    r = _sizes.get(x.key)
    if r is not None:
        return r
    if isinstance(x, Poly):
        r = 1
        for m in x.t:
            for a, e in m:
                r += size(a)
    elif isinstance(x, Lam):
        r = 1 + size(x.body)
    elif isinstance(x, SumBody):
        r = 1 + size(x.mono)
    else:
        r = 1
        for y in x.args:
            r += size(y)
    _sizes[x.key] = r
    return r


DEFS = {}           # name of a definition -> closed Lam / Poly


def define(x, n):
    """a name for a closed term: a function of n indices"""
    name = "def:" + x.key[:16]
    DEFS[name] = x
    return name


# ---------------------------------------------------------------- printing
def show(p, depth=4):
    if isinstance(p, Lam):
        return "λ(%s)[%s]. %s" % (",".join(p.names), ",".join(show(d, 1) for d in p.dims), show(p.body, depth - 1))
    if not p.t:
        return "0"
    out = []
    items = sorted(p.t.items(), key=lambda t: (len(t[0]), mono_key(t[0])))
    for m, c in items[:8]:
        s = "·".join(show_atom(a, depth) + ("" if e == 1 else "^%s" % e) for a, e in m)
        if not s:
            s = str(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = "%s·%s" % (c, s)
        out.append(s)
    if len(items) > 8:
        out.append("…(%d terms)" % len(items))
    return " + ".join(out)


def show_atom(a, depth=4):
    if depth <= 0:
        return "…"
    k = a.kind
    if k in ("var",):
        return a.name
    if k in ("leaf", "preleaf", "opq"):
        return str(a.name) + ("[" + ",".join(show(x, depth - 1) for x in a.args) + "]" if a.args else "")
    if k == "sum":
        SB = a.args[0]
        return "Σ{%s}(%s)" % (",".join("%s<%s" % (n, show(h, 1)) for n, l, h in SB.binders), show(SB.mono, depth - 1))
    if k == "base":
        return "(%s)" % show(a.args[0], depth - 1)
    if k == "EQ":
        return "[%s=0]" % show(a.args[0], depth - 1)
    if k == "LT":
        return "[%s<0]" % show(a.args[0], depth - 1)
    if k == "fn":
        return "%s(%s)" % (a.name, ",".join(show(x, depth - 1) for x in a.args))
    if k == "tfn":
        n = a.name[1]
        return "%s(%s)[%s]" % (a.name[0], ",".join(show(x, depth - 1) for x in a.args[:n]), ",".join(show(x, depth - 1) for x in a.args[n:]))
    if k == "ALL":
        return "∀(%s)" % show(a.args[0], depth - 1)
    if k == "cpow":
        return "%s^%s" % a.name
    return "%s:%s" % (k, a.name)
