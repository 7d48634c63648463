"""Identity testing of normal forms.

Two normal forms that are not syntactically equal are separated by interpreting their symbols with random
functions (Schwartz-Zippel for the polynomial part).  Only expressions the analysis derived are interpreted; the
library itself is never run.  A difference is reported only when an interpretation separates the two forms, so a
weakness of the normal form alone can never raise an alarm; the separating interpretation is the witness."""
import os, math, hashlib, itertools, random
from fractions import Fraction
import terms as T
from terms import Poly, Lam, SumBody


SEED = "" if os.environ.get("VERIF_SEED", "1") == "1" else os.environ["VERIF_SEED"]


class Skip(Exception):
    """interpretation not usable (singular matrix, domain error, overflow)"""


class Opaque(Exception):
    """form contains a symbol without interpretation"""


def _r(x):
    if isinstance(x, float):
        if x == 0 or abs(x) < 1e-9:
            return "0"
        return "%.6g" % x
    return str(x)


def _rnd(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


class Interp:
    LIM = 400000

    noise = 0           # relative error added to every inverse: tells rounding from a real difference

    def __init__(self, seed, dist=0, sizes=None):
        self.seed, self.dist = seed, dist
        self.memo = {}
        self.runs = {}
        self.sizes = sizes or {}
        self.used = {}
        self.cnt = 0

    # leaf values
    def real(self, *k):
        u = _rnd(self.seed, *k)
        if self.dist == 0:
            v = -2 + 4 * u
            return v if abs(v) > 0.05 else v + 0.3
        if self.dist == 1:
            return 0.2 + 2 * u
        if self.dist == 2:                   # small integers: ties and zeros
            return float(int(u * 4))
        if self.dist == 3:
            return float(int(u * 5) - 2)
        if self.dist == 4:                   # mixed magnitudes
            v = _rnd(self.seed, "m", *k)
            return (0.2 + u) * (1e-12 if v < .15 else 1e12 if v > .9 else 1)
        if self.dist == 7:                   # beyond the sizes of the data
            return -4 + 30 * u
        if self.dist == 6:                   # few distinct non-zero values: ties without degeneracy
            return (0.6, 1.7, 2.3)[int(u * 3)]
        return -1 + 2 * u

    def integer(self, name, idx):
        if not idx and name in self.sizes:
            return self.sizes[name]
        u = _rnd(self.seed, "i", name, idx)
        if not idx:
            if name == "threads":            # numbers of threads matter only against each other: also large ones
                return (1, 2, 3, 4, 9, 12, 17)[int(u * 7)]
            return 2 + int(u * 3)
        return int(u * 4)

    def ev(self, p, env):
        """value of a polynomial; the sum is exact (huge sentinels must cancel without trace)"""
        fl, ex = [], 0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                try:
                    x = self.at(a, env)
                    if e != 1:
                        x = self.pw(x, e)
                except Skip:
                    if not self.masked(m, env):
                        raise
                    v = 0
                    break
                if isinstance(v, Fraction) and not isinstance(x, (int, Fraction)):
                    v = float(v) * x
                elif isinstance(x, (int, Fraction)) and not isinstance(v, Fraction):
                    v = v * float(x)
                else:
                    v = v * x
                if v == 0:
                    break
            if isinstance(v, float):
                fl.append(v)
            else:
                ex += v
        if not fl:
            return ex
        if ex:
            fl.append(float(ex))
        if len(fl) == 1:
            s = fl[0]
        else:
            try:
                s = math.fsum(fl)
            except (OverflowError, ValueError):
                if any(x != x or abs(x) == float("inf") for x in fl):
                    raise Skip()
                s = sum(Fraction(x) for x in fl)
                if abs(s) > 1.8e308:
                    raise Skip()
                s = float(s)
        if s != s or (abs(s) > 1e200 and abs(abs(s) - 1.797693134862315e308) > 1e294):
            raise Skip()
        return s

    def masked(self, m, env):
        """some condition among the factors is false"""
        for a, e in m:
            if a.idem:
                try:
                    if self.at(a, env) == 0:
                        return True
                except Skip:
                    pass
        return False

    def pw(self, x, e):
        try:
            if e.denominator == 1:
                if x == 0 and e < 0:
                    raise Skip()
                r = x ** int(e)
                if self.noise and e < 0 and isinstance(r, float):
                    r *= 1 + self.noise * (_rnd("noise", x) - .5)
            else:
                x = float(x)
                if x < 0:
                    raise Skip()
                if x == 0 and e < 0:
                    raise Skip()
                r = x ** float(e)
        except (OverflowError, ZeroDivisionError):
            raise Skip()
        return r

    def at(self, a, env):
        k = (a.key,) + tuple((v, env[v]) for v in sorted(a.fv) if v in env)
        if a.pre and "#mu" in env:
            k += (env["#mu"],)
        r = self.memo.get(k)
        if r is None:
            self.cnt += 1
            if self.cnt > self.LIM:
                raise Skip()
            r = self.at0(a, env)
            self.memo[k] = r
        return r

    # ---- recurrences: a canonical loop summary, interpreted by unrolling it
    def mulook(self, name, env):
        mid = env["#mu"]
        while mid is not None:
            run = self.runs.get(mid[0])
            if run is not None and name in run.comp:
                t = mid[1]
                return lambda idx: run.value(run.comp[name], t, idx)
            mid = mid[2]
        return None

    def mu(self, a, env):
        nm = str(a.name)
        kind, head, roles, tail = nm.replace("mupre", "mu").split(":")[0], None, None, None
        kind = "mupre" if nm.startswith("mupre") else "mu"
        rest = nm.split(":", 1)[1]
        head, roles, rest = rest.split("|", 2)
        h, tail = rest.split(":")
        k, N = (int(x) for x in tail.split("/"))
        nh = 3 if head == "cnt" else 0
        H, PI, ix = a.args[:nh], a.args[nh:nh + 2 * N], a.args[nh + 2 * N:]
        key = (head, roles, h, N) + tuple(x.key for x in H) + tuple(x.key for x in PI) + tuple(sorted((v, env[v]) for v in a.fv if v in env and not self.isix(v, ix))) + (env.get("#mu"),)
        key = hash(key)
        run = self.runs.get(key)
        if run is None:
            run = self.runs[key] = MuRun(self, key, head, roles, h, N, H, PI, env)
        if kind == "mupre":
            i = self.iv(ix[0], env)
            idx = tuple(self.iv(x, env) for x in ix[1:])
            return run.value(k, run.step_of(i), idx)
        return run.final(k, tuple(self.iv(x, env) for x in ix))

    def isix(self, v, ix):
        return False

    def iv(self, p, env):
        v = self.ev(p, env)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-6:
                raise Skip()
            return int(round(v))
        if v.denominator != 1 if isinstance(v, Fraction) else False:
            raise Skip()
        return int(v)

    def tensor(self, L, env):
        dims = [self.iv(d, env) for d in L.dims]
        if any(d < 0 or d > 60 for d in dims):
            raise Skip()
        out = {}

        def go(k, e, idx):
            if k == len(dims):
                out[tuple(idx)] = self.ev(L.body, e)
                return
            for i in range(dims[k]):
                e2 = dict(e)
                e2[L.names[k]] = i
                go(k + 1, e2, idx + [i])
        go(0, dict(env), [])
        return dims, out

    def defined(self, name, idx):
        d = T.DEFS[name]
        k = ("def", name, idx)
        v = self.memo.get(k)
        if v is None:
            v = self.ev(d, {}) if isinstance(d, Poly) else self.ev(d.body, dict(zip(d.names, idx)))
            self.memo[k] = v
        return v

    def at0(self, a, env):
        k = a.kind
        if k == "var":
            if a.name not in env:
                raise Opaque("free index " + a.name)
            return env[a.name]
        if k == "leaf":
            idx = tuple(self.iv(x, env) for x in a.args)
            if a.name in T.DEFS:
                return self.defined(a.name, idx)
            if a.idem:
                v = 1 if _rnd(self.seed, "b", a.name, idx) < .5 else 0
            elif a.isint:
                v = self.integer(a.name, idx)
            else:
                v = self.real("leaf", a.name, idx)
            self.used[(a.name, idx)] = v
            return v
        if k == "preleaf" and "#mu" in env:
            f = self.mulook(a.name, env)
            if f is not None:
                return f(tuple(self.iv(x, env) for x in a.args))
        if k == "preleaf":
            idx = tuple(self.iv(x, env) for x in a.args)
            if a.idem:
                return 1 if _rnd(self.seed, "b", a.name, idx) < .5 else 0
            return self.integer(a.name, idx) if a.isint else self.real("pre", a.name, idx)
        if k == "unk" or a.taint:
            raise Opaque(str(a.name))
        if k == "cpow":
            return float(a.name[0]) ** float(a.name[1])
        if k == "cinf":
            raise Skip()
        if k == "base":
            return self.ev(a.args[0], env)
        if k == "EQ":
            v = self.ev(a.args[0], env)
            return 1 if abs(v) < 1e-9 else 0
        if k == "LT":
            q = a.args[0]
            if any(abs(c) >= 64 for m, c in q.t.items() if not m) and self.intsize(q):
                return 1 if _rnd(self.seed, "big", a.key) < .5 else 0
            v = self.ev(q, env)
            if isinstance(v, float) and abs(v) < 1e-9:
                return 0
            return 1 if v < 0 else 0
        if k == "ALL":
            L = a.args[0]
            dims, t = self.tensor(L, env)
            return 1 if all(abs(v) > .5 for v in t.values()) else 0
        if k == "sum":
            return self.esum(a.args[0], env)
        if k == "fn":
            return self.fn(a, env)
        if k == "tfn":
            return self.tf(a, env)
        if k == "opq":
            if str(a.name).startswith("mu"):
                return self.mu(a, env)
            args = [self.val(x, env) for x in a.args]
            if a.idem:
                return 1 if _rnd(self.seed, "ob", a.name, args) < .5 else 0
            if a.isint:
                return int(_rnd(self.seed, "oi", a.name, args) * 4)
            return self.real("opq", a.name, args)
        raise Opaque(k)

    def intsize(self, q):
        return all(a.kind == "leaf" and a.isint and not a.args for m in q.t for a, e in m)

    def val(self, x, env):
        if isinstance(x, Lam):
            d, t = self.tensor(x, env)
            return ("T", tuple(d), tuple((k, _r(float(v))) for k, v in sorted(t.items())))
        if isinstance(x, Poly):
            return _r(float(self.ev(x, env)))
        raise Opaque("arg")

    def efast(self, SB, env):
        """sum of one product, by eliminating one index after the other; None when not applicable"""
        if len(SB.mono.t) != 1 or len(SB.binders) < 2:
            return None
        bs = [b[0] for b in SB.binders]
        bset = set(bs)
        if any((lo.fv | hi.fv) & bset for n, lo, hi in SB.binders):
            return None
        rng = {}
        for n, lo, hi in SB.binders:
            l, h = self.iv(lo, env), self.iv(hi, env)
            if h - l > 100:
                raise Skip()
            if h <= l:
                return 0
            rng[n] = range(l, h)
        base = {v: x for v, x in env.items() if v not in bset}
        (m, c), = SB.mono.t.items()
        facs = []
        for a, e in m:
            vs = tuple(b for b in bs if b in a.fv)
            n = 1
            for v in vs:
                n *= len(rng[v])
            if n > 5000:
                return None
            tab = {}
            for ix in itertools.product(*[rng[v] for v in vs]):
                e2 = dict(base)
                e2.update(zip(vs, ix))
                x = self.at(a, e2)
                if e != 1:
                    x = self.pw(x, e)
                if x != x or abs(x) > 1e60:
                    return None
                tab[ix] = x
            facs.append((vs, tab))
        left = set(bs)
        while left:
            best = None
            for v in sorted(left):
                u = set()
                for vs, tab in facs:
                    if v in vs:
                        u |= set(vs)
                n = 1
                for w in u:
                    n *= len(rng[w])
                if best is None or n < best[0]:
                    best = (n, v, u)
            n, v, u = best
            if n > 20000:
                return None
            left.discard(v)
            inv_ = [f for f in facs if v in f[0]]
            facs = [f for f in facs if v not in f[0]]
            if not inv_:
                c = c * len(rng[v])
                continue
            out = tuple(b for b in bs if b in u and b != v)
            full = out + (v,)
            pos = [(tab, [full.index(w) for w in vs]) for vs, tab in inv_]
            new = {}
            for ix in itertools.product(*[rng[w] for w in out]):
                s = 0
                for i in rng[v]:
                    fx = ix + (i,)
                    p = 1
                    for tab, ps in pos:
                        p = p * tab[tuple([fx[q] for q in ps])]
                        if p == 0:
                            break
                    s = s + p
                new[ix] = s
            facs.append((out, new))
        r = c
        for vs, tab in facs:
            r = r * tab[()]
        return r

    def esum(self, SB, env):
        try:
            r = self.efast(SB, env)
            if r is not None:
                return r
        except (Skip, OverflowError, ZeroDivisionError):
            pass
        tot = 0

        def go(k, e):
            nonlocal tot
            if k == len(SB.binders):
                v = self.ev(SB.mono, e)
                if isinstance(v, float) and not isinstance(tot, float):
                    tot = float(tot)
                elif isinstance(tot, float):
                    v = float(v)
                tot += v
                return
            n, lo, hi = SB.binders[k]
            l, h = self.iv(lo, e), self.iv(hi, e)
            if h - l > 100:
                raise Skip()
            for i in range(l, h):
                e2 = dict(e)
                e2[n] = i
                go(k + 1, e2)
        bs = {b[0] for b in SB.binders}
        go(0, {v: x for v, x in env.items() if v not in bs})
        return tot

    def fn(self, a, env):
        n = a.name
        x = [self.ev(y, env) for y in a.args]
        try:
            if n in ("mod", "idiv"):
                if x[1] == 0:
                    raise Skip()
                q = int(Fraction(x[0]) / Fraction(x[1]))
                return q if n == "idiv" else x[0] - q * x[1]
            if n == "tid":
                t = max(1, int(x[0]))
                return int(_rnd(self.seed, "tid", [_r(float(z)) for z in x]) * t)
            f = [float(z) for z in x]
            if n == "abs":
                return abs(x[0])
            if n == "pow":
                return f[0] ** f[1] if not (f[0] < 0 and f[1] != int(f[1])) else self.bad()
            if n in ("floor", "ceil", "trunc"):
                return getattr(math, n)(f[0])
            if n == "round":
                return int(math.floor(abs(f[0]) + .5)) * (1 if f[0] >= 0 else -1)
            if n in ("exp", "log", "sin", "cos", "tan", "asin", "acos", "atan", "tanh", "sinh", "cosh", "lgamma", "atan2", "erf"):
                return getattr(math, n)(*f)
            if n == "tgamma":
                return math.gamma(f[0])
            if n == "sign":
                return (f[0] > 0) - (f[0] < 0)
            if n in ("min", "max"):
                return min(x) if n == "min" else max(x)
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Skip()
        return self.real("fn", n, [_r(z) for z in f])

    def bad(self):
        raise Skip()

    def matrix(self, L, env):
        d, t = self.tensor(L, env)
        if len(d) != 2 or d[0] != d[1]:
            raise Skip()
        return [[float(t[(i, j)]) for j in range(d[1])] for i in range(d[0])]

    def tf(self, a, env):
        name, na = a.name
        args, idx = a.args[:na], a.args[na:]
        if name in ("inv", "det") and isinstance(args[0], Lam):
            fvs = set(args[0].fv)
            key = (name, args[0].key, tuple((v, env[v]) for v in sorted(fvs) if v in env), env.get("#mu") if args[0].pre else None)
            R = self.memo.get(key)
            if R is None:
                R = invdet(self.matrix(args[0], env))
                if self.noise and R[0] is not None:
                    R = ([[x * (1 + self.noise * (_rnd("noise", i, j) - .5)) for j, x in enumerate(r)] for i, r in enumerate(R[0])], R[1])
                self.memo[key] = R
            if name == "det":
                return R[1]
            if R[0] is None:
                raise Skip()
            i, j = [self.iv(x, env) for x in idx]
            if i >= len(R[0]) or j >= len(R[0]) or i < 0 or j < 0:
                raise Skip()
            return R[0][i][j]
        ix = tuple(self.iv(x, env) for x in idx)
        base = name.split(":")[0]
        if base in ("max", "min", "median", "sort", "sort_index", "find", "find.n", "any", "all", "index_max", "index_min") and len(args) == 1 and isinstance(args[0], Lam):
            d, t = self.tensor(args[0], env)
            order = sorted(t, key=lambda k: tuple(reversed(k)))
            vals = [float(t[k]) for k in order]
            if base == "any":
                return 1 if any(vals) else 0
            if base == "all":
                return 1 if all(vals) else 0
            if base == "find.n":
                return sum(1 for v in vals if v != 0)
            if base == "find":
                nz = [i for i, v in enumerate(vals) if v != 0]
                if not (0 <= ix[0] < len(nz)):
                    raise Skip()
                return nz[ix[0]]
            if not vals:
                raise Skip()
            if base in ("max", "min"):
                return max(vals) if base == "max" else min(vals)
            if base in ("index_max", "index_min"):
                return vals.index(max(vals) if base == "index_max" else min(vals))
            s = sorted(vals)
            if base == "median":
                m = len(s)
                return s[m // 2] if m % 2 else (s[m // 2 - 1] + s[m // 2]) / 2
            if len(set(s)) != len(s) and base == "sort_index":
                raise Skip()
            rev = "desc" in name
            if not (0 <= ix[0] < len(s)):
                # beyond the end: an arbitrary value, which drops out where a condition masks the access
                return self.real("beyond", base, ix)
            if base == "sort":
                return s[len(s) - 1 - ix[0]] if rev else s[ix[0]]
            v = s[len(s) - 1 - ix[0]] if rev else s[ix[0]]
            return vals.index(v)
        sig = [self.val(x, env) for x in args]
        if a.idem:
            return 1 if _rnd(self.seed, "tb", name, sig, ix) < .5 else 0
        if a.isint:
            return 1 + int(_rnd(self.seed, "ti", name, sig, ix) * 3)
        if name.startswith(("weight", "distance")):
            u = _rnd(self.seed, "w", name, sig, ix)
            if self.dist in (2, 3):          # ties and zero weights
                return (0.0, 0.5, 1.0, 0.25)[int(u * 4)]
            if self.dist == 6:
                return (0.25, 0.5, 1.0)[int(u * 3)]
            return 0.1 + 0.9 * u
        return self.real("tfn", name, sig, ix)


def invdet(M):
    n = len(M)
    A = [r[:] + [1.0 if i == j else 0.0 for j in range(n)] for i, r in enumerate(M)]
    sc = max([abs(x) for r in M for x in r] + [0])
    det = 1.0
    if n == 0:
        return [], 1.0
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(A[r][c]))
        if abs(A[p][c]) <= 1e-7 * sc or sc == 0:
            return None, 0.0
        if p != c:
            A[c], A[p] = A[p], A[c]
            det = -det
        pv = A[c][c]
        det *= pv
        A[c] = [x / pv for x in A[c]]
        for r in range(n):
            if r != c and A[r][c] != 0:
                f = A[r][c]
                A[r] = [x - f * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A], det


SIZES = [
    dict(n=5, k=2, m=3, r=4, p=2),
    dict(n=6, k=3, m=2, r=5, p=3),
    dict(n=4, k=1, m=5, r=3, p=1),
    dict(n=7, k=2, m=4, r=2, p=2),
]


class MuRun:
    MAX = 400

    def __init__(self, I, key, head, roles, h, N, H, PI, env):
        self.I, self.key, self.head, self.N, self.env = I, key, head, N, dict(env)
        self.parent = env.get("#mu")
        self.post, self.init = PI[0::2], PI[1::2]
        self.comp = {"\u03bc\u00b7%s.%d" % (h, k): k for k in range(N)}
        self.roles = [r for r in roles.split(",") if r]
        self.memo = {}
        self.count = None
        if head == "cnt":
            self.lo, self.hi = I.iv(H[0], env), I.iv(H[1], env)
            self.desc = H[2].const() == 1
            self.count = max(0, self.hi - self.lo)
            if self.count > 60:
                raise Skip()

    def step_of(self, i):
        return (self.hi - 1 - i) if self.desc else i - self.lo

    def at(self, x, t, idx, extra=None):
        env = dict(self.env)
        env["#mu"] = (self.key, t, self.parent)
        if isinstance(x, Lam):
            for n_, i in zip(x.names, list(idx) + ([extra] if extra is not None else [])):
                env[n_] = i
            return self.I.ev(x.body, env)
        return self.I.ev(x, env)

    def value(self, k, t, idx):
        """component k before step t"""
        m = (k, t, idx)
        r = self.memo.get(m)
        if r is None:
            if t <= 0:
                x = self.init[k]
                env = dict(self.env)
                if isinstance(x, Lam):
                    for n_, i in zip(x.names, idx):
                        env[n_] = i
                    r = self.I.ev(x.body, env)
                else:
                    r = self.I.ev(x, env)
            else:
                i = None
                if self.head == "cnt":
                    i = (self.hi - t) if self.desc else self.lo + t - 1
                r = self.at(self.post[k], t - 1, idx, i)
            self.memo[m] = r
        return r

    def final(self, k, idx):
        if self.head == "cnt":
            return self.value(k, self.count, idx)
        ci = [int(r[1:]) for r in self.roles if r[0] == "c"]
        bi = [int(r[1:]) for r in self.roles if r[0] == "k"]
        bm = {int(r[1:].split(">")[1]): int(r[1:].split(">")[0]) for r in self.roles if r[0] == "b"}
        if not ci:
            raise Opaque("recurrence")
        if self.count is None:
            for t in range(self.MAX):
                if abs(self.at(self.post[ci[0]], t, ())) < .5:
                    self.count = (t, False)
                    break
                if bi and abs(self.at(self.post[bi[0]], t, ())) > .5:
                    self.count = (t, True)
                    break
            else:
                raise Skip()
        t, broke = self.count
        if broke and k in bm:
            return self.at(self.post[bm[k]], t, idx)
        return self.value(k, t, idx)


_interps = {}


def interp(k, sizes, noise=0):
    """the k-th interpretation; what it has evaluated already is shared by all obligations of a claim"""
    key = (k, tuple(sorted(sizes.items())))
    I = _interps.get(key) if not noise else None
    if I is None or len(I.memo) > 200000:
        I = Interp(SEED + "s%d" % k, dist=(0, 1, 2, 6, 7, 3, 1, 6, 4, 5)[k % 10], sizes=sizes)
        I.noise = noise
        if not noise:
            _interps[key] = I
    I.cnt = 0
    return I


def distinguish(x, y, vs=(), dims=(), samples=30, extra=None, guard=None):
    """x,y Poly over index variables vs ranging over dims.  -> (True, witness) when separated,
    (False, number of usable samples) otherwise; raises Opaque"""
    usable = 0
    for k in range(samples * (3 if guard is None else 12)):
        if usable >= samples:
            break
        sizes = dict(SIZES[k % len(SIZES)])
        if extra:
            sizes.update(extra)
        I = interp(k, sizes)
        try:
            dv = [I.iv(d, {}) for d in dims]
            if any(d <= 0 for d in dv):
                continue
            env = {v: int(_rnd(k, "ix", j) * d) for j, (v, d) in enumerate(zip(vs, dv))}
            if guard is not None and abs(float(I.ev(guard, env))) < 0.5:
                continue
            a, b = float(I.ev(x, env)), float(I.ev(y, env))
        except Skip:
            continue
        except (OverflowError, ZeroDivisionError):
            continue
        usable += 1
        if abs(a - b) > 1e-5 * max(abs(a), abs(b)) and abs(a - b) > 1e-9 * _mag(I, x, y, env) and abs(a - b) > 1e-12:
            J = interp(k, sizes, noise=1e-11)
            try:
                a2, b2 = float(J.ev(x, env)), float(J.ev(y, env))
            except (Skip, OverflowError, ZeroDivisionError):
                usable -= 1
                continue
            if max(abs(a - a2), abs(b - b2)) > 0.01 * abs(a - b):      # could be rounding
                usable -= 1
                continue
            return True, dict(sample=k, sizes=sizes, index=env, left=a, right=b)
    return False, usable


def _mag(I, x, y, env):
    m = 1e-12
    for p in (x, y):
        for mo, c in p.t.items():
            try:
                m = max(m, abs(float(I.ev(Poly({mo: c}), env))))
            except Skip:
                pass
    return m
