"""Loops are solved as recurrences on the loop-carried values."""
from values import *
import terms as T

_n = [0]
ADV = {"STOP", "SING", "SVDF"}


def is_adv(a):
    return a.kind == "opq" and a.name in ADV


def adv_atoms(p, acc=None):
    """top level adversity brackets of a polynomial (including quantified ones)"""
    acc = {} if acc is None else acc
    for m in p.t:
        for a, e in m:
            if is_adv(a) or (a.kind == "ALL" and T.collect(T.A(a), is_adv)):
                acc[a.key] = a
    return acc


def adv_none(p):
    """value when nothing adverse happens"""
    for a in list(adv_atoms(p).values()):
        p = T.cofactor(p, a, 0 if is_adv(a) else 1)
    return p


class Loop:
    pass


def exists_before(E, st, loc, meta0):
    if loc in st.env:
        return True
    if loc[0] in meta0:
        return True
    return False


def pre_value(E, st, loc, name, dims_changed):
    """symbol for the value of loc at the start of an iteration; returns (init, pre)"""
    init = E.getloc(st, loc)
    return init, mkpre(E, init, name, E.types.get(loc) or _ftype(E, loc), dims_changed)


def _ftype(E, loc):
    m = E.meta.get(loc[0])
    if m:
        return E.fieldtype(m["cls"], loc[1]) or ""
    return ""


def mkpre(E, init, name, t, dims_changed):
    t = (t or "").rstrip("&").replace("const ", "").strip()
    if isinstance(init, Poly):
        b = t == "bool"
        isint = t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "size_t") or b
        if not t:
            isint = init.const() is not None and init.const().denominator == 1
        return T.preleaf(name, (), boolean=b, isint=isint)
    if isinstance(init, Tn):
        dims = [T.preleaf(name + ".d%d" % k, (), isint=True) if k in dims_changed else d for k, d in enumerate(init.dims)]
        return build(dims, lambda *i: T.preleaf(name, i, isint=init.isint), init.isint)
    if isinstance(init, ListV) and init.kind in ("pair", "array", "list"):
        return ListV([mkpre(E, x, name + ".%d" % k, "", ()) for k, x in enumerate(init.items)], init.kind)
    return init


def solve(E, st, cond, inc, body, n, post=False):
    # ---------------------------------------------------------------- constant trip counts
    if post:
        r = body(st)
        outs = {k: o for k, o in r.items() if k not in ("fall", "cont", "brk")}
        f = E.merge_out(r["fall"][0] if "fall" in r else C(0), r.get("fall"), r.get("cont"))
        if "brk" in r or f is None:
            return havoc(E, st, n, "break in do-while")
        st = f[1]
        r2 = solve(E, st, cond, inc, body, n)
        for k, o in r2.items():
            o = (o[0] * f[0], o[1], o[2])
            outs[k] = E.merge_out(outs[k][0], outs[k], o) if k in outs else o
        return outs
    u = unroll(E, st, cond, inc, body)
    if u is not None:
        return u
    env0 = st.env
    E.loopdepth += 1
    try:
        r = solve2(E, st, cond, inc, body, n)
    finally:
        E.loopdepth -= 1
    if E.loopdepth == 0:
        for kind, o in r.items():
            env = o[1].env
            for loc, v in list(env.items()):
                if isinstance(v, (Tn, Poly)) and env0.get(loc) is not v:
                    env[loc] = E.abbreviate(v)
    return r


def solve2(E, st, cond, inc, body, n):
    outer = E.written
    meta0 = set(E.meta)
    env0 = dict(st.env)
    _n[0] += 1
    tag = "μ%d" % _n[0]
    names = {}
    dimsch = {}
    lists = set()
    snap = (len(E.checks), len(E.notes))
    base = St(dict(st.env))
    try:
        M = discover(E, base, cond, inc, body, meta0, tag, names, dimsch)
    finally:
        E.written = outer
    if outer is not None:
        outer |= set(M)
    # ---------------------------------------------------------------- induction variable
    pst, inits, pres = pre_state(E, base, M, names, dimsch)
    del E.notes[snap[1]:]
    nadv = E.nadv
    s1 = St(dict(pst.env))
    c = cond(s1)
    cadv = c
    c = adv_none(c)
    r = body(s1)
    f = join_fall(E, r)
    ind = None
    if f is not None:
        s2 = St(dict(f[1].env))
        inc(s2)
        ind = induction(E, M, names, inits, s2, c)
    del E.checks[snap[0]:]
    del E.notes[snap[1]:]
    E.written = outer
    if ind is None:
        return general(E, st, base, cond, inc, body, M, names, dimsch, n, tag)
    return counted(E, st, base, cond, inc, body, M, names, dimsch, n, tag, ind)


def unroll(E, st, cond, inc, body):
    snapc, snapn = len(E.checks), len(E.notes)
    s = st.copy()
    outs = {}
    acc = C(1)
    nf, no = E.nframe, E.nobj
    for k in range(E.UNROLL + 1):
        s0 = s.copy()
        c = cond(s)
        kc = c.const()
        if kc is None:
            break
        if kc == 0:
            res = dict(outs)
            if "brk" in res:
                b = res.pop("brk")
                res["fall"] = E.merge_out(b[0], b, (acc, s, None))
            else:
                res["fall"] = (acc, s, None)
            return res
        if k == E.UNROLL:
            break
        r = body(s)
        b = r.get("brk")
        f = join_fall(E, r)
        for kind, o in r.items():
            if kind in ("fall", "cont"):
                continue
            o = (o[0] * acc, o[1], o[2])
            outs[kind] = E.merge_out(outs[kind][0], outs[kind], o) if kind in outs else o
        if f is None:
            res = dict(outs)
            if "brk" in res:
                res["fall"] = res.pop("brk")
            return res
        acc = acc * f[0]
        s = f[1]
        inc(s)
        if acc.const() is None and k >= 5:
            break
        if acc.const() == 0:
            res = dict(outs)
            if "brk" in res:
                res["fall"] = res.pop("brk")
            return res
    del E.checks[snapc:]
    del E.notes[snapn:]
    return None


def join_fall(E, r):
    f, c = r.get("fall"), r.get("cont")
    if f is None and c is None:
        return None
    if f is None or c is None:
        return f or c
    return E.merge_out(c[0], c, f)


def discover(E, base, cond, inc, body, meta0, tag, names, dimsch):
    M = []
    env0 = set(base.env)
    for rnd in range(6):
        ps, inits, pres = pre_state(E, base, M, names, dimsch)
        E.written = set()
        env_before = dict(ps.env)
        c = cond(ps)
        r = body(ps)
        f = join_fall(E, r)
        outs = [f] if f is not None else []
        if f is not None:
            inc(f[1])
        for k in ("brk",):
            if k in r:
                outs.append(r[k])
        W = set()
        for loc in E.written:
            if loc[1] == "#all":
                for fl in E.allfields(E.meta[loc[0]]["cls"]):
                    W.add((loc[0], fl["n"]))
                continue
            W.add(loc)
        new = []
        grow = False
        for loc in sorted(W, key=str):
            if loc in M:
                continue
            if loc in env0 or loc[0] in meta0 or loc[0] == "global":
                # really changed?
                v0 = env_before.get(loc)
                if v0 is None:
                    v0 = E.getloc(base, loc)
                ch = False
                for o in outs:
                    v1 = o[1].env.get(loc)
                    if v1 is not None and v1 is not v0 and vkey(v1) != vkey(v0):
                        ch = True
                if ch or not outs:
                    new.append(loc)
        for loc in M:
            for o in outs:
                v1 = o[1].env.get(loc)
                p = pres.get(loc)
                if isinstance(v1, Tn) and isinstance(p, Tn) and len(v1.dims) == len(p.dims):
                    for k, (x, y) in enumerate(zip(v1.dims, p.dims)):
                        if x != y and k not in dimsch.setdefault(loc, set()):
                            if isinstance(inits.get(loc), Tn) and p.dims[k] == x:
                                continue
                            dimsch[loc].add(k)
                            grow = True
        for loc in new:
            names[loc] = "%s.%d" % (tag, len(names))
            v = E.getloc(base, loc)
            if isinstance(v, ListV) and v.kind == "vector":
                t = E.model.list_to_tensor(v)
                if t is not None:
                    base.env[loc] = t
                    dimsch.setdefault(loc, set()).add(0)
        M += new
        if not new and not grow:
            break
    return M


def pre_state(E, base, M, names, dimsch):
    ps = St(dict(base.env))
    inits, pres = {}, {}
    for loc in M:
        init, pre = pre_value(E, base, loc, names[loc], dimsch.get(loc, ()))
        inits[loc] = init
        pres[loc] = pre
        ps.env[loc] = pre
    return ps, inits, pres


def induction(E, M, names, inits, s2, c):
    """(loc, step, kind, bound, extra) for a counted loop"""
    cands = []
    if not c.t:
        return None
    allnames = set(names.values())
    for loc in M:
        init = inits[loc]
        if not isinstance(init, Poly):
            continue
        p = s2.env.get(loc)
        if not isinstance(p, Poly):
            continue
        pl = None
        for isint in (True, False):
            for bl in (False,):
                x = T.preleaf(names[loc], (), isint=isint)
                d = (p - x).const()
                if d is not None:
                    pl = x
        if pl is None:
            continue
        step = (p - pl).const()
        if step == 0 or step.denominator != 1:
            continue
        cands.append((loc, pl, step))
    for loc, pl, step in cands:
        (m0, _), = pl.t.items()
        at = m0[0][0]
        # c = [LT] * extra   or  c = extra - [LT]*extra
        for a in sorted({x for m in c.t for x, e in m if x.kind in ("LT", "EQ") and at.name in x.pre}, key=lambda x: x.key):
            c1, c0 = T.cofactor(c, a, 1), T.cofactor(c, a, 0)
            q = a.args[0]
            co = q.t.get(m0)
            if co is None or abs(co) != 1:
                continue
            rest = T.Poly({k: v for k, v in q.t.items() if k != m0})
            if rest.pre & allnames:
                continue
            # q = co*pre + rest
            bound = T.scale(rest, -1 / co)          # pre == bound
            if a.kind == "LT":
                if co == 1 and c0.const() == 0 and step > 0:        # pre < bound
                    return loc, int(step), bound, c1
                if co == 1 and c1.const() == 0 and step < 0:        # pre >= bound
                    return loc, int(step), bound - 1, c0
                if co == -1 and c0.const() == 0 and step < 0:       # bound < pre
                    return loc, int(step), bound, c1
                if co == -1 and c1.const() == 0 and step > 0:       # pre <= bound
                    return loc, int(step), bound + 1, c0
            else:
                if c1.const() == 0:
                    return loc, int(step), bound, c0
    return None


def same_idx(args, ix, m):
    """are the indices equal, given the equalities that are factors of the monomial"""
    if len(args) != len(ix):
        return False
    for p, q in zip(args, ix):
        if p.key == q.key:
            continue
        d = p - q
        if not any(x.kind == "EQ" and (x.args[0] == d or x.args[0] == -d) for x, e in m):
            return False
    return True


def split_linear(P, name, ix):
    """P = a*pre[idx] + b ; None when pre occurs otherwise"""
    a, b = {}, {}
    for m, c in P.t.items():
        hit = None
        rest = []
        for x, e in m:
            if x.kind == "preleaf" and x.name == name:
                if e != 1 or hit is not None or not same_idx(x.args, ix, m):
                    return None
                hit = x
            else:
                if name in x.pre:
                    return None
                rest.append((x, e))
        if hit is None:
            b[m] = c
        else:
            a[tuple(rest)] = c
    return T.Poly(a), T.Poly(b)


def factor(P, atom):
    """P = atom*Q (every monomial contains atom) -> Q"""
    t = {}
    for m, c in P.t.items():
        if not any(x is atom for x, e in m):
            return None
        mm = tuple((x, e) for x, e in m if x is not atom)
        t[mm] = t.get(mm, T.ZERO) + c
    return T.Poly(t)


def solve_for(atom, v):
    """EQ atom -> expression for loop variable v, or None"""
    q = atom.args[0]
    for m, c in q.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "var" and m[0][0].name == v and abs(c) == 1:
            rest = T.Poly({k: x for k, x in q.t.items() if k != m})
            if v in rest.fv:
                return None
            return T.scale(rest, -1 / c)
    return None


class Solver:
    """recurrences over loop variable v in [lo,hi); desc: iteration order reversed"""

    def __init__(self, E, v, lo, hi, desc):
        self.E, self.v, self.lo, self.hi, self.desc = E, v, lo, hi, desc

    def sub(self, p, e):
        return subst(p, {self.v: e})

    def before(self):
        """range of earlier iterations"""
        if self.desc:
            return var(self.v) + 1, self.hi
        return self.lo, var(self.v)

    def last(self):
        return self.lo if self.desc else self.hi - 1

    def first(self):
        return self.hi - 1 if self.desc else self.lo

    def rng(self, b, lo, hi):
        w = fresh("i", lo, hi)
        return sum_(w, lo, hi, self.sub(b, var(w)))

    def scalar(self, P, name, init, idxkeys=()):
        """-> (pre_at_v, final) or None.  P over index variables for tensors"""
        sp = split_linear(P, name, idxkeys)
        if sp is None:
            return self.by_case(P, name, init, idxkeys)
        r = self.linear(sp[0], sp[1], init)
        return r if r is not None else self.by_case(P, name, init, idxkeys)

    def linear(self, a, b, init, depth=0):
        """x' = a*x + b"""
        v = self.v
        lo1, hi1 = self.before()
        ka = a.const()
        if ka == 1:
            if not b.t:
                return init, init
            return init + self.rng(b, lo1, hi1), init + self.rng(b, self.lo, self.hi)
        if ka == 0:
            prev = var(v) + (1 if self.desc else -1)
            pre = ite(eq(var(v) - self.first()), init, self.sub(b, prev)) if isinstance(init, Poly) else self.sub(b, prev)
            fin = self.sub(b, self.last())
            ne = self.nonempty()
            if ne is not None and isinstance(init, Poly):
                fin = ite(ne, fin, init)
            return pre, fin
        B = C(1) - a
        # indexed overwrite
        for at in sorted({x for m in B.t for x, e in m if x.kind == "EQ"}, key=lambda x: x.key):
            e = solve_for(at, v)
            if e is None:
                continue
            Bq = factor(B, at)
            bq = factor(b, at) if b.t else b
            if Bq is None or bq is None:
                continue
            touched = (C(1) - self.sub(Bq, e)) * init + self.sub(bq, e)
            fin = ite(T.in_range(e, self.lo, self.hi), touched, init)
            pre = ite(T.in_range(e, lo1, hi1), touched, init)
            return pre, fin
        # flag cleared / set when some iteration satisfies a condition
        if all(x.idem for m in a.t for x, e in m):
            K = self.flagconst(a, b)
            if K is not None:
                allc = T.all_(v, self.lo, self.hi, a)
                w = fresh("i", lo1, hi1)
                allp = T.all_(w, lo1, hi1, self.sub(a, var(w)))
                return ite(allp, init, K), ite(allc, init, K)
        if depth < 6:
            for at in sorted({x for m in a.t for x, e in m if x.idem and v not in x.fv and not x.pre}, key=lambda x: x.key):
                r1 = self.linear(T.cofactor(a, at, 1), T.cofactor(b, at, 1), init, depth + 1)
                if r1 is None:
                    return None
                r0 = self.linear(T.cofactor(a, at, 0), T.cofactor(b, at, 0), init, depth + 1)
                if r0 is None:
                    return None
                return ite(T.A(at), r1[0], r0[0]), ite(T.A(at), r1[1], r0[1])
        return None

    def by_case(self, P, name, init, ix):
        """distinguish cases on a condition that does not change during the loop"""
        for at in sorted({x for m in P.t for x, e in m if x.idem}, key=lambda x: x.key):
            if at.fv or at.pre:
                continue
            p1, p0 = T.cofactor(P, at, 1), T.cofactor(P, at, 0)
            i1, i0 = T.cofactor(init, at, 1), T.cofactor(init, at, 0)
            r1 = self.scalar(p1, name, i1, ix)
            if r1 is None:
                return None
            r0 = self.scalar(p0, name, i0, ix)
            if r0 is None:
                return None
            B = T.A(at)
            return ite(B, r1[0], r0[0]), ite(B, r1[1], r0[1])
        return None

    def flagconst(self, a, b):
        if not b.t:
            return C(0)
        B = C(1) - a
        # b == K*B with constant K
        for m, c in b.t.items():
            if m in B.t:
                K = c / B.t[m]
                if T.scale(B, K) == b:
                    return C(K)
            return None
        return None

    def nonempty(self):
        d = self.hi - self.lo
        k = d.const()
        if k is not None:
            return None if k > 0 else C(0)
        if T.nonneg(d) or T.nonneg(d - 1):
            return None
        return lt(self.lo - self.hi, True)


def counted(E, st, base, cond, inc, body, M, names, dimsch, n, tag, ind):
    loc, step, bound, extra = ind
    init = E.getloc(base, loc)
    outer = E.written
    desc = step < 0
    if abs(step) == 1:
        v = fresh("i")
        lo, hi = (init, bound) if not desc else (bound + 1, init + 1)
        T.RANGE[v] = (lo, hi)
        ival = var(v)
    else:
        v = fresh("i")
        if step < 0:
            return general(E, st, base, cond, inc, body, M, names, dimsch, n, tag)
        cnt = E.arith("/", bound - init + (step - 1), C(step), True)
        lo, hi = C(0), cnt
        T.RANGE[v] = (lo, hi)
        ival = init + C(step) * var(v)
    U = [l for l in M if l != loc]
    ps, inits, pres = pre_state(E, base, U, names, dimsch)
    ps.env[loc] = ival
    E.loopctx.append(v)
    ompset = bool(E.omp) and E.omp[-1][1] is None
    if ompset:
        E.omp[-1][1] = v
    E.written = set()
    try:
        cc = cond(ps)
        r = body(ps)
        f = join_fall(E, r)
        if f is not None:
            s2 = f[1]
            inc(s2)
    finally:
        E.loopctx.pop()
        if ompset:
            E.omp[-1][1] = None
        E.written = outer
    brk, ret, th = r.get("brk"), r.get("ret"), r.get("throw")
    if f is None:
        # executes at most once
        return havoc_locs(E, st, base, M, n, "loop body never continues", r)
    S = Solver(E, v, lo, hi, desc)
    posts = {l: f[1].env.get(l) for l in U}
    # extra conjuncts of the condition
    if extra.const() != 1:
        ex = extra
        unresolved = ex.pre & set(names.values())
        if unresolved and not all(True for _ in ()):
            pass
        return general(E, st, base, cond, inc, body, M, names, dimsch, n, tag)
    # breaks / returns that are not adversities
    advonly = True
    exitc = C(0)
    for o in (brk, ret):
        if o is not None and o[0].const() != 0:
            if adv_none(o[0]).const() != 0:
                advonly = False
    if not advonly:
        return general(E, st, base, cond, inc, body, M, names, dimsch, n, tag)
    if ret is not None and adv_none(ret[0]).const() == 0 and ret[0].const() != 0:
        # `return` on cancellation inside a loop
        pass
    # ------------------------------------------------ adversity split (fail mode)
    flags = {}
    sticky = {}
    posts0 = {}
    advs = {}
    for l, pv in posts.items():
        if isinstance(pv, Poly):
            adv_atoms(pv, advs)
        elif isinstance(pv, Tn):
            adv_atoms(pv.body, advs)
    if advs:
        for l, pv in posts.items():
            if isinstance(pv, Poly):
                p0 = adv_none(pv)
                nm = names[l]
                sp = split_linear(p0, nm, ())
                same0 = sp is not None and sp[0].const() == 1 and not sp[1].t
                ks = set()
                aff = []
                for a in advs.values():
                    p1 = T.cofactor(pv, a, 1 if is_adv(a) else 0)
                    for a2 in advs.values():
                        if a2 is not a:
                            p1 = T.cofactor(p1, a2, 0 if is_adv(a2) else 1)
                    if p1 != p0:
                        aff.append(a)
                        ks.add(p1)
                if same0 and aff and len(ks) == 1 and next(iter(ks)).const() is not None:
                    flags[l] = (aff, next(iter(ks)))
                elif aff and not same0:
                    # cleared by an adversity and by something else, never raised again
                    if sp is not None and not sp[1].t:
                        clr = []
                        for a in aff:
                            p1 = T.cofactor(pv, a, 1 if is_adv(a) else 0)
                            for a2 in advs.values():
                                if a2 is not a:
                                    p1 = T.cofactor(p1, a2, 0 if is_adv(a2) else 1)
                            if not p1.t:
                                clr.append(a)
                        if clr:
                            sticky[l] = clr
    for l, pv in posts.items():
        posts0[l] = vmap(pv, adv_none) if advs else pv
    flagpre = {names[l]: (lambda idx, x=inits[l]: x) for l in flags}
    todo = {}
    solved_pre = dict(flagpre)
    final = {}
    for l in U:
        if l in flags:
            continue
        todo[l] = vmap(posts0[l], lambda p: subst(p, {}, flagpre)) if flagpre else posts0[l]
    # components: every Poly of every location is one unknown
    comps = {}     # name -> (loc, kind, post poly, init poly, idxnames)
    special = {}
    for l, pv in todo.items():
        iv, nm = inits[l], names[l]
        if isinstance(iv, Uninit):
            # first written inside the loop
            if isinstance(pv, (Poly, Tn)):
                special[l] = ("temp", pv)
            else:
                special[l] = ("val", pv)
            continue
        if isinstance(iv, Poly) and isinstance(pv, Poly):
            comps[nm] = (l, "s", pv, iv, ())
        elif isinstance(iv, Tn) and isinstance(pv, Tn) and len(iv.dims) == len(pv.dims):
            vs = [fresh("k", C(0), d) for d in pv.dims]
            ix = [C(0) if d.const() == 1 else var(x) for x, d in zip(vs, pv.dims)]
            comps[nm] = (l, "t", pv.at(*ix), iv.at(*ix), tuple(vs), tuple(ix))
            for k in dimsch.get(l, ()):
                comps[nm + ".d%d" % k] = (l, "d%d" % k, pv.dims[k], iv.dims[k], ())
        elif isinstance(iv, ListV) and isinstance(pv, ListV) and len(iv.items) == len(pv.items) and all(isinstance(x, Poly) and isinstance(y, Poly) for x, y in zip(iv.items, pv.items)):
            for k, (x, y) in enumerate(zip(iv.items, pv.items)):
                comps[nm + ".%d" % k] = (l, "l%d" % k, y, x, ())
        else:
            special[l] = ("val", pv)
    result = {}
    allnames = set(comps)
    pending = dict(comps)
    progress = True
    while pending and progress:
        progress = False
        for nm in list(pending):
            c = pending[nm]
            P = subst(c[2], {}, solved_pre) if (c[2].pre & solved_pre.keys()) else c[2]
            deps = (P.pre & pending.keys()) - {nm}
            if deps:
                pending[nm] = c[:2] + (P,) + c[3:]
                continue
            ixk = c[5] if c[1] == "t" else ()
            r1 = S.scalar(P, nm, c[3], ixk)
            if r1 is None:
                pending[nm] = c[:2] + (P,) + c[3:]
                continue
            pre, fin = r1
            if c[1] == "t":
                def pf(idx, pre=pre, vs=c[4]):
                    return subst(pre, {x: i for x, i in zip(vs, idx)})
            else:
                def pf(idx, pre=pre):
                    return pre
            solved_pre[nm] = pf
            result[nm] = fin
            del pending[nm]
            progress = True
    if pending:
        mus(E, S, pending, result, solved_pre, ("cnt", lo, hi, C(1 if desc else 0)), n)
    # -------------------------------------------------- write back
    out = St(dict(base.env))
    noadv = C(1)
    for a in advs.values():
        noadv = noadv * T.all_(v, lo, hi, (C(1) - T.A(a)) if is_adv(a) else T.A(a))
    for l in U:
        if l in flags:
            aff, K = flags[l]
            c = C(1)
            for a in aff:
                c = c * T.all_(v, lo, hi, (C(1) - T.A(a)) if is_adv(a) else T.A(a))
            out.env[l] = ite(c, inits[l], K)
            continue
        if l in special:
            kind, pv = special[l]
            pv = vmap(pv, lambda p: subst(subst(p, {}, solved_pre), {v: S.last()}))
            if kind == "val":
                pre = pres[l]
                if vkey(posts[l]) == vkey(pre):
                    out.env[l] = inits[l]
                    continue
                dep = any(v in p.fv or p.pre for p in vpolys(posts[l]))
                if isinstance(posts[l], Ptr) or isinstance(posts[l], ObjV):
                    out.env[l] = Unk("loop-carried object")
                elif dep or isinstance(posts[l], (Unk,)):
                    out.env[l] = Unk("loop-carried value")
                else:
                    out.env[l] = posts[l]
                E.note("loop-carried %s" % type(posts[l]).__name__, n)
                continue
            out.env[l] = pv
            continue
        nm = names[l]
        iv = inits[l]
        if nm in comps and comps[nm][1] == "s":
            out.env[l] = result[nm]
        elif nm in comps:
            c = comps[nm]
            pv = todo[l]
            dims = []
            for k, d in enumerate(pv.dims):
                dn = nm + ".d%d" % k
                if dn in result:
                    dims.append(result[dn])
                else:
                    d2 = subst(d, {}, solved_pre) if d.pre else d
                    dims.append(subst(d2, {v: S.last()}) if v in d2.fv else d2)
            out.env[l] = Tn(dims, c[4], result[nm], iv.isint)
        else:
            out.env[l] = ListV([result[nm + ".%d" % k] for k in range(len(iv.items))], iv.kind)
        if advs and noadv.const() != 1:
            out.env[l] = undet_if(E, noadv, out.env[l])
        if l in sticky and isinstance(out.env[l], Poly):
            c = C(1)
            for a in sticky[l]:
                c = c * T.all_(v, lo, hi, (C(1) - T.A(a)) if is_adv(a) else T.A(a))
            out.env[l] = ite(c, out.env[l], C(0))
    # final value of the induction variable
    if loc in st.env:
        ne = S.nonempty()
        fv = init + C(step) * (hi - lo) if abs(step) != 1 else (hi if not desc else lo - 1)
        out.env[loc] = fv if ne is None else ite(ne, fv, init)
    outs = {}
    fall = C(1)
    if th is not None and th[0].const() != 0:
        tc = subst(th[0], {}, solved_pre) if th[0].pre else th[0]
        ok = T.all_(v, lo, hi, C(1) - tc)
        ts = St(dict(base.env))
        for l in M:
            ts.env[l] = undet(E, E.getloc(base, l))
        outs["throw"] = (C(1) - ok, ts, th[2])
        fall = fall * ok
    for kind, o in (("brk", brk), ("ret", ret)):
        if o is None or o[0].const() == 0:
            continue
        oc = subst(o[0], {}, solved_pre) if o[0].pre else o[0]
        ok = T.all_(v, lo, hi, C(1) - oc)
        bs = St(dict(out.env))
        seen = {}
        for l in set(M):
            pv = o[1].env.get(l)
            if isinstance(pv, Poly) and pv.const() is not None and l != loc:
                bs.env[l] = pv
            elif l == loc:
                bs.env[l] = undet(E, init) if loc in st.env else init
            else:
                at = at_break(pv, {names[x]: inits[x] for x in U if x in posts and vkey(posts[x]) == vkey(pres[x]) and isinstance(inits[x], Poly)}, v, E, seen)
                bs.env[l] = at if at is not None else undet(E, out.env.get(l, init))
        if kind == "brk":
            out = E.merge(ok, out, bs)
        else:
            outs["ret"] = (C(1) - ok, bs, o[2] if o[2] is VOID or (isinstance(o[2], Poly) and o[2].const() is not None) else undet(E, o[2]))
            fall = fall * ok
    st.env = out.env
    st.pend = None
    outs["fall"] = (fall, st, None)
    return outs


def at_break(p, unchanged, v, E, seen):
    """value p of a location in the iteration that is left by break, the adversities of that iteration being unknown booleans"""
    if not isinstance(p, Poly) or not p.pre <= set(unchanged):
        return None
    if p.pre:
        p = subst(p, {}, {nm: (lambda idx, x=x: x) for nm, x in unchanged.items()})
    for a in adv_atoms(p).values():
        if a.key not in seen:
            E.nadv += 1
            seen[a.key] = T.opq("AT", (C(E.nadv),), idem=True)
        x = seen[a.key]
        p = T.cofactor(p, a, 1) * x + T.cofactor(p, a, 0) * (C(1) - x)
    if v in p.fv or p.pre:
        return None
    return p


def undet(E, v):
    E.nadv += 1
    k = E.nadv
    if isinstance(v, Poly):
        return T.opq("undet", (C(k),))
    if isinstance(v, Tn):
        return build(v.dims, lambda *i: T.opq("undet", (C(k),) + tuple(i)))
    return v


def undet_if(E, ok, v):
    return vite(ok, v, undet(E, v))


def mus(E, S, pending, result, solved_pre, head, n):
    """mutually recursive values without closed form: one canonical recurrence term"""
    names = list(pending)
    E.note("recurrence kept symbolic: %d component(s)" % len(names), n)
    col = {}
    for nm in names:
        c = pending[nm]
        col[nm] = T.H(c[1], str(len(c[4])))
    for rnd in range(3):
        new = {}
        mp = {}
        for nm in names:
            mp[nm] = (lambda idx, x=col[nm]: T.leaf("☆" + x, idx))
        for nm in names:
            c = pending[nm]
            mp2 = dict(mp)
            mp2[nm] = lambda idx: T.leaf("★", idx)
            P = subst(c[2], {x: T.var("ι%d" % k) for k, x in enumerate(c[4])}, mp2)
            if S is not None:
                P = subst(P, {S.v: T.var("ιv")})
            I = subst(c[3], {x: T.var("ι%d" % k) for k, x in enumerate(c[4])})
            new[nm] = T.H(col[nm], P.key, I.key)
        col = new
    order = sorted(names, key=lambda x: col[x])
    h = max([pending[nm][2].h for nm in names] + [0])
    roles = []
    for k, nm in enumerate(order):
        if nm == "#cond":
            roles.append("c%d" % k)
        elif nm == "#brk":
            roles.append("k%d" % k)
        elif nm.startswith("#b"):
            roles.append("b%d>%d" % (k, order.index(nm[2:])))
    head = (head[0] + "|" + ",".join(roles) + "|%d" % h,) + tuple(head[1:])
    ren = {nm: "μ·%d.%d" % (h, k) for k, nm in enumerate(order)}
    mp = {nm: (lambda idx, x=ren[nm], d=pending[nm]: T.preleaf(x, idx)) for nm in names}
    args = list(head[1:])
    for nm in order:
        c = pending[nm]
        P = subst(c[2], {}, mp)
        vs = list(c[4]) + ([S.v] if S is not None else [])
        args.append(lam([C(0)] * len(vs), vs, P) if vs else P)
        args.append(lam([C(0)] * len(c[4]), list(c[4]), c[3]) if c[4] else c[3])
    for k, nm in enumerate(order):
        c = pending[nm]
        ix = tuple(C(0) if False else T.var(x) for x in c[4])
        result[nm] = T.opq("mu:%s:%d/%d" % (head[0], k, len(order)), tuple(args) + ix)
        if S is not None:
            def pf(idx, k=k):
                return T.opq("mupre:%s:%d/%d" % (head[0], k, len(order)), tuple(args) + (T.var(S.v),) + tuple(idx))
            solved_pre[nm] = pf
    return


def general(E, st, base, cond, inc, body, M, names, dimsch, n, tag):
    """loop without a recognised trip count: canonical recurrence over all carried values"""
    outer = E.written
    ps, inits, pres = pre_state(E, base, M, names, dimsch)
    E.written = set()
    try:
        c = cond(ps)
        r = body(ps)
        f = join_fall(E, r)
        if f is None:
            return havoc_locs(E, st, base, M, n, "loop body never continues", r)
        inc(f[1])
    finally:
        E.written = outer
    brk, ret, th = r.get("brk"), r.get("ret"), r.get("throw")
    posts = {l: f[1].env.get(l) for l in M}
    comps = {}
    bad = []
    for l in M:
        iv, pv, nm = inits[l], posts[l], names[l]
        if isinstance(iv, Poly) and isinstance(pv, Poly):
            comps[nm] = (l, "s", pv, iv, ())
        elif isinstance(iv, Tn) and isinstance(pv, Tn) and len(iv.dims) == len(pv.dims):
            vs = [fresh("k", C(0), d) for d in pv.dims]
            ix = [C(0) if d.const() == 1 else var(x) for x, d in zip(vs, pv.dims)]
            comps[nm] = (l, "t", pv.at(*ix), iv.at(*ix), tuple(vs))
            for k in dimsch.get(l, ()):
                comps[nm + ".d%d" % k] = (l, "d%d" % k, pv.dims[k], iv.dims[k], ())
        elif isinstance(iv, Uninit) and isinstance(pv, Poly):
            comps[nm] = (l, "s", pv, C(0), ())
        elif isinstance(iv, ListV) and isinstance(pv, ListV) and len(iv.items) == len(pv.items) and all(isinstance(x, Poly) and isinstance(y, Poly) for x, y in zip(iv.items, pv.items)):
            for k, (x, y) in enumerate(zip(iv.items, pv.items)):
                comps[nm + ".%d" % k] = (l, "l%d" % k, y, x, ())
        else:
            bad.append(l)
    for l in bad:
        if vkey(posts[l]) != vkey(pres[l]):
            pass
    comps["#cond"] = ("#", "s", c, C(0), ())
    if brk is not None:
        comps["#brk"] = ("#", "s", brk[0], C(0), ())
        for l in M:
            bv = brk[1].env.get(l)
            if isinstance(bv, Poly) and names[l] in comps:
                comps["#b" + names[l]] = ("#", "s", bv, C(0), ())
    result, pre = {}, {}
    mus(E, None, comps, result, pre, ("gen",), n)
    out = St(dict(base.env))
    for l in M:
        nm, iv = names[l], inits[l]
        if nm in comps and comps[nm][1] == "s":
            out.env[l] = result[nm]
        elif nm in comps:
            dims = [result[nm + ".d%d" % k] if nm + ".d%d" % k in result else d for k, d in enumerate(posts[l].dims)]
            out.env[l] = Tn(dims, comps[nm][4], result[nm], iv.isint)
        elif nm + ".0" in comps:
            out.env[l] = ListV([result[nm + ".%d" % k] for k in range(len(iv.items))], iv.kind)
        elif vkey(posts[l]) == vkey(pres[l]):
            out.env[l] = iv
        else:
            out.env[l] = E.taint_like(iv, "loop-carried")
    outs = {}
    fall = C(1)
    if ret is not None and ret[0].const() != 0:
        b = E.unkbool("return inside a loop")
        rs = St(dict(out.env))
        outs["ret"] = (b, rs, E.taint_like(ret[2], "return inside a loop") if ret[2] is not VOID else VOID)
        fall = C(1) - b
    if th is not None and th[0].const() != 0:
        b = E.unkbool("throw inside a loop") if not (ret is None and adv_none(th[0]).const() == 0 and False) else C(0)
        ts = St(dict(out.env))
        outs["throw"] = (b * fall, ts, th[2])
        fall = fall * (C(1) - b)
    st.env = out.env
    st.pend = None
    outs["fall"] = (fall, st, None)
    return outs


def havoc_locs(E, st, base, M, n, why, r):
    E.note("loop not analysed: " + why, n)
    for l in M:
        st.env[l] = E.taint_like(E.getloc(base, l), why)
    outs = {"fall": (C(1), st, None)}
    if "ret" in r or "throw" in r:
        b = E.unkbool(why)
        outs["fall"] = (C(1) - b, st, None)
        if "ret" in r:
            outs["ret"] = (b, St(dict(st.env)), E.taint_like(r["ret"][2], why))
        else:
            outs["throw"] = (b, St(dict(st.env)), r["throw"][2])
    return outs


def assigned(n, acc):
    """syntactic over-approximation of the variables / members written below a node"""
    if isinstance(n, dict):
        k = n.get("k")
        t = None
        if k == "asg":
            t = n["x"]
        elif k == "un" and n.get("o") in ("++", "--"):
            t = n["e"]
        elif k == "op" and n.get("o") in ("=", "+=", "-=", "*=", "/=", "%=", "++", "--"):
            t = n["a"][0]
        elif k == "mcall" and not n.get("const"):
            t = n.get("o")
        while isinstance(t, dict):
            if t["k"] == "var":
                acc.add(("v", t["id"]))
                break
            if t["k"] == "mem":
                acc.add(("m", t["n"]))
            t = t.get("b") or t.get("o") if not isinstance(t.get("o"), str) else (t.get("a") or [None])[0] or t.get("e") or t.get("b")
        for v in n.values():
            assigned(v, acc)
    elif isinstance(n, list):
        for v in n:
            assigned(v, acc)


def havoc(E, st, n, why):
    E.note("loop havoc: " + why, n)
    acc = set()
    assigned(n, acc)
    for kind, x in acc:
        if kind == "v":
            loc = (E.frame, x)
            v = st.env.get(loc)
            if isinstance(v, RefV):
                st.env[v.lv.loc] = E.taint_like(E.getloc(st, v.lv.loc), why)
            elif v is not None:
                st.env[loc] = E.taint_like(v, why)
        else:
            for loc in [l for l in st.env if l[1] == x]:
                st.env[loc] = E.taint_like(st.env[loc], why)
    return {"fall": (C(1), st, None)}
