"""Three-valued comparison of two abstract values."""
from values import *
import terms as T
import pit

OK, DIFF, UNKNOWN = "ok", "diff", "unknown"


def cmp_poly(x, y, vs=(), dims=(), guard=None):
    if x.key == y.key:
        return OK, "identical normal forms"
    if x.taint or y.taint:
        return UNKNOWN, "unmodelled: %s" % taints(x, y)
    try:
        d = x - y
        if not d.t:
            return OK, "identical normal forms"
        d2 = T.expand_all(d) if hasattr(T, "expand_all") else d
        if not d2.t:
            return OK, "identical after case expansion"
    except T.TooBig:
        pass
    try:
        sep, w = pit.distinguish(x, y, vs, dims, guard=guard)
    except pit.Opaque as e:
        return UNKNOWN, "normal forms differ, symbol without interpretation: %s" % e
    except RecursionError:
        return UNKNOWN, "normal form too deep"
    if sep:
        return DIFF, dict(found=T.show(x, 6)[:3000], expected=T.show(y, 6)[:3000], witness=w)
    if w < 5:
        return UNKNOWN, "normal forms differ; only %d usable interpretations" % w
    return OK, "indistinguishable under %d interpretations" % w


def taints(*ps):
    out = []
    for p in ps:
        for a in T.collect(p, lambda a: a.kind == "unk"):
            s = str(a.name).split("#")[0]
            if s not in out:
                out.append(s)
    return "; ".join(out[:4])


def compare(x, y, shape_only=False, guard=None):
    if guard is not None and guard.const() != 1:
        if guard.const() == 0:
            return OK, "unreachable"
        gd = guard
        if isinstance(x, Tn) and isinstance(y, Tn) and len(x.dims) == len(y.dims):
            for a, b in zip(x.dims, y.dims):
                r = cmp_poly(a * guard, b * guard, guard=gd)
                if r[0] != OK:
                    return r
            vs = [fresh("k", C(0), d) for d in x.dims]
            ix = [C(0) if d.const() == 1 else var(q) for q, d in zip(vs, x.dims)]
            return cmp_poly(x.at(*ix) * guard, y.at(*ix) * guard, vs, x.dims, guard=gd)
        if isinstance(x, Poly) and isinstance(y, Poly):
            return cmp_poly(x * guard, y * guard, guard=gd)
    if isinstance(x, Tn) and isinstance(y, Tn):
        dx, dy = list(x.dims), list(y.dims)
        if len(dx) != len(dy):
            if len(dx) == 1 and len(dy) == 2:
                return compare(Tn((x.dims[0], C(1)), (x.vs[0], fresh("k")), x.body), y, shape_only)
            if len(dx) == 2 and len(dy) == 1:
                return compare(x, Tn((y.dims[0], C(1)), (y.vs[0], fresh("k")), y.body), shape_only)
            return DIFF, dict(found="%d-d" % len(dx), expected="%d-d" % len(dy))
        note = "identical normal forms"
        for a, b in zip(dx, dy):
            v, w = cmp_poly(a, b)
            if v != OK:
                if v == DIFF:
                    w = dict(w, what="shape")
                return v, w
        if shape_only:
            return OK, note
        vs = [fresh("k", C(0), d) for d in dx]
        ix = [C(0) if d.const() == 1 else var(v) for v, d in zip(vs, dx)]
        return cmp_poly(x.at(*ix), y.at(*ix), vs, dx)
    if isinstance(x, Poly) and isinstance(y, Tn):
        x, y = y, x
    if isinstance(x, Tn) and isinstance(y, Poly):
        if all(d.const() == 1 for d in x.dims):
            return compare(x.at(*[C(0)] * len(x.dims)), y)
        return UNKNOWN, "scalar against tensor"
    if isinstance(x, Poly) and isinstance(y, Poly):
        return cmp_poly(x, y)
    if isinstance(x, ListV) and isinstance(y, ListV):
        if len(x.items) != len(y.items):
            return DIFF, dict(found="%d elements" % len(x.items), expected="%d elements" % len(y.items))
        for a, b in zip(x.items, y.items):
            v, w = compare(a, b)
            if v != OK:
                return v, w
        return OK, "identical"
    if isinstance(x, Choice) or isinstance(y, Choice):
        if vkey(x) == vkey(y):
            return OK, "identical"
        return UNKNOWN, "conditional value"
    if isinstance(x, (Unk, Uninit)) or isinstance(y, (Unk, Uninit)):
        if isinstance(x, Uninit) and isinstance(y, (Poly, Tn)):
            return DIFF, dict(found="uninitialised value", expected=vshow(y))
        return UNKNOWN, "unmodelled value %r / %r" % (x, y)
    if vkey(x) == vkey(y):
        return OK, "identical"
    if type(x) is type(y) and isinstance(x, (Ptr, StrV, FnV)):
        return DIFF, dict(found=repr(x), expected=repr(y))
    return UNKNOWN, "values of kinds %s / %s" % (type(x).__name__, type(y).__name__)


def vshow(v):
    if isinstance(v, Tn):
        return T.show(v.body)
    if isinstance(v, Poly):
        return T.show(v)
    return repr(v)


ADVERSE = {"STOP": "the user cancels", "SING": "a system of equations is singular", "SVDF": "a decomposition fails", "FIN": "the value is not finite"}


PASSIVE = ("sum", "fn", "base", "cpow", "leaf", "var")     # kinds of atoms that compute with their arguments without testing them


def event(a):
    """names of the adversities an atom speaks about"""
    if a.kind == "opq" and a.name in ADVERSE:
        return [a.name]
    if a.kind == "ALL":
        inner = T.collect(T.A(a), lambda b: b.kind == "opq" and b.name in ADVERSE and b.name != "FIN")
        if inner:
            # those whose occurrence alone falsifies the bracket
            body = a.args[0].body if hasattr(a.args[0], "body") else None
            sure = {b.name for b in inner if body is not None and not T.cofactor(body, b, 1).t} if body is not None else set()
            return sorted(sure) or sorted({b.name for b in inner})[:1]
    return None


def compare_fail(x, y, required=("FIN", "SING", "STOP"), bad_="the criterion is not the worst value", good_="worst value after each of:"):
    """in every case in which something adverse happened x is the constant y"""
    if not isinstance(x, Poly) or not isinstance(y, Poly):
        return UNKNOWN, "criterion is not a number"
    evs = {}
    for a in T.collect(x, lambda a: event(a) is not None):
        if not T.A(a).fv:
            evs[a.key] = a
    names, unk = [], []
    for a in evs.values():
        nms = event(a)
        nm = nms[0]
        bad = 1 if a.kind == "opq" and nm != "FIN" else 0
        c = T.cofactor(x, a, bad)
        if c == y:
            names += nms
            continue
        if c.taint:
            unk.append("%s: unmodelled %s" % (ADVERSE[nm], taints(c)))
            continue
        return DIFF, dict(what="when %s %s" % (ADVERSE[nm], bad_), event=T.show_atom(a, 3)[:800], found=T.show(c, 4)[:1500], expected=T.show(y, 2)[:60])
    if unk:
        return UNKNOWN, "; ".join(unk[:3])
    if "FIN" in required:
        # a value found not to be finite must end the candidate: tests that only drop addends leave the others' sum
        fin = lambda c: c.kind == "opq" and c.name == "FIN"
        skipped = [a for a in T.collect(x, fin) if T.A(a).fv]
        if skipped and not T.collect(x, lambda a: a.kind not in PASSIVE and not fin(a) and not T.A(a).fv and T.collect(T.A(a), lambda c: fin(c) and T.A(c).fv)):
            return DIFF, dict(what="an addend that is not finite is left out and the sum of the others reported", event=T.show_atom(skipped[0], 3)[:800], found=T.show(x, 4)[:1500], expected=T.show(y, 2)[:60])
    seen = set(names)
    miss = [k for k in required if k not in seen]
    if miss:
        if x.taint or not names:
            return UNKNOWN, "no test found for: %s" % ", ".join(ADVERSE[k] for k in miss)
        if "reaches" in bad_:
            return DIFF, dict(what="%s although %s" % (bad_, " or ".join(ADVERSE[k] for k in miss)), found=T.show(x, 4)[:1500])
        return DIFF, dict(what="the criterion does not depend on whether %s" % " or ".join(ADVERSE[k] for k in miss), found=T.show(x, 4)[:1500])
    return OK, good_ + " %s" % ", ".join("%s x%d" % (ADVERSE[k], names.count(k)) for k in sorted(set(names)))
