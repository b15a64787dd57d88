"""Comparison of closed-form functions with their published definitions."""
from devs import *
import alg_eval

CI = "allantools.ci"


def near(got, want, points, rel=None, alts=()):
    """same(), with a relative tolerance for constants that are published to a
    finite number of digits, and with alternative admissible definitions"""
    v, why = same(got, want, points)
    if v != VIOLATED:
        return v, why
    for w in ((want,) if rel else ()) + tuple(alts):
        if rel is None:
            v2, w2 = same(got, w, points)
            if v2 in (PROVED, AGREED):
                return v2, w2
            continue
        ok = 0
        for p in points:
            try:
                a, b = p.ev(got), p.ev(w)
            except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError):
                continue
            if alg_eval.close_to(a, b, rel, 1e-300):
                ok += 1
            else:
                ok = -10 ** 6
        if ok >= 2:
            return AGREED, "agrees within the relative %g to which the constants are published" % rel
    return v, why


def value(c, o, k=None):
    """value number of a result (or of its k-th component)"""
    if o.value is None:
        return None
    v = c.I.deref(o.st, o.value)
    if k is not None:
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Arr) and v.items() is not None:
            items = v.items()
        else:
            return None
        if k >= len(items):
            return None
        v = c.I.deref(o.st, items[k])
    if isinstance(v, Cond):
        return alg.ite(v, ONE, ZERO)
    if isinstance(v, Const) and isinstance(v.v, bool):
        return num(int(v.v))
    return v if isinstance(v, (E, Arr)) else (c.I.to_e(o.st, v) if not isinstance(v, (Tup, Const)) else None)


def rvalue(c, o, k=None):
    v = c.R.deref(o.st, o.value)
    if k is not None:
        v = c.R.deref(o.st, v.items[k])
    return v if isinstance(v, (E, Arr)) else c.R.to_e(o.st, v)


def raises_names(o):
    return sorted({str(x[1]) for x in o.raises})


def ends(o, points, rule, where, what):
    """an analysis without a result: a violation if an exception is reached"""
    hit = raise_reached(o, points)
    return finding(VIOLATED if hit else UNDECIDED, rule, where, what + (": raises %s%s" % (hit[0], " when " + " and ".join(str(q)[:150] for q in hit[1][-2:]) if hit[1] else "") if hit
                                                                        else ": no result: %s" % raises_names(o)))


def raise_reached(o, points):
    """an exception whose path condition holds at a point: (name, point) or None;
    undecidable paths are ignored"""
    for path, name, *_ in o.raises:
        for p in points:
            try:
                if all(p.cond(q) for q in path):
                    return str(name), path
            except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, RecursionError):
                continue
            except Exception:
                continue
    return None


def never_raises(o, points, rule, where, tag):
    hit = raise_reached(o, points)
    if hit:
        return [finding(VIOLATED, rule, where, "%s: raises %s when %s" % (tag, hit[0], hit[1]))]
    return []


def root(e):
    return alg.power(e, F(1, 2))
