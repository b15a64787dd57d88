"""Two analyses of one estimator under related inputs, and the relation its
results must have."""
from devs import *

TIME_TYPE = ("tdev", "ttotdev", "tierms", "mtie")


def quick_pars(name, tier):
    """averaging-factor regimes of the relational checks"""
    if name in HEAVY:
        return ("one", "two", "three") if tier == "quick" else ("one", "two", "three", "even", "odd")
    if name == "pdev":
        return ("one", "two+")
    return SPEC[name].get("regimes", ("gen",))


def err_values(r, j=0):
    """list of value numbers of the error bars of row j"""
    a = r.rows[2]
    I = r.case.I
    its = None
    if isinstance(a, Tup):
        its = a.items
    elif isinstance(a, Arr) and isinstance(I.deref(r.out.st, a.at(ZERO)), Arr):
        its = a.items()
    if its is None:
        return [at(r, 2, j)]
    out = []
    for x in its:
        d = I.deref(r.out.st, x)
        out.append(d.at(num(j)) if isinstance(d, Arr) else None)
    return out


def hit(path, p):
    try:
        return all(p.cond(q) for q in path)
    except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, RecursionError):
        return None


def only_raises(a, b, rule, extra, name, par, dt):
    """an input for which the first analysis returns and the second raises"""
    if not b.raises or any(opaque_atoms(q) for x in a.raises for q in x[0]):
        return []
    b.free = dict(a.free)
    if extra:
        b.free.update(extra)
    for p in pts(b, 6):
        if any(hit(x[0], p) is not False for x in a.raises):
            continue
        for x in b.raises:
            if not any(opaque_atoms(q) for q in x[0]) and hit(x[0], p):
                return [finding(VIOLATED, rule + ": result", stores_site(a), "%s %s %s: raises %s%s, the other gives a result" % (
                    name, par, dt, x[1], " when " + " and ".join(str(q)[:150] for q in x[0][-2:]) if x[0] else ""))]
    return []


def relate(name, par, dt, rule, run_a, run_b, scale, tau_scale=ONE, extra=None, skip_err=False):
    """b's outputs against a's: dev and err scaled by `scale`, tau by tau_scale"""
    a = run_a()
    b = run_b()
    cov = coverage_of(a.case.I, b.case.I)
    if a.rows is None or b.rows is None:
        if a.rows is not None:
            f = only_raises(a, b, rule, extra, name, par, dt)
            if f:
                return f, cov
        return [finding(UNDECIDED, rule, site(name), "no result: %s %s" % ([x[1] for x in a.raises][:3], [x[1] for x in b.raises][:3]))], cov
    b.free = dict(a.free)
    if extra:
        b.free.update(extra)
    P = pts(b, 6)
    out = only_raises(a, b, rule, extra, name, par, dt)
    for k, lab, sc in ((0, "tau", tau_scale), (1, "dev", scale), (3, "n", ONE)):
        x, y = at(a, k), at(b, k)
        v, why = same(y, x * sc if x is not None else None, P, need=1)
        out.append(finding(v, "%s: %s" % (rule, lab), stores_site(a), "%s %s %s: %s" % (name, par, dt, why)))
    if not skip_err:
        for q, (x, y) in enumerate(zip(err_values(a), err_values(b))):
            v, why = same(y, x * scale if x is not None else None, P, need=1)
            out.append(finding(v, "%s: error bar" % rule, stores_site(a), "%s %s %s: %s" % (name, par, dt, why)))
    return out, cov


def devrun(name, par, dt, **kw):
    return run_dev(name, par, dt, **kw)
