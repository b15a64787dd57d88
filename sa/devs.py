"""Analysis contexts of the deviation estimators."""
from core import *
import core

AT = "allantools.allantools"

# minimal record length a*m+b for at least two terms, and the estimator's
# averaging-factor regimes
SPEC = {
    "adev": dict(ab=(3, 1), ref="adev"),
    "oadev": dict(ab=(2, 2), ref="oadev"),
    "hdev": dict(ab=(4, 1), ref="hdev"),
    "ohdev": dict(ab=(3, 2), ref="ohdev"),
    "mdev": dict(ab=(3, 1), ref="mdev"),
    "tdev": dict(ab=(3, 1), ref="tdev"),
    "pdev": dict(ab=(2, 2), ref="pdev", regimes=("one", "two+")),
    "gcodev": dict(ab=(2, 2), ref="gcodev", two=True),
    "totdev": dict(ab=(2, 2), ref="totdev"),
    "mtotdev": dict(ab=(3, 1), ref="mtotdev", regimes=("one", "even", "odd"), h=True, max3=True),
    "ttotdev": dict(ab=(3, 1), ref="ttotdev", regimes=("one", "even", "odd"), h=True, max3=True),
    "htotdev": dict(ab=(3, 2), ref="htotdev", regimes=("one", "even", "odd"), h=True, max3=True),
    "theo1": dict(ab=(1, 2), ref="theo1", regimes=("even",)),
    "mtie": dict(ab=(1, 2), ref="mtie"),
    "tierms": dict(ab=(1, 2), ref="tierms"),
    "gradev": dict(ab=(2, 2), ref="oadev"),
}
HEAVY = ("mtotdev", "ttotdev", "htotdev")


def regime(par):
    """averaging factor of a regime and its free symbols"""
    p = sym("p", int=True, pos=True, w=2)
    if par == "one":
        return ONE, {}
    if par == "two":
        return num(2), {}
    if par == "three":
        return num(3), {}
    if par == "even":
        return 2 * p, {p: [1, 2]}
    if par == "odd":
        return 2 * p + 1, {p: [1, 2]}
    if par == "two+":
        return p + 1, {p: [1, 2, 3]}
    if par == "gen":
        m = sym("m", int=True, pos=True, w=2)
        return m, {m: [1, 2, 3]}
    raise KeyError(par)


def light(name, par, dt, tier):
    """contexts of the quick tier: the heavy estimators with large factors are
    analysed on their native data type only"""
    if tier != "quick" or name not in HEAVY or par == "one":
        return True
    return dt == ("freq" if name == "htotdev" else "phase")


def halves(par, m):
    p = sym("p", int=True, pos=True, w=2)
    if par == "one":
        return ONE, num(2), num(2)
    if par == "two":
        return num(3), num(3), num(3)
    if par == "three":
        return num(4), num(5), num(5)
    if par == "even":
        return 3 * p, 3 * p, 3 * p
    return 3 * p + 1, 3 * p + 2, 3 * p + 2


class DevRun(object):
    pass


def tg_stub(rec, ms):
    def tg(I, env, st, node, fr):
        rec.append(dict(env=dict(env), node=node, st=st, func=I.curfunc[-1] if I.curfunc else None))
        a = I.arr(st, env["data"])
        if a is None:
            return None
        g = "f" if a.dtype not in ("i", "b") else a.dtype
        d = I.alloc(st, a.with_(kind="nd", view=None, dtype=a.dtype))
        rate = I.to_e(st, env["rate"])
        # grid values of several factors are kept as elements of a list
        return Tup([d, I.alloc(st, I.list_arr(list(ms), "nd", "f")),
                    I.alloc(st, I.list_arr([m / rate for m in ms], "nd", "f"))])
    return tg


def run_dev(name, par="gen", dt="phase", ms=None, ab=None, extra=None, kind="nd", dtype="f", xname="x",
            stubs=None, gaps=False, facts=(), rate=None, N=None, kw=None, transform=None, nslack=None):
    """analyse one estimator for one (or several) averaging factors"""
    r = DevRun()
    r.name, r.par, r.dt = name, par, dt
    sp = SPEC[name]
    Ns = sym("N", int=True, pos=True, w=1000)
    s = sym("s", int=True, nonneg=True, w=1)
    r.rate = rate if rate is not None else sym("rate", pos=True, w=3)
    m, free = regime(par)
    r.m = m
    r.ms = list(ms) if ms is not None else [m]
    a, b = ab or sp["ab"]
    slack = {}
    free = dict(free)
    if N is not None:
        r.N = lift(N)
    else:
        r.N = Ns
        slack[Ns] = nslack if nslack is not None else a * m + b + s
        free[s] = [0, 1, 2, 5]
    st_all = {}
    r.tg = []
    st_all[AT + ".tau_generator"] = tg_stub(r.tg, r.ms)
    if stubs:
        st_all.update(stubs)
    c = r.case = Case(slack, facts, st_all, gaps)
    r.free = free
    nx = r.N if dt == "phase" else r.N - 1
    f = (lambda nm: (lambda i: el(nm, i))) if transform is None else (lambda nm: (lambda i: transform(nm, i)))
    r.data = c.I.alloc(c.st, Arr(kind, nx, f(xname), dtype))
    args = [r.data]
    if sp.get("two"):
        r.data2 = c.I.alloc(c.st, Arr(kind, nx, f("z"), dtype))
        args.append(r.data2)
    r.tausarg = Const("all")
    k = {"rate": r.rate, "data_type": Const(dt), "taus": r.tausarg}
    if kw:
        k.update(kw)
    if extra:
        extra(r, args, k)
    o = c.call(AT, name, args, k)
    r.out = o
    r.raises = o.raises
    r.rows = None
    if o.value is not None:
        v = c.I.deref(o.st, o.value)
        if isinstance(v, Tup) and len(v.items) == 4:
            r.rows = [c.I.deref(o.st, x) for x in v.items]
    return r


def at(r, k, j=0):
    """value number of row j of output k (0 taus, 1 dev, 2 err, 3 n)"""
    a = r.rows[k]
    if not isinstance(a, Arr):
        return None
    v = a.at(num(j))
    v = r.case.I.deref(r.out.st, v)
    if isinstance(v, Cond):
        v = alg.ite(v, ONE, ZERO)
    return v if isinstance(v, E) else None


def reference(r, j=0, m=None):
    """value numbers of the defining formula: (dev, n)"""
    c = r.case
    sp = SPEC[r.name]
    m = m if m is not None else r.ms[j]
    nx = r.N if r.dt == "phase" else r.N - 1
    refname = sp["ref"]

    def phase(nm):
        d = c.refarray(nx, nm)
        if r.dt == "phase":
            return d
        return c.ref("integrate", [d, r.rate]).value
    if r.name == "htotdev":
        if r.par == "one":
            refname = "ohdev"
            args = [phase("x"), r.rate, m]
        else:
            if r.dt == "freq":
                y = c.refarray(nx, "x")
            else:
                y = c.R.alloc(c.rst, Arr("nd", r.N - 1, lambda i: r.rate * (el("x", i + 1) - el("x", i)), "f"))
            args = [y, r.rate, m] + list(halves(r.par, m))
    else:
        args = [phase("x")]
        if sp.get("two"):
            args.append(phase("z"))
        args += [r.rate, m]
        if sp.get("h"):
            args += list(halves(r.par, m))
    o = c.ref(refname, args)
    t = c.R.deref(o.st, o.value)
    return [c.R.to_e(o.st, x) for x in t.items]


RATES = [F(1), F(5, 2), F(1, 4), F(3)]


def pts(r, count=6):
    free = dict(r.free)
    if isinstance(r.rate, E) and r.rate == sym("rate", pos=True, w=3):
        free[r.rate] = RATES
    return r.case.points(free, count, wide=list(r.free))


def site(name):
    """definition site of the estimator and of what it calls"""
    return def_site(AT, name)


def stores_site(r):
    """lines that produced the rows"""
    ls = sorted({"%s:%s" % (e.func, getattr(e.node, "lineno", "?")) for e in r.case.I.events if e.kind == "array-store"})
    return site(r.name) + (" (row stores at %s)" % ", ".join(ls) if ls else "")


def events(r, *kinds):
    return [e for e in r.case.I.events if e.kind in kinds]


def admissible(r, tag):
    """a record that is long enough has a value: no exception is reached"""
    rule = "a value for every admissible record"
    for path, name, *rest in r.out.raises:
        if any(opaque_atoms(q) for q in path):
            continue
        for p in pts(r, 8):
            try:
                hit = all(p.cond(q) for q in path)
            except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, RecursionError):
                continue
            if hit:
                line = getattr(rest[1], "lineno", "?") if len(rest) > 1 else "?"
                return [finding(VIOLATED, rule, "%s (line %s)" % (site(r.name), line), "%s: %s when %s" % (tag, name, " and ".join(str(q)[:200] for q in path[-3:]) or "always"))]
    return [finding(PROVED if not r.out.raises else AGREED, rule, site(r.name), tag)] if r.rows is not None else []


def no_rows(r, rule, tag):
    """an analysis without rows: a violation if an admissible record raises"""
    f = admissible(r, tag)
    return f or [finding(UNDECIDED, rule, site(r.name), "%s: no result: %s" % (tag, [x[1] for x in r.raises][:3]))]


def definition_obligation(name, par, dt):
    r = run_dev(name, par, dt)
    out = []
    tag = "%s m=%s %s" % (name, {"gen": "m", "one": "1", "even": "2p", "two": "2", "three": "3", "odd": "2p+1", "two+": "p+1"}[par], dt)
    out += admissible(r, tag)
    if r.rows is None:
        if out and out[0]["verdict"] == VIOLATED:
            pass
        elif not r.out.raises or r.out.value is not None:
            out.append(finding(UNDECIDED, "definition", site(name), "%s: result shape not recognised" % tag))
        else:
            out.append(finding(UNDECIDED, "definition", site(name), "%s: analysis ends in %s" % (tag, [x[1] for x in r.raises][:3])))
        return out, coverage_of(r.case.I)
    dev, n = reference(r)
    P = pts(r, 8)
    v, why = same(at(r, 1), dev, P)
    out.append(finding(v, "deviation = defining formula", stores_site(r), tag + ": " + why))
    v, why = same(at(r, 3), n, P)
    out.append(finding(v, "n = number of averaged terms", stores_site(r), tag + ": " + why))
    v, why = same(at(r, 0), r.ms[0] / r.rate, P)
    out.append(finding(v, "reported tau = m/rate", stores_site(r), tag + ": " + why))
    if events(r, "out-of-bounds"):
        pass
    return out, coverage_of(r.case.I)


def definition_obligations(names, tier="quick"):
    obs = []
    for n in names:
        for par in SPEC[n].get("regimes", ("gen",)):
            for dt in ("phase", "freq"):
                if light(n, par, dt, tier):
                    obs.append(Ob("%s/%s/%s" % (n, par, dt), definition_obligation, n, par, dt))
    return obs
