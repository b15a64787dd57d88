"""C32: PSD to deviation conversions integrate the textbook transfer function."""
from forms import *
from values import Ext

EXPLANATION = ("psd2allan is abstractly interpreted on a PSD of symbolic length with the interpolation of the PSD and the quadrature "
               "rule as uninterpreted operators: at every grid frequency and every reported averaging time the integrand must be "
               "the PSD at that frequency times sin^4/(.)^2 (ADEV) or sin^6/(.)^4 (MDEV), the grid must run from zero to the last "
               "PSD frequency, and the result must be the root of twice the integral.  psd_piecewise_to_adev is interpreted with "
               "up to five symbolic segments and with a symbolic number of segments; the integral of every segment is compared "
               "as an uninterpreted quadrature of its integrand between the two nodes of that segment.")


class Interpolated(object):
    """the PSD as a function of the (fractional) index of its own grid"""

    def __init__(self, x0, step, ok):
        self.x0, self.step, self.ok = x0, step, ok

    def pycall(self, I, st, args, kw, node, fr):
        f = lambda v: alg.fn("Sy", (I.to_e(st, v) - self.x0) / self.step)
        a = I.arr(st, args[0])
        if a is not None:
            return I.alloc(st, I.mapa(f, a, "f"))
        return f(args[0])


def psd_ob(kind, vec, base):
    where = def_site(AT, "psd2allan")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    q = sym("q", int=True, nonneg=True)
    df = sym("df", pos=True, w=2)
    rec = []
    problems = []

    def interp(I, args, kw, st, node, fr):
        xa, ya = I.arr(st, args[0]), I.arr(st, args[1])
        if xa is None or ya is None:
            return None
        j = alg.fresh("j", int=True)
        x0, step = xa.at(ZERO), xa.at(j + 1) - xa.at(j)
        if alg.depends(step, j) or ya.at(j) != el("S", j):
            problems.append("interpolated table not recognised")
            return None
        return Interpolated(x0, step, True)

    def quad_rule(I, args, kw, st, node, fr):
        rec.append((args, kw, st.fork(), node))
        return None

    stubs = {"ext:scipy.interpolate.interp1d": interp}
    for nm in ("scipy.integrate.simpson", "scipy.integrate.trapezoid", "numpy.trapz", "numpy.trapezoid", "scipy.integrate.simps"):
        stubs["ext:" + nm] = quad_rule
    c = Case(slack={n: s + 6}, stubs=stubs)
    S = c.array(n, "S")
    f = c.I.alloc(c.st, Arr("nd", n, (lambda k: k * df), "f")) if vec else df
    kw = {"kind": Const(kind)}
    if base is not None:
        kw["base"] = num(base)
    o = c.call(AT, "psd2allan", [S, f], kw)
    cov = coverage_of(c.I)
    tag = "kind=%s %s base=%s" % (kind, "frequency vector" if vec else "frequency step", base)
    out = []
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "integrand", where, "%s: raises %s" % (tag, raises_names(o)))], cov
    t = c.I.deref(o.st, o.value)
    if not isinstance(t, Tup) or len(t.items) != 2 or len(rec) != 1 or problems:
        return [finding(UNDECIDED, "integrand", where, "%s: %d quadratures, %s" % (tag, len(rec), problems))], cov
    taus, ad = [c.I.deref(o.st, x) for x in t.items]
    (args, kws, st, node) = rec[0]
    where = where + " (quadrature at line %s)" % getattr(node, "lineno", "?")
    y = c.I.arr(st, args[0])
    xx = kws.get("x", args[1] if len(args) > 1 else None)
    x = c.I.arr(st, xx) if xx is not None else None
    if y is None or x is None or not y.is2d or not isinstance(taus, Arr) or not isinstance(ad, Arr):
        return [finding(UNDECIDED, "integrand", where, "%s: quadrature operands not recognised" % tag)], cov
    row = c.I.deref(st, y.at(i))
    P = c.points({s: [0, 1, 4], i: [0, 1, 2], q: [0, 1, 2, 5], df: [F(1), F(1, 4), F(3)]}, 8)
    tau = taus.at(i)
    # the averaging time enters as an opaque positive number
    tv = alg.sym("tauval", pos=True)
    k = 1 if kind[0].lower() == "a" else 2

    def entry(a, idx):
        v = a.at(idx, decide=lambda cc: c.I.decide(cc))
        v = c.I.deref(st, v) if v is not None else None
        return v if isinstance(v, E) else None

    g, xf = entry(row, q + 1), entry(x, q + 1)
    if g is None or xf is None:
        out.append(finding(UNDECIDED, "integrand is the PSD times the transfer function", where, "%s: no value number" % tag))
    else:
        w = alg.fn("Sy", xf / df) * rvalue(c, c.ref("transfer", [xf, tau, num(k)]))
        for p in P:
            p.fixed = None
        v, why = same(g, w, [TauPoint(p, tau) for p in P])
        out.append(finding(v, "integrand is the PSD times the transfer function", where, "%s: %s" % (tag, why)))
    g0, x0 = entry(row, ZERO), entry(x, ZERO)
    v, why = same(x0, ZERO, P)
    out.append(finding(v, "integration starts at zero frequency", where, "%s: %s" % (tag, why)))
    if v == PROVED:
        v, why = same(g0, ZERO, P)
        out.append(finding(v, "integrand vanishes at zero frequency", where, "%s: %s" % (tag, why)))
    xl = entry(x, x.n - 1)
    v, why = same(xl, (n - 1) * df, P)
    out.append(finding(v, "integration ends at the last PSD frequency", where, "%s: %s" % (tag, why)))
    v, why = same(row.n, x.n, P)
    out.append(finding(v, "integrand and grid have the same length", where, "%s: %s" % (tag, why)))
    integral = alg.fn("simpson", c.I.arrkey(st, row), c.I.key(st, xx))
    got = ad.at(i)
    if isinstance(got, E) and "simpson" in str(got):
        v, why = same(got, root(2 * integral), [TauPoint(p, tau) for p in P])
        if v == VIOLATED and not (isinstance(got, E)):
            v = UNDECIDED
    else:
        v, why = UNDECIDED, "quadrature rule not modelled"
    out.append(finding(v, "deviation is the root of twice the integral", where, "%s: %s" % (tag, why)))
    v, why = same(ad.n, taus.n, P)
    out.append(finding(v if v != VIOLATED else UNDECIDED, "one deviation per averaging time", where, "%s: %s" % (tag, why)))
    return out, cov


class TauPoint(alg_eval.Point):
    """the averaging time of a row is an arbitrary positive number"""

    def __init__(self, p, tau):
        alg_eval.Point.__init__(self, seed=p.seed, syms=dict(p.syms))
        self.arrays = p.arrays
        self.tau = tau

    def fnv(self, a):
        if a.args[0] in ("uix", "len", "uniq"):
            raise alg_eval.NoValue("grid index")
        return alg_eval.Point.fnv(self, a)

    def atom(self, a):
        if a.kind in ("el", "ext", "MAX", "max", "extmx") or (a.kind == "fn" and a.args[0] in ("uix", "extmx")):
            # reported averaging-time factors: consistent arbitrary positive values
            if "uix" in repr(a.args) or a.kind != "el":
                return alg_eval.hrand(self.seed, "grid", a.id if hasattr(a, "id") else repr(a)) + 0.3
        return alg_eval.Point.atom(self, a)


class ExponentData(core.ArrayData):
    """spectral exponents are small numbers, not always integers"""

    def get(self, name):
        if name == "al":
            return lambda i: F(int(alg_eval.hrand(self.seed, name, i) * 24) - 14, 4)
        return core.ArrayData.get(self, name)


def piece_ob(nseg):
    where = def_site(AT, "psd_piecewise_to_adev")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    c = Case(slack={n: i + s + 1})
    h, al, fn_, taus = (c.array(num(nseg), "h"), c.array(num(nseg), "al"), c.array(num(nseg - 1), "fn"), c.array(n, "tau"))
    o = c.call(AT, "psd_piecewise_to_adev", [h, al, fn_, taus])
    cov = coverage_of(c.I)
    tag = "%d segments" % nseg
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "segment integrals", where, "%s: raises %s" % (tag, raises_names(o)))], cov
    v = c.I.deref(o.st, o.value)
    P = c.points({s: [0, 1, 3], i: [0, 1, 2]}, 8)
    for p in P[::2]:
        p.arrays = ExponentData(p.seed)
    if not isinstance(v, Arr):
        return [finding(UNDECIDED, "segment integrals", where, "%s: not an array" % tag)], cov
    lo = Tup([ZERO] + [el("fn", num(k)) for k in range(nseg - 1)])
    hi = Tup([el("fn", num(k)) for k in range(nseg - 1)] + [alg.INF])
    w = c.ref("piecewise_adev", [Tup([el("h", num(k)) for k in range(nseg)]), Tup([el("al", num(k)) for k in range(nseg)]), lo, hi, el("tau", i)])
    want = rvalue(c, w)
    out = []
    r, why = same(v.n, n, P)
    out.append(finding(r, "one deviation per averaging time", where, "%s: %s" % (tag, why)))
    got = v.at(i)
    r, why = same(got if isinstance(got, E) else None, want, P)
    out.append(finding(r, "sum over segments of level times transfer-function integral", where, "%s: %s" % (tag, why)))
    out += never_raises(o, P, "conversion defined", where, tag)
    return out, cov


alg.POS_ARRAYS |= {"tau", "fn", "h"}


def obligations(tier):
    obs = []
    for kind in ("adev", "mdev"):
        for vec in (True, False):
            for base in (None, 10, 1):
                obs.append(Ob("psd2allan/%s/%s/%s" % (kind, vec, base), psd_ob, kind, vec, base))
    for k in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        obs.append(Ob("piecewise/%d" % k, piece_ob, k))
    return obs
