"""C37: a deviation curve is converted to the power laws of its segments."""
import math
from forms import *

EXPLANATION = ("adev2psd_piecewise_approx is abstractly interpreted on two to four symbolic nodes for both deviation types; the merging of "
               "equal slopes and the convergence tests stay conditions in the value numbers.  Levels and exponents of every segment are "
               "compared with the inverse of the power-law integral (as an uninterpreted quadrature of its integrand), the break "
               "frequencies with the point where the two neighbouring laws meet; admissible node sets must not raise, inadmissible ones must.")
FN = "adev2psd_piecewise_approx"
RULE = [((k + 0.5) / 40.0) for k in range(40)]


class Nodes(core.ArrayData):
    """nodes along given log-log slopes"""

    def __init__(self, seed, taus, mus, a0=F(3, 10 ** 2)):
        core.ArrayData.__init__(self, seed)
        self.taus = [float(t) for t in taus]
        a = [float(a0)]
        for k, mu in enumerate(mus):
            a.append(a[-1] * (self.taus[k + 1] / self.taus[k]) ** (mu / 2.0))
        self.ad = a

    def get(self, name):
        if name in ("tau", "taux"):
            return lambda i: self.taus[i]
        if name in ("ad", "adx"):
            return lambda i: self.ad[i]
        return core.ArrayData.get(self, name)


class QPoint(alg_eval.Point):
    """quadrature over the half line: a fixed positive functional, or the integral itself"""
    true = False

    def quad(self, cl, lo, hi):
        if float(self.real(lo)) != 0 or hi != alg.INF:
            return alg_eval.Point.quad(self, cl, lo, hi)
        g = lambda z: float(self.realv(self.bind(cl, z)))
        if not self.true:
            return sum(g(u / (1 - u)) / (1 - u) ** 2 for u in RULE) / len(RULE)
        h = math.pi / 4
        tot, part = 0.0, []
        n = 0
        for stop in (160, 320, 640):
            while n < stop:
                tot += h * sum(w * g(h * (n + u)) for u, w in GL8)
                n += 1
            part.append(tot)
        d1, d2 = part[1] - part[0], part[2] - part[1]
        return part[2] if d1 == 0 or d2 >= d1 else part[2] + d2 * d2 / (d1 - d2)


GL8 = alg_eval._gauss(8)


def points(cases, n, true=False):
    out = []
    for k, (taus, mus, a0) in enumerate(cases):
        p = QPoint(seed=SEED * 100 + k, syms={}, budget=10 ** 7)
        p.arrays = Nodes(p.seed, taus, mus, a0)
        p.true = true
        out.append(p)
    return out


def curves(n, hdev):
    """node sets: (taus, slopes, first value)"""
    T = [(1, 10, 100, 1000, 10000), (F(1, 2), 1, 2, 4, 8), (3, 7, 30, 31, 500), (2, F(5, 2), 40, 400, 4000)]
    M = [(-1, F(1, 2), -F(1, 2), F(1, 4)), (-F(3, 4), -F(3, 4), F(1, 3), F(1, 3)), (0, F(1, 2), F(1, 2), -1), (-1, -1, -1, -1), (F(1, 3), -F(1, 3), -F(1, 3), F(3, 4)),
         (F(1, 4), F(1, 4) + F(1, 25000), F(1, 4) + F(1, 25000), -F(1, 4)), (-F(1, 2), -F(1, 2) + F(1, 250000), F(1, 9), F(1, 9) - F(1, 20000))]
    if hdev:
        M += [(F(5, 2), 0, -1, F(1, 2)), (-1, F(9, 4), F(9, 4), F(1, 2))]
    out = []
    for a, t in enumerate(T):
        for b, m in enumerate(M):
            if (a + b) % 2 == 0 or n < 4:
                out.append((t[:n], [float(x) for x in m[:n - 1]], F(3, 100) if b % 2 else F(1, 10 ** 9)))
    return out


def groups(mus, tol):
    """kept slopes: index of the first interval of every segment"""
    keep = []
    for k, m in enumerate(mus):
        if not keep or abs(m - mus[keep[-1]]) > tol:
            keep.append(k)
    return keep


def conv_ob(n, vt, tol, kind):
    where = def_site(AT, FN)
    hdev = vt.lower() == "hdev"
    c = Case(budget=4000000)
    a, t = c.array(num(n), "ad", kind), c.array(num(n), "tau", kind)
    kw = {}
    if vt != "default":
        kw["vartype"] = Const(vt)
    if tol is not None:
        kw["mu_tol"] = num(tol)
    o = c.call(AT, FN, [a, t], kw)
    cov = coverage_of(c.I)
    tag = "%d nodes, vartype %s%s" % (n, vt, "" if tol is None else ", mu_tol=%s" % tol)
    cs = curves(n, hdev)
    P = points(cs, n)
    if o.value is None:
        return [ends(o, P, "conversion", where, tag)], cov
    v = c.I.deref(o.st, o.value)
    parts = [c.I.deref(o.st, x) for x in v.items] if isinstance(v, Tup) and len(v.items) == 4 else None
    if parts is None or not all(isinstance(x, Arr) for x in parts):
        return [finding(UNDECIDED, "conversion", where, "%s: result not recognised" % tag)], cov
    fno, sno, h, al = parts
    ra, rt = c.refarray(num(n), "ad"), c.refarray(num(n), "tau")
    mu = [rvalue(c, c.ref("local_slope", [ra, rt, num(i)])) for i in range(1, n)]
    lev = {(i, k): rvalue(c, c.ref("segment_level", [el("ad", num(i)), el("tau", num(i)), mu[k], Const(hdev)])) for i in range(n) for k in range(n - 1) if i in (k, k + 1)}
    out = never_raises(o, P, "admissible nodes are converted", where, tag)
    by = {}
    for q, p in zip(cs, P):
        by.setdefault(tuple(groups([float(m) for m in q[1]], float(tol if tol is not None else F(1, 10 ** 5)))), []).append((q, p))
    for keep in sorted(by):
        Q = [p for _, p in by[keep]]
        QT = points([q for q, _ in by[keep]], n, True)
        k = len(keep)
        lab = "%s, segments from node %s" % (tag, ", ".join(str(x + 1) for x in keep))

        def cmp_(rule, got, want):
            r, why = same(got if isinstance(got, E) else None, want, Q, need=1)
            if r == VIOLATED and ("quad" in str(got) or "quad" in str(want)):
                # the two may be different integrals of the same value
                r2, _ = near_points(got, want, QT)
                if r2:
                    r, why = AGREED, "agree under numerical quadrature"
            out.append(finding(r, rule, where, "%s: %s" % (lab, why)))
        cmp_("number of segments", al.n, num(k))
        cmp_("number of levels", h.n, num(k))
        for j in range(k):
            s = k - 1 - j                   # frequency order is reversed time order
            cmp_("exponent of a segment", al.at(num(j)), -mu[keep[s]] - 1)
            cmp_("level of a segment", h.at(num(j)), lev[(keep[s] + 1, keep[s])])
        if k > 1:
            cmp_("number of break frequencies", fno.n, num(k - 1))
            cmp_("number of spectrum values", sno.n, num(k - 1))
            for j in range(k - 1):
                s = k - 1 - j               # between time segments s-1 and s
                lo, hi = lev[(keep[s] + 1, keep[s])], lev[(keep[s - 1] + 1, keep[s - 1])]
                ml, mh = mu[keep[s]], mu[keep[s - 1]]
                want = alg.gpow_(lo / hi, 1 / (ml - mh)) if hasattr(alg, "gpow_") else None
                cmp_("neighbouring power laws meet at the break frequency", fno.at(num(j)), want)
                cmp_("spectrum value at the break frequency", sno.at(num(j)), lo * alg.gpow_(want, -ml - 1))
        elif n == 2:
            cmp_("number of break frequencies", fno.n, num(2))
            for j in range(2):
                f = 1 / el("tau", num(1 - j))
                cmp_("a single law is given at its two nodes", fno.at(num(j)), f)
                cmp_("spectrum value at a node", sno.at(num(j)), lev[(1, 0)] * alg.gpow_(f, -mu[0] - 1))
    return out, cov


def near_points(a, b, pts_):
    ok = 0
    for p in pts_:
        try:
            x, y = complex(p.ev(a)), complex(p.ev(b))
        except Exception:
            continue
        if abs(x - y) > 3e-3 * max(abs(x), abs(y)):
            return False, ok
        ok += 1
    return ok > 0, ok


BAD = (("equal averaging times", (1, 10, 10), None), ("decreasing averaging times", (1, 10, 5), None), ("a zero averaging time", (0, 1, 10), None),
       ("a negative averaging time", (-1, 1, 10), None), ("a zero deviation", None, (F(1), F(0), F(1))), ("a negative deviation", None, (F(1), F(1), F(-1))),
       ("slope too steep", (1, 10, 100), (F(1), F(1), F(11))), ("slope too falling", (1, 10, 100), (F(1), F(1), F(1, 11))),
       ("first slope too steep", (1, 10, 100), (F(1), F(11), F(11))), ("first slope too falling", (1, 10, 100), (F(1), F(1, 11), F(1, 11))))


def bad_ob(vt, lab, taus, ad):
    where = def_site(AT, FN)
    hdev = vt == "hdev"
    taus = taus or (1, 10, 100)
    ad = ad or (F(1), F(2), F(3))
    if hdev and "steep" in lab:
        ad = tuple(F(120) if x == 11 else x for x in ad)
    c = Case(budget=4000000)
    lst = lambda v: c.I.alloc(c.st, c.I.list_arr([num(x) for x in v], "nd", "f"))
    o = c.call(AT, FN, [lst(ad), lst(taus)], {"vartype": Const(vt)})
    cov = coverage_of(c.I)
    rule = "inadmissible nodes are refused"
    tag = "%s, vartype %s" % (lab, vt)
    if o.value is None:
        return [finding(PROVED, rule, where, tag)], cov
    p = QPoint(seed=SEED, syms={})
    for path, *_ in o.raises:
        try:
            if all(p.cond(q) for q in path):
                return [finding(AGREED, rule, where, tag)], cov
        except Exception:
            return [finding(UNDECIDED, rule, where, tag)], cov
    return [finding(VIOLATED, rule, where, "%s: no exception is reached" % tag)], cov


def size_ob(na, nt):
    where = def_site(AT, FN)
    c = Case(budget=4000000)
    o = c.call(AT, FN, [c.array(num(na), "ad"), c.array(num(nt), "tau")])
    rule = "inadmissible nodes are refused"
    ok = o.value is None
    return [finding(PROVED if ok else VIOLATED, rule, where, "%d deviations, %d averaging times" % (na, nt))], coverage_of(c.I)


alg.POS_ARRAYS |= {"ad", "tau"}


def obligations(tier):
    obs = []
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        for vt in ("default", "adev", "hdev", "ADEV", "HDEV"):
            if n == 2 or vt in ("adev", "hdev"):
                obs.append(Ob("segments/%d/%s" % (n, vt), conv_ob, n, vt, None, "nd"))
    obs.append(Ob("segments/3/list", conv_ob, 3, "adev", None, "list"))
    obs.append(Ob("segments/4/tol", conv_ob, 4, "adev", F(3, 10), "nd"))
    for vt in ("adev", "hdev"):
        for b in BAD:
            obs.append(Ob("refused/%s/%s" % (vt, b[0]), bad_ob, vt, *b))
    for na, nt in ((1, 1), (0, 0), (3, 2), (2, 3)):
        obs.append(Ob("refused/sizes/%d,%d" % (na, nt), size_ob, na, nt))
    return obs
