"""C30: simple EDF formulas and noise tables equal the published ones."""
from forms import *

EXPLANATION = ("each closed form is abstractly interpreted on symbolic N and m for every tabulated exponent (and for untabulated "
               "ones) and its value number is compared with the published formula; constants published to four digits are "
               "compared to a relative 1e-3.  The decision boundaries are compared with the geometric mean of the two "
               "neighbouring theoretical ratios (for the two slopes with divergent B1 either mean is admissible).")


def contexts(fname):
    m = sym("m", int=True, pos=True, w=2)
    p = sym("p", int=True, pos=True, w=2)
    if fname == "edf_simple":
        return [("m", m, {m: [2, 3, 5]}), ("1", ONE, {}), ("p+1", p + 1, {p: [1, 2, 7]})]
    return [("m", m, {m: [1, 2, 3, 7]})]


def edf_ob(fname, alpha):
    out, covs = [], []
    where = def_site(CI, fname)
    for lab, m, free in contexts(fname):
        if fname == "edf_simple" and alpha == -1 and lab == "m":
            continue
        N = sym("N", int=True, pos=True, w=1000)
        s = sym("s", int=True, nonneg=True)
        c = Case(slack={N: 3 * m + 4 + s})
        o = c.call(CI, fname, [N, m, num(alpha)])
        covs.append(c.I)
        want = rvalue(c, c.ref(fname, [N, m, num(alpha)]))
        g = value(c, o)
        fr = dict(free)
        fr[s] = [0, 1, 5, 20]
        tag = "%s alpha=%s m=%s" % (fname, alpha, lab)
        if g is None:
            out.append(finding(VIOLATED if o.raises else UNDECIDED, "published EDF formula", where,
                               "%s: raises %s" % (tag, raises_names(o))))
            continue
        v, why = near(g, want, c.points(fr, 6))
        out.append(finding(v, "published EDF formula", where, "%s: %s" % (tag, why)))
        out += never_raises(o, c.points(fr, 6), "formula defined for every N and m", where, tag)
    return out, coverage_of(*covs)


MU = {2: -2, 1: -2, 0: -1, -1: 0, -2: 1, -3: 2, -4: 3}


def mu_ob():
    out, covs = [], []
    where = def_site(CI, "b_to_mu")
    for a, mu in MU.items():
        c = Case()
        o = c.call(CI, "b_to_mu", [num(a - 2)])
        covs.append(c.I)
        v, why = same(value(c, o), num(mu), c.points({}, 2))
        if o.value is None and o.raises:
            v, why = VIOLATED, "raises %s" % raises_names(o)
        out.append(finding(v, "exponent map b -> mu", where, "b=%d: %s" % (a - 2, why)))
    return out, coverage_of(*covs)


def b1_ob(mu):
    where = def_site(CI, "b1_theory")
    N = sym("N", int=True, pos=True, w=1000)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={N: s + 30})
    o = c.call(CI, "b1_theory", [N, num(mu)])
    want = rvalue(c, c.ref("b1_theory", [N, num(mu)]))
    v, why = near(value(c, o), want, c.points({s: [0, 1, 5, 100]}, 5))
    return [finding(v, "theoretical B1", where, "mu=%s: %s" % (mu, why))], coverage_of(c.I)


def rn_ob(b):
    m = sym("m", int=True, pos=True, w=2)
    out = []
    c = Case()
    P = c.points({m: [1, 2, 5, 40, 1000]}, 5)
    o = c.call(CI, "rn_theory", [m, num(b)])
    want = rvalue(c, c.ref("rn_theory", [m, num(b)]))
    v, why = near(value(c, o), want, P, 1e-3)
    out.append(finding(v, "theoretical R(n)", def_site(CI, "rn_theory"), "b=%s: %s" % (b, why)))
    if b > -4:
        o = c.call(CI, "rn_boundary", [m, num(b)])
        lo = rvalue(c, c.ref("rn_theory", [m, num(b - 1)]))
        v, why = near(value(c, o), root(want * lo), P, 1e-3)
        out.append(finding(v, "R(n) boundary is the geometric mean", def_site(CI, "rn_boundary"), "b_hi=%s: %s" % (b, why)))
    return out, coverage_of(c.I)


def bound_ob(b):
    N = sym("N", int=True, pos=True, w=1000)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={N: s + 30})
    P = c.points({s: [0, 1, 5, 100]}, 5)
    o = c.call(CI, "b1_boundary", [num(b), N])
    hi = rvalue(c, c.ref("b1_theory", [N, num(MU[b + 2])]))
    lo = rvalue(c, c.ref("b1_theory", [N, num(MU[b + 1])]))
    geo, ari = root(hi * lo), (hi + lo) * F(1, 2)
    # the published rule takes the arithmetic mean below b = -4
    v, why = near(value(c, o), geo, P, alts=(ari,) if b - 1 < -3 else ())
    return [finding(v, "B1 boundary is the mean of the neighbouring ratios", def_site(CI, "b1_boundary"), "b_hi=%s: %s" % (b, why))], coverage_of(c.I)


def obligations(tier):
    obs = []
    for a in (2, 1, 0, -1, -2, 3, -3):
        obs.append(Ob("edf_simple/%d" % a, edf_ob, "edf_simple", a))
        obs.append(Ob("edf_totdev/%d" % a, edf_ob, "edf_totdev", a))
        if -2 <= a <= 2:
            obs.append(Ob("edf_mtotdev/%d" % a, edf_ob, "edf_mtotdev", a))
    obs.append(Ob("mu", mu_ob))
    for mu in (3, 2, 1, 0, -1, -2, -3, 4):
        obs.append(Ob("b1/%d" % mu, b1_ob, mu))
    for b in (0, -1, -2, -3, -4):
        obs.append(Ob("rn/%d" % b, rn_ob, b))
    for b in (0, -1, -2, -3, -4, -5):
        obs.append(Ob("b1_boundary/%d" % b, bound_ob, b))
    return obs
