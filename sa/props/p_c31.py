"""C31: autocorr_noise_id follows its definition."""
from forms import *

EXPLANATION = ("autocorr_noise_id is abstractly interpreted with a symbolic record length and averaging factor for both data types and "
               "for every sequence of accepted / rejected orders: the lag-1 autocorrelation of every round is a free symbol constrained "
               "to lie on one side of rho = 1/4, so every path of the differencing loop is followed.  The series handed to the "
               "autocorrelation in every round is compared, sample by sample and in length, with the decimated (averaged), detrended, "
               "k times differenced record; the four returned values are compared with the published expressions in rho and d; "
               "lag1_acf and detrend are compared with their own definitions.")


def series_ob(kind, dmin, dmax, rounds, big):
    """rounds: number of differences after which rho < 1/4 first holds at an order >= dmin"""
    where = def_site(CI, "autocorr_noise_id")
    n = sym("n", int=True, pos=True, w=20)
    m = sym("m", int=True, pos=True, w=10)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    u = sym("u", int=True, nonneg=True)
    af = m if big else ONE
    slack = {n: 30 * af + s}
    if big:
        slack[m] = u + 2
    seen = []
    rs = []
    facts = []
    for k in range(rounds + 1):
        r = sym("r%d" % k)
        rs.append(r)
        low = alg.c_cmp("lt", r / (ONE + r) - F(1, 4))
        stop = k == rounds
        facts.append(low if stop or k < dmin and k % 2 else alg.c_not(low))
    if rounds == dmax and dmax >= dmin:
        facts[-1] = alg.c_not(alg.c_cmp("lt", rs[-1] / (ONE + rs[-1]) - F(1, 4)))

    def lag(I, env, st, node, fr):
        a = I.arr(st, env["x"])
        seen.append((a, st.fork(), node))
        return rs[len(seen) - 1] if len(seen) <= len(rs) else alg.sym("r_more")

    c = Case(slack=slack, stubs={CI + ".lag1_acf": lag}, facts=facts)
    x = c.array(n, "x")
    o = c.call(CI, "autocorr_noise_id", [x, af], {"data_type": Const(kind), "dmin": num(dmin), "dmax": num(dmax)})
    cov = coverage_of(c.I)
    tag = "data_type=%s dmin=%d dmax=%d order %d%s" % (kind, dmin, dmax, rounds, "" if big else " af=1")
    P = []
    base = c.points({s: [0, 1, 2, 5], u: [0, 1], i: [0, 1, 7, 20]}, 6)
    for p in base:
        for k, r in enumerate(rs):
            lowf = facts[k] == alg.c_cmp("lt", r / (ONE + r) - F(1, 4))
            p.syms[the_atom(r).id] = F(k + 1, 7) - F(1, 2) if lowf and F(k + 1, 7) - F(1, 2) < F(1, 3) else (F(-1, 5) if lowf else F(k + 2, 3))
        P.append(p)
    out = []
    if not seen:
        return [finding(UNDECIDED, "series", where, "%s: lag1_acf is not called" % tag)], cov
    if o.value is None:
        hit = raise_reached(o, P)
        return [finding(VIOLATED if hit else UNDECIDED, "a sufficiently long record is identified", where, "%s: raises %s" % (tag, raises_names(o)))], cov
    if len(seen) != rounds + 1:
        und = [q for q in c.I.undecided if not isinstance(q, bool)]
        v = VIOLATED if not und and not o.raises else UNDECIDED
        return [finding(v, "number of differences", where, "%s: %d autocorrelations are computed, %d are needed" % (tag, len(seen), rounds + 1))], cov
    # the values the lags produce are those of the stop rule: consistent points
    for k, (a, st, node) in enumerate(seen):
        w = rvalue(c, c.ref("noise_series", [c.refarray(n, "x"), af, Const(kind == "phase"), num(k)]))
        if a is None:
            out.append(finding(UNDECIDED, "series of round %d" % k, where, tag))
            continue
        v, why = same(a.n, w.n, P)
        out.append(finding(v, "length of the series of round %d" % k, where, "%s: %s" % (tag, why)))
        g = a.at(i)
        g = c.I.deref(st, g)
        v, why = same(g if isinstance(g, E) else None, w.at(i), P)
        out.append(finding(v, "series of round %d" % k, where, "%s: %s" % (tag, why)))
    t = c.I.deref(o.st, o.value)
    if not isinstance(t, Tup) or len(t.items) != 4:
        out.append(finding(UNDECIDED, "four results", where, tag))
        return out, cov
    rho = rs[-1] / (ONE + rs[-1])
    add = 2 if kind == "phase" else 0
    want = [-alg.round_(2 * rho) - 2 * rounds + add, -2 * (rho + rounds) + add, num(rounds), rho]
    for k, nm in enumerate(("rounded exponent", "exponent", "order", "rho")):
        v, why = same(value(c, o, k), want[k], P)
        out.append(finding(v, "returned " + nm, where, "%s: %s" % (tag, why)))
    return out, cov


def stop_ob(kind, dmin, dmax, rhos, d):
    """concrete autocorrelations around the stop rule: order and exponent reported"""
    where = def_site(CI, "autocorr_noise_id")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    cnt = []

    def lag(I, env, st, node, fr):
        cnt.append(1)
        q = rhos[min(len(cnt), len(rhos)) - 1]
        return num(q / (1 - q))
    c = Case(slack={n: s + 60}, stubs={CI + ".lag1_acf": lag})
    o = c.call(CI, "autocorr_noise_id", [c.array(n, "x"), ONE], {"data_type": Const(kind), "dmin": num(dmin), "dmax": num(dmax)})
    tag = "%s dmin=%d dmax=%d rho=%s" % (kind, dmin, dmax, ", ".join(map(str, rhos)))
    P = c.points({s: [0, 1, 2]}, 3)
    add = 2 if kind == "phase" else 0
    rho = rhos[d]
    want = [num(-int(round(2 * float(rho))) - 2 * d + add), num(-2 * (rho + d) + add), num(d), num(rho)]
    out = []
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "stop rule", where, "%s: raises %s" % (tag, raises_names(o)))], coverage_of(c.I)
    for k, nm in enumerate(("rounded exponent", "exponent", "order", "rho")):
        v, why = same(value(c, o, k), want[k], P)
        out.append(finding(v, "stop rule: " + nm, where, "%s: %s" % (tag, why)))
    return out, coverage_of(c.I)


def short_ob(kind):
    where = def_site(CI, "autocorr_noise_id")
    n = sym("n", int=True, pos=True, w=20)
    m = sym("m", int=True, pos=True, w=10)
    s = sym("s", int=True, nonneg=True)
    u = sym("u", int=True, nonneg=True)
    stub = {CI + ".lag1_acf": lambda I, env, st, node, fr: num(F(-1, 3))}
    c = Case(slack={n: m + s + 3, m: u + 1}, stubs=stub)
    o = c.call(CI, "autocorr_noise_id", [c.array(n, "x"), m], {"data_type": Const(kind)})
    cov = coverage_of(c.I)
    out = []
    ok = bad = 0
    for p in c.points({s: [10, 25, 26, 27, 28, 30, 50, 55, 56, 57, 58, 60, 80, 86, 87, 88, 90, 100], u: [0, 1, 2]}, 40):
        N, M = p.int_(n), p.int_(m)
        ln = -(-N // M) if kind == "phase" else N // M
        hit = False
        try:
            hit = any(all(p.cond(q) for q in r[0]) for r in o.raises)
        except Exception:
            continue
        if hit != (ln < 30):
            bad += 1
            out = [finding(VIOLATED, "series shorter than 30 points are refused", where,
                           "data_type=%s: %d points, averaging factor %d, %d averaged points: %s" % (kind, N, M, ln, "refused" if hit else "accepted"))]
            break
        ok += 1
    if not out:
        out = [finding(AGREED if ok > 5 else UNDECIDED, "series shorter than 30 points are refused", where, "data_type=%s: path condition checked at %d points" % (kind, ok))]
    return out, cov


def default_ob():
    """documented defaults: phase data, orders 0..2"""
    where = def_site(CI, "autocorr_noise_id")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    cnt = []

    def lag(I, env, st, node, fr):
        cnt.append(1)
        return num(F(9, 1))
    c = Case(slack={n: s + 60}, stubs={CI + ".lag1_acf": lag})
    o = c.call(CI, "autocorr_noise_id", [c.array(n, "x"), num(2)])
    v, why = same(value(c, o, 2), num(2), c.points({s: [0, 1, 2]}, 3))
    w, why2 = same(value(c, o, 1), num(2) - 2 * (F(9, 10) + 2), c.points({s: [0, 1, 2]}, 3))
    return [finding(v, "at most two differences by default", where, why), finding(w, "phase data by default", where, why2)], coverage_of(c.I)


def lag_ob():
    where = def_site(CI, "lag1_acf")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={n: s + 3})
    o = c.call(CI, "lag1_acf", [c.array(n, "x")])
    P = c.points({s: [0, 1, 2, 7, 30]}, 5)
    w = rvalue(c, c.ref("lag1", [c.refarray(n, "x")]))
    v, why = same(value(c, o), w, P)
    return [finding(v, "lag-1 autocorrelation", where, why)], coverage_of(c.I)


def detrend_ob(deg):
    where = def_site(CI, "detrend")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    c = Case(slack={n: s + i + 5})
    o = c.call(CI, "detrend", [c.array(n, "x")], {} if deg is None else {"deg": num(deg)})
    P = c.points({s: [0, 1, 2, 7, 30], i: [0, 1, 4]}, 6)
    w = rvalue(c, c.ref("detrended", [c.refarray(n, "x"), num(deg if deg is not None else 1)]))
    g = value(c, o)
    out = []
    if not isinstance(g, Arr):
        return [finding(UNDECIDED, "residual of the polynomial fit", where, "no array")], coverage_of(c.I)
    v, why = same(g.n, w.n, P)
    out.append(finding(v, "residual length", where, why))
    v, why = same(g.at(i), w.at(i), P)
    out.append(finding(v, "residual of the polynomial fit", where, why))
    return out, coverage_of(c.I)


def obligations(tier):
    obs = [Ob("lag1", lag_ob), Ob("defaults", default_ob)]
    for d in (None, 1, 2, 3):
        obs.append(Ob("detrend/%s" % d, detrend_ob, d))
    lo, hi = F(1, 4) - F(1, 1000), F(1, 4) + F(1, 1000)
    for kind in ("phase", "freq"):
        for a, b, rh, d in ((0, 2, [lo], 0), (0, 2, [hi, lo], 1), (0, 2, [hi, F(-3, 10)], 1), (0, 2, [hi, hi, lo], 2), (0, 2, [hi, hi, hi], 2),
                            (1, 2, [lo, lo], 1), (0, 3, [hi, hi, hi, F(2, 5)], 3), (0, 2, [F(-49, 100)], 0), (0, 2, [F(49, 100), F(24, 100)], 1),
                            (2, 3, [lo, lo, hi, lo], 3), (0, 0, [hi], 0), (0, 2, [F(1, 5)], 0), (0, 2, [F(-1, 5)], 0)):
            obs.append(Ob("stop/%s/%d-%d/%s" % (kind, a, b, "_".join(map(str, rh))), stop_ob, kind, a, b, rh, d))
    dm = ((0, 2), (0, 3), (1, 2), (2, 3)) if tier == "quick" else ((0, 0), (0, 1), (0, 2), (0, 3), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3), (0, 4))
    for kind in ("phase", "freq"):
        obs.append(Ob("short/" + kind, short_ob, kind))
        for a, b in dm:
            for k in range(a, b + 1):
                for big in (True, False):
                    obs.append(Ob("series/%s/%d-%d/%d/%s" % (kind, a, b, k, big), series_ob, kind, a, b, k, big))
    return obs
