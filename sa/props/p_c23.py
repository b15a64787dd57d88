"""C23: deviations of a pure frequency drift have the textbook value."""
from variants import *

EXPLANATION = ("each estimator is analysed on the symbolic record x[i] = D*(i/rate)^2/2 (x[i] = D2*(i/rate)^3/6 for the Hadamard "
               "family); the closed-form value number must be the textbook constant times tau, for every rate, factor and length.")


def ob(name, par):
    D = sym("D", pos=True, w=1)
    rate = sym("rate", pos=True, w=3)
    third = name in ("hdev", "ohdev")

    def x(nm, i):
        t = i / rate
        return D * t * t * t / 6 if third else D * t * t / 2
    r = run_dev(name, par, "phase", transform=x, rate=rate)
    if r.rows is None:
        return no_rows(r, "drift response", "%s %s" % (name, par)), coverage_of(r.case.I)
    r.free = dict(r.free)
    r.free[D] = [F(2), F(3, 7)]
    tau = r.ms[0] / rate
    N, m = r.N, r.ms[0]
    h = num(F(1, 2))
    if name in ("adev", "oadev", "mdev", "totdev", "gradev", "gcodev"):
        want = D * tau * alg.power(num(2), F(-1, 2))
    elif name == "pdev":
        # the discrete parabolic variance (72/(M m^4 tau^2)) of a drift
        want = D * tau * alg.power(num(2), F(-1, 2))
        if par != "one":
            want = want * (m * m - 1) / (m * m)
    elif name == "tdev":
        want = D * tau * tau * alg.power(num(6), F(-1, 2))
    elif third:
        want = D * tau * tau * alg.power(num(6), F(-1, 2))
    elif name == "mtie":
        # the last window has the largest excursion
        a = (N - 1) / rate
        b = (N - 1 - m) / rate
        want = h * D * (a * a - b * b)
    elif name == "tierms":
        s = alg.fresh("u", int=True, nonneg=True)
        inc = h * D * (((s + m) / rate) * ((s + m) / rate) - (s / rate) * (s / rate))
        want = alg.power(alg.summation(inc * inc, s, ZERO, N - m) / (N - m), F(1, 2))
    P = pts(r, 8)
    v, why = same(at(r, 1), want, P)
    return [finding(v, "response to constant drift", stores_site(r), "%s %s: %s" % (name, par, why))], coverage_of(r.case.I)


def obligations(tier):
    obs = []
    for n in ("adev", "oadev", "mdev", "pdev", "tdev", "hdev", "ohdev", "mtie", "tierms", "gradev"):
        for par in quick_pars(n, tier) + (("one", "two") if n != "pdev" else ("two",)):
            obs.append(Ob("%s/%s" % (n, par), ob, n, par))
    return obs
