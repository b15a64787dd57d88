"""C22: offsets and drifts an estimator rejects have no effect."""
from variants import *

EXPLANATION = ("each estimator is analysed on x and on x plus a symbolic polynomial trend (constant, linear, quadratic as the "
               "estimator's difference order says); the value numbers of tau, deviation, error and count must be identical.")

LINEAR = ["adev", "oadev", "mdev", "tdev", "pdev", "totdev", "mtotdev", "ttotdev", "theo1", "gradev", "gcodev"]
QUAD = ["hdev", "ohdev", "htotdev"]
CONST = ["mtie", "tierms"]


def trend(order):
    a, b, q = sym("ta", w=1), sym("tb", w=1), sym("tq", w=1)

    def t(nm, i):
        e = el(nm, i) + a
        if order >= 1:
            e = e + b * i
        if order >= 2:
            e = e + q * i * i
        return e
    return t, {a: [F(3), F(-7, 2)], b: [F(2), F(-5, 3)], q: [F(1, 2), F(-3)]}


def ob(name, par, dt, order):
    t, fr = trend(order)
    rule = "adding a %s to the %s data has no effect" % (("constant", "linear trend", "quadratic trend")[order], dt)
    return relate(name, par, dt, rule, lambda: run_dev(name, par, dt),
                  lambda: run_dev(name, par, dt, transform=t), ONE, extra=fr)


def obligations(tier):
    obs = []
    for n in SPEC:
        order = 1 if n in LINEAR else 2 if n in QUAD else 0
        for par in quick_pars(n, tier):
            if light(n, par, "phase", tier) or par in ("one", "two", "three"):
                obs.append(Ob("%s/%s/phase/%d" % (n, par, order), ob, n, par, "phase", order))
            if light(n, par, "freq", tier) or par in ("one", "two", "three"):
                obs.append(Ob("%s/%s/freq/0" % (n, par), ob, n, par, "freq", 0))
    return obs
