"""C05: results are covariant under a change of the time unit."""
from variants import *
import props.homog as hg

EXPLANATION = ("each estimator is analysed on (x, rate) and on (c*x, rate/c) with the same averaging factors, or (y, rate/c) for "
               "frequency data: frequency-type deviations must be unchanged, time-type ones and averaging times carry one factor c.")


def ob(name, par, dt):
    c = sym("c", pos=True, w=1)
    rate = sym("rate", pos=True, w=3)
    tr = (lambda nm, i: c * el(nm, i)) if dt == "phase" else None
    return relate(name, par, dt, "time unit scaled by c",
                  lambda: run_dev(name, par, dt),
                  lambda: run_dev(name, par, dt, transform=tr, rate=rate / c),
                  c if name in TIME_TYPE else ONE, tau_scale=c, extra={c: [F(2), F(7, 2), F(1, 3)], rate: RATES})


def obligations(tier):
    obs = []
    for n in SPEC:
        for par in quick_pars(n, tier):
            for dt in ("phase", "freq"):
                if light(n, par, dt, tier) or par in ("one", "two"):
                    obs.append(Ob("%s/%s/%s" % (n, par, dt), ob, n, par, dt))
    return obs + hg.timeunit(tier)
