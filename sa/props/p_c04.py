"""C04: deviations are homogeneous of degree one in the data."""
from variants import *
import props.homog as hg

EXPLANATION = ("each estimator is analysed on x and on c*x (c>0 symbolic, record, length, factor and rate symbolic); the value "
               "numbers of deviations and errors must carry exactly one factor c, taus and counts none.  The same for the "
               "three-cornered hat, conversions, streaming objects and (degree zero) for the noise-identification ratios.")


def ob(name, par, dt):
    c = sym("c", pos=True, w=1)
    return relate(name, par, dt, "scaling the data by c scales the result by c",
                  lambda: run_dev(name, par, dt),
                  lambda: run_dev(name, par, dt, transform=lambda nm, i: c * el(nm, i)),
                  c, extra={c: [F(2), F(7, 2), F(1, 3)]})


def obligations(tier):
    obs = []
    for n in SPEC:
        for par in quick_pars(n, tier):
            for dt in ("phase", "freq"):
                if light(n, par, dt, tier) or par in ("one", "two"):
                    obs.append(Ob("%s/%s/%s" % (n, par, dt), ob, n, par, dt))
    return obs + hg.amplitude(tier)
