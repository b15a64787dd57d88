"""C12: reported error = reported deviation / sqrt(reported n); TDEV and TTOTDEV
are tau/sqrt(3) times MDEV and MTOTDEV."""
from devs import *

EXPLANATION = ("relations between the value numbers of the outputs of one abstract pass: err*sqrt(n) against dev for every "
               "estimator, and TDEV/TTOTDEV against MDEV/MTOTDEV analysed in the same context.")

NAMES = ["adev", "oadev", "mdev", "tdev", "pdev", "hdev", "ohdev", "totdev", "mtotdev", "ttotdev", "htotdev", "mtie",
         "gcodev", "theo1"]


def err_ob(name, par, dt):
    r = run_dev(name, par, dt)
    if r.rows is None:
        return no_rows(r, "error bar", "%s %s %s" % (name, par, dt)), coverage_of(r.case.I)
    dev, err, n = at(r, 1), at(r, 2), at(r, 3)
    if dev is None or err is None or n is None:
        return [finding(UNDECIDED, "error bar", site(name), "no value numbers")], coverage_of(r.case.I)
    cnt = (r.N - r.ms[0]) if name == "theo1" else n
    # the assumption n >= 2 makes the count positive
    want = dev * alg.power(cnt, F(-1, 2))
    v, why = same(err, want, pts(r, 6))
    return [finding(v, "err = dev/sqrt(%s)" % ("N-m" if name == "theo1" else "n"), stores_site(r),
                    "%s %s %s: %s" % (name, par, dt, why))], coverage_of(r.case.I)


def pair_ob(tname, mname, par, dt):
    a = run_dev(tname, par, dt)
    b = run_dev(mname, par, dt)
    out = []
    if a.rows is None or b.rows is None:
        return no_rows(a if a.rows is None else b, "time deviation", "%s %s %s" % (tname, par, dt))
    P = pts(a, 6)
    want = at(b, 1) * (a.ms[0] / a.rate) * alg.power(num(3), F(-1, 2))
    v, why = same(at(a, 1), want, P)
    out.append(finding(v, "%s = tau/sqrt(3) * %s" % (tname, mname), site(tname), "%s %s: %s" % (par, dt, why)))
    for k, lab in ((0, "tau"), (3, "n")):
        v, why = same(at(a, k), at(b, k), P)
        out.append(finding(v, "%s and %s report the same %s" % (tname, mname, lab), site(tname), "%s %s: %s" % (par, dt, why)))
    return out, coverage_of(a.case.I, b.case.I)


def obligations(tier):
    obs = []
    for n in NAMES:
        for par in SPEC[n].get("regimes", ("gen",)):
            for dt in ("phase", "freq"):
                if light(n, par, dt, tier):
                    obs.append(Ob("%s/%s/%s" % (n, par, dt), err_ob, n, par, dt))
    for dt in ("phase", "freq"):
        obs.append(Ob("tdev-mdev/gen/%s" % dt, pair_ob, "tdev", "mdev", "gen", dt))
        for par in ("one", "even", "odd"):
            if light("ttotdev", par, dt, tier):
                obs.append(Ob("ttotdev-mtotdev/%s/%s" % (par, dt), pair_ob, "ttotdev", "mtotdev", par, dt))
    return obs
