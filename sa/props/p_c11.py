"""C11: the row of an averaging time does not depend on the other averaging
times of the request."""
from variants import *

EXPLANATION = ("each estimator is analysed once with three averaging factors and once with each of them alone, in the same "
               "context; row k of the first must have the value numbers of the k-th single analysis (so nothing is carried "
               "from one averaging time to the next and no row depends on the number or order of the others).")


def triples(name):
    m0 = sym("m0", int=True, pos=True, w=2)
    p0 = sym("p0", int=True, pos=True, w=2)
    if name in HEAVY:
        return [([ONE, num(2), num(3)], {}), ([num(3), ONE, num(2)], {})]
    if name == "theo1":
        return [([num(2), 2 * p0 + 2, 2 * p0 + 6], {p0: [1, 2]}), ([2 * p0 + 6, num(2), 2 * p0 + 2], {p0: [1, 2]})]
    return [([ONE, m0 + 1, m0 + 3], {m0: [1, 2, 3]}), ([m0 + 3, ONE, m0 + 1], {m0: [1, 2, 3]})]


def indep_ob(name, which, dt):
    ms, free = triples(name)[which]
    s = sym("s", int=True, nonneg=True, w=1)
    a = SPEC[name]["ab"][0]
    big = [m for m in ms][which % 1] if False else None
    nsl = a * (ms[2] if which == 0 else ms[0]) + 6 + s
    full = run_dev(name, "gen", dt, ms=ms, nslack=nsl)
    full.free = dict(free)
    full.free[s] = [0, 1, 3, 4]
    out = []
    if full.rows is None:
        one = [run_dev(name, "gen", dt, ms=[q], nslack=nsl) for q in ms]
        for x in one:
            x.free = dict(full.free)
        if all(x.rows is not None for x in one):
            f = [only_raises(x, full, "independence", None, name, "gen", dt) for x in one]
            if all(f):
                return f[0]
        return [finding(UNDECIDED, "independence", site(name), "no result: %s" % [x[1] for x in full.raises][:3])]
    P = pts(full, 5)
    cov = [full.case.I]
    for k in range(len(ms)):
        one = run_dev(name, "gen", dt, ms=[ms[k]], nslack=nsl)
        cov.append(one.case.I)
        if one.rows is None:
            out.append(finding(UNDECIDED, "independence", site(name), "no result for a single averaging time"))
            continue
        for c, lab in ((0, "tau"), (1, "dev"), (2, "err"), (3, "n")):
            if c == 2 and name == "gradev":
                continue
            x, y = at(full, c, k), at(one, c, 0)
            v, why = same(x, y, P, need=1)
            out.append(finding(v, "row %s depends on its own averaging time only" % lab, stores_site(full),
                               "%s %s row %d of request %s: %s" % (name, dt, k, ms, why)))
    return out, coverage_of(*cov)


def obligations(tier):
    obs = []
    for n in SPEC:
        for which in (0, 1):
            for dt in ("phase",) if tier == "quick" and n in HEAVY else ("phase", "freq"):
                obs.append(Ob("%s/%d/%s" % (n, which, dt), indep_ob, n, which, dt))
    return obs
