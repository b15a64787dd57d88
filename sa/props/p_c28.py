"""C28: confidence bounds bracket the deviation with the stated coverage."""
from forms import *

EXPLANATION = ("confidence_interval is abstractly interpreted on symbolic deviation, edf and confidence (given and default); its two "
               "value numbers are compared with dev*sqrt(edf/q), q the chi-square quantiles that leave (1-ci)/2 in each tail. "
               "confidence_interval_noiseID is analysed for every deviation name and data type with the noise identification and "
               "the Greenhall EDF as uninterpreted functions of their bound arguments, and GRADEV for every noise type with the "
               "quantile function uninterpreted.")


def ci_ob(form):
    where = def_site(CI, "confidence_interval")
    dev = sym("dev", pos=True, w=2)
    edf = sym("edf", pos=True, w=5)
    cf = sym("cf", pos=True, w=1)
    out, covs = [], []
    c = Case()
    args, kw = [dev, edf], {}
    if form == "given":
        args.append(cf)
        conf = cf
    elif form == "keyword":
        kw["ci"] = cf
        conf = cf
    else:
        conf = alg.fn("scipy.special.erf", root(num(2)) * F(1, 2))
    o = c.call(CI, "confidence_interval", args, kw)
    P = c.points({dev: [F(1), F(3, 7)], edf: [F(1, 2), F(3), F(40)], cf: [F(1, 10), F(3, 10), F(1, 2), F(9, 10), F(2, 3), F(99, 100)]}, 12)
    if form == "default":
        # the default may be any spelling of 0.6826894921
        for p in P:
            p.chi2 = True
    w = c.ref("confidence", [dev, edf, conf])
    for k, lab in enumerate(("lower", "upper")):
        v, why = same(value(c, o, k), rvalue(c, w, k), P)
        out.append(finding(v, "%s confidence bound" % lab, where, "%s confidence: %s" % (form, why)))
    out += never_raises(o, P, "confidence bound defined", where, form)
    return out, coverage_of(c.I)


FLAGS = {  # dev type: (d, overlapping, modified, dmax)
    "adev": (2, False, False, 2), "oadev": (2, True, False, 2), "mdev": (2, True, True, 2), "tdev": (2, True, True, 2),
    "hdev": (3, False, False, 3), "ohdev": (3, True, False, 3),
}


def truth(v):
    if isinstance(v, Const):
        return bool(v.v)
    if isinstance(v, Cond):
        return True if v == alg.TRUE else (False if v == alg.FALSE else None)
    if isinstance(v, E):
        k = v.const()
        return None if k is None else bool(k)
    return None


def nid_ob(devtype, dt, conf):
    where = def_site(CI, "confidence_interval_noiseID")
    dev = sym("dev", pos=True, w=2)
    cf = sym("cf", pos=True, w=1)
    m = sym("m", int=True, pos=True, w=2)
    N = sym("N", int=True, pos=True, w=1000)
    ids, edfs = [], []

    def idstub(I, env, st, node, fr):
        ids.append((dict(env), node, st))
        return Tup([sym("alpha~id", int=True), sym("alphaf~id"), sym("d~id", int=True), sym("rho~id")])

    def edfstub(I, env, st, node, fr):
        edfs.append((dict(env), node, st))
        return sym("edf~", pos=True, w=5)

    c = Case(stubs={CI + ".autocorr_noise_id": idstub, CI + ".edf_greenhall": edfstub})
    x = c.array(N, "x")
    kw = {"dev_type": Const(devtype), "data_type": Const(dt)}
    if conf:
        kw["ci"] = cf
    o = c.call(CI, "confidence_interval_noiseID", [x, dev, m], kw)
    cov = coverage_of(c.I)
    P = c.points({m: [1, 2, 3], N: [30, 100, 31], cf: [F(1, 10), F(9, 10)], dev: [F(1), F(3)], sym("edf~", pos=True, w=5): [F(3), F(7)],
                  sym("alpha~id", int=True): [2, 1, 0, -1, -2]}, 6)
    out = []
    tag = "%s %s" % (devtype, dt)
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "bounds for the named deviation", where, "%s: raises %s" % (tag, raises_names(o)))], cov
    d, ov, mod, dmax = FLAGS[devtype]
    if len(ids) != 1 or len(edfs) != 1:
        return [finding(UNDECIDED, "bounds for the named deviation", where, "%s: %d noise identifications, %d EDF calls" % (tag, len(ids), len(edfs)))], cov
    env, node, st = ids[0]
    w1 = where + " (noise identification at line %s)" % getattr(node, "lineno", "?")

    def arg(env, st, name, want, where_, rule):
        g = env.get(name)
        if g is None:
            out.append(finding(UNDECIDED, rule, where_, "%s: no argument %s" % (tag, name)))
            return
        if isinstance(want, bool):
            t = truth(g)
            out.append(finding(UNDECIDED if t is None else (PROVED if t == want else VIOLATED), rule, where_, "%s: %s = %r, expected %s" % (tag, name, g, want)))
            return
        if isinstance(want, str):
            out.append(finding(PROVED if g == Const(want) else VIOLATED if isinstance(g, Const) else UNDECIDED, rule, where_, "%s: %s = %r" % (tag, name, g)))
            return
        v, why = same(c.I.to_e(st, g), lift(want), P)
        out.append(finding(v, rule, where_, "%s: %s: %s" % (tag, name, why)))

    arg(env, st, "af", m, w1, "noise identified at the averaging factor")
    arg(env, st, "data_type", dt, w1, "noise identified for the data type")
    arg(env, st, "dmax", dmax, w1, "difference orders of the named deviation")
    arg(env, st, "dmin", 0, w1, "difference orders of the named deviation")
    a = c.I.arr(st, env.get("x", NONE))
    if a is not None:
        j = sym("j", int=True, nonneg=True)
        v, why = same(a.at(j), el("x", j), c.points({j: [0, 1, 5]}, 3))
        out.append(finding(v, "noise identified from the data", w1, "%s: %s" % (tag, why)))
        v, why = same(a.n, N, P)
        out.append(finding(v, "noise identified from the data", w1, "%s: length %s" % (tag, why)))
    env, node, st = edfs[0]
    w2 = where + " (EDF at line %s)" % getattr(node, "lineno", "?")
    arg(env, st, "alpha", sym("alpha~id", int=True), w2, "EDF of the identified exponent")
    arg(env, st, "d", d, w2, "EDF of the named deviation: difference order")
    arg(env, st, "m", m, w2, "EDF at the averaging factor")
    arg(env, st, "N", N if dt == "phase" else N + 1, w2, "EDF of the number of phase points")
    arg(env, st, "overlapping", ov, w2, "EDF of the named deviation: overlapped")
    arg(env, st, "modified", mod, w2, "EDF of the named deviation: modified")
    conf_ = cf if conf else alg.fn("scipy.special.erf", root(num(2)) * F(1, 2))
    w = c.ref("confidence", [dev, sym("edf~", pos=True, w=5), conf_])
    for k, lab in enumerate(("lower", "upper")):
        v, why = same(value(c, o, k), rvalue(c, w, k), P)
        out.append(finding(v, "%s confidence bound" % lab, where, "%s: %s" % (tag, why)))
    return out, cov


def bad_dev_ob():
    """an unknown deviation name is refused"""
    where = def_site(CI, "confidence_interval_noiseID")
    out, covs = [], []
    for nm in ("totdev", "xdev", ""):
        c = Case(stubs={CI + ".autocorr_noise_id": lambda I, env, st, node, fr: Tup([sym("alpha~id", int=True), sym("alphaf~id"), sym("d~id", int=True), sym("rho~id")])})
        o = c.call(CI, "confidence_interval_noiseID", [c.array(sym("N", int=True, pos=True, w=1000), "x"), sym("dev", pos=True, w=2), num(1)], {"dev_type": Const(nm)})
        covs.append(c.I)
        out.append(finding(PROVED if o.value is None and o.raises else UNDECIDED if is_opaque(o.value) else VIOLATED, "an unknown deviation name is refused", where, repr(nm)))
    return out, coverage_of(*covs)


ALPHA = {"wp": 2, "fp": 1, "wf": 0, "ff": -1, "rf": -2}


def grad_ob(nt, par, dt):
    cf = sym("cf", pos=True, w=1)
    r = run_dev("gradev", par, dt, kw={"ci": cf, "noisetype": Const(nt)})
    c = r.case
    cov = coverage_of(c.I)
    where = def_site(AT, "calc_gradev_phase")
    tag = "noisetype=%s m=%s %s" % (nt, par, dt)
    if r.rows is None:
        return no_rows(r, "GRADEV bounds", tag), cov
    dev, n = reference(r)
    nx = r.N
    edf = rvalue(c, c.ref("edf_simple", [nx, r.ms[0], num(ALPHA.get(nt, 9))]))
    w = c.ref("confidence", [dev, edf, cf])
    e = r.rows[2]
    parts = [c.I.deref(r.out.st, x) for x in (e.items() if isinstance(e, Arr) else e.items)]
    out = []
    free = dict(r.free)
    P = pts(r, 6)
    for k, lab in enumerate(("lower", "upper")):
        a = parts[k] if k < len(parts) else None
        g = a.at(ZERO) if isinstance(a, Arr) else None
        v, why = same(g if isinstance(g, E) else None, rvalue(c, w, k), P)
        out.append(finding(v, "GRADEV %s bound" % lab, where, "%s: %s" % (tag, why)))
    return out, cov


def obligations(tier):
    obs = [Ob("interval/%s" % f, ci_ob, f) for f in ("given", "keyword", "default")]
    for d in FLAGS:
        for dt in ("phase", "freq"):
            for conf in (True, False):
                obs.append(Ob("noiseID/%s/%s/%s" % (d, dt, conf), nid_ob, d, dt, conf))
    obs.append(Ob("noiseID/unknown", bad_dev_ob))
    for nt in ALPHA:
        for par in (("gen",) if nt != "ff" else ("one", "two+")):
            for dt in ("phase", "freq"):
                obs.append(Ob("gradev/%s/%s/%s" % (nt, par, dt), grad_ob, nt, par, dt))
    return obs
