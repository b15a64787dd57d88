"""The same relations for everything that is not one of the estimators of
devs.py: conversions, three-cornered hat, streaming objects, noise statistics,
noise formulas."""
from variants import *
from forms import *
import lib

RT, KD, NZ = "allantools.realtime", "allantools.noise_kasdin", "allantools.noise"
CS = sym("c", pos=True, w=1)
CVALS = [F(2), F(7, 2), F(1, 3)]
N = sym("N", int=True, pos=True, w=1000)
s = sym("s", int=True, nonneg=True)
i = sym("i", int=True, nonneg=True)
rate = sym("rate", pos=True, w=3)
tau0 = sym("tau0", pos=True, w=3)


def parts(c, o):
    """(label, value number) of everything a result consists of"""
    out = []

    def walk(lab, v, depth=0):
        v = c.I.deref(o.st, v)
        if isinstance(v, Tup):
            for k, x in enumerate(v.items):
                walk("%s[%d]" % (lab, k), x, depth + 1)
        elif isinstance(v, Arr):
            its = v.items()
            if its is not None and len(its) <= 16:
                out.append((lab + " length", num(len(its))))
                for k, x in enumerate(its):
                    walk("%s[%d]" % (lab, k), x, depth + 1)
            else:
                out.append((lab + " length", v.n))
                walk("%s[0]" % lab, v.at(ZERO), depth + 1)
                walk("%s[i]" % lab, v.at(i), depth + 1)
        else:
            try:
                e = c.I.to_e(o.st, v)
            except Exception:
                e = None
            out.append((lab, e if isinstance(e, E) else None))
    if o.value is not None:
        walk("result", o.value)
    return out


def compare(rule, where, tag, A, B, factor, points):
    """A, B: (case, outcome); factor(label) scales a's part to b's"""
    (ca, oa), (cb, ob_) = A, B
    cov = coverage_of(ca.I, cb.I)
    if oa.value is None or ob_.value is None:
        if oa.value is not None and ob_.raises:
            hit_ = raise_reached(ob_, points)
            if hit_ and not raise_reached(oa, points):
                return [finding(VIOLATED, rule, where, "%s: raises %s, the other gives a result" % (tag, hit_[0]))], cov
        return [finding(UNDECIDED, rule, where, "%s: no result: %s %s" % (tag, raises_names(oa), raises_names(ob_)))], cov
    pa, pb = parts(ca, oa), parts(cb, ob_)
    if [x for x, _ in pa] != [x for x, _ in pb]:
        return [finding(UNDECIDED, rule, where, "%s: results of different shape" % tag)], cov
    out = []
    for (lab, x), (_, y) in zip(pa, pb):
        if x is None or y is None:
            out.append(finding(UNDECIDED, rule, where, "%s: %s has no value number" % (tag, lab)))
            continue
        f = ONE if lab.endswith("length") else factor(lab) if callable(factor) else factor
        if f is None:
            continue
        v, why = same(y, x * f, points, need=1)
        out.append(finding(v, rule, where, "%s: %s: %s" % (tag, lab, why)))
    return out, cov


def data(c, n, name, f=None, kind="nd"):
    return c.I.alloc(c.st, Arr(kind, lift(n), (lambda k: (f or ONE) * el(name, k)), "f"))


def plain(rule, mod, fname, build, factor, tag="", slack=None, free=None, stubs=None, budget=400000):
    """fname on build(case, c=1) and on build(case, c)"""
    slack = {N: s + i + 6} if slack is None else slack
    free = {s: [0, 1, 2, 5], i: [0, 1, 3], CS: CVALS, rate: RATES} if free is None else free
    runs = []
    for f in (ONE, CS):
        c = Case(slack=slack, stubs=stubs, budget=budget)
        lib._rng[0] = 0
        args, kw = build(c, f)
        runs.append((c, c.call(mod, fname, args, kw)))
    return compare(rule, def_site(mod, fname), tag, runs[0], runs[1], factor, runs[1][0].points(free, 6))


# ---------------------------------------------------------------- amplitude


def conv(name):
    rule = "scaling the data by c"
    if name == "phase2frequency":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "x", f), rate], {}), CS)
    if name == "frequency2phase":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "y", f), rate], {}), CS)
    if name == "phase2radians":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "x", f), sym("v0", pos=True)], {}), CS)
    if name == "frequency2fractional":
        return plain(rule + " and its mean", AT, name, lambda c, f: ([data(c, N, "x", f), f * sym("mu", pos=True)], {}), ONE)
    if name == "frequency2fractional/mean":
        return plain(rule, AT, "frequency2fractional", lambda c, f: ([data(c, N, "x", f)], {}), ONE)
    if name == "input_to_phase/phase":
        return plain(rule, AT, "input_to_phase", lambda c, f: ([data(c, N, "x", f), rate, Const("phase")], {}), CS)
    if name == "input_to_phase/freq":
        return plain(rule, AT, "input_to_phase", lambda c, f: ([data(c, N, "x", f), rate, Const("freq")], {}), CS)


CONV = ("phase2frequency", "frequency2phase", "phase2radians", "frequency2fractional", "frequency2fractional/mean", "input_to_phase/phase", "input_to_phase/freq")


def hat(dev, unit):
    """three-cornered hat of a real estimator"""
    where = def_site(AT, "three_cornered_hat_phase")
    rule = "three-cornered hat: " + ("time unit scaled by c" if unit else "scaling the data by c")
    m, fr = regime("gen")
    runs = []
    for f in (ONE, CS):
        r = rate / f if unit else rate
        c = Case(slack={N: 3 * m + s + 3}, stubs={AT + ".tau_generator": tg_stub([], [m])})
        args = [data(c, N, q, f) for q in ("ab", "bc", "ca")]
        runs.append((c, c.call(AT, "three_cornered_hat_phase", args + [r, c.I.alloc(c.st, c.I.list_arr([m / r], "list")), c.I.function(AT, dev)])))
    free = dict(fr)
    free.update({s: [0, 1, 2, 5], CS: CVALS, rate: RATES})
    P = runs[1][0].points(free, 5)
    t = TIME_TYPE
    sc = (CS if dev in t else ONE) if unit else CS
    f = lambda lab: (CS if unit else ONE) if lab.startswith("result[0]") else sc if lab[:9] in ("result[1]", "result[2]") else ONE
    return compare(rule, where, dev, runs[0], runs[1], f, P)


def stream(cname, unit, feed, auto):
    """two objects fed with related samples"""
    where = def_site(RT, cname)
    rule = "streaming: " + ("time unit scaled by c" if unit else "scaling the data by c")
    time = cname == "tdev_realtime"
    L = {"oadev_realtime": 9, "ohdev_realtime": 11, "tdev_realtime": 13}[cname] if not auto else 17
    st_, ob_, cs, outs = [], [], [], []
    for f in (ONE, CS):
        c = Case(budget=3000000)
        afs = c.I.alloc(c.st, c.I.list_arr([num(1), num(2), num(3)] if not auto else [num(1)], "list"))
        o = construct(c, RT, cname, [], {"afs": afs, "tau0": tau0 * f if unit else tau0, "auto_afs": Const(bool(auto))})
        if o.value is None:
            return [finding(UNDECIDED, rule, where, "construction raises %s" % raises_names(o))], coverage_of(c.I)
        obj, st = o.value, o.st
        for k in range(L):
            fr = feed == "freq" or (feed == "mixed" and k % 3 == 2)
            w = el("y" if fr else "x", num(k)) * (ONE if unit and fr else f)
            o = method(c, obj, "add_frequency" if fr else "add_phase", [w], st=st)
            if o.value is None:
                return [finding(UNDECIDED, rule, where, "sample %d raises %s" % (k + 1, raises_names(o)))], coverage_of(c.I)
            st = o.st
        outs.append((c, st, obj))
    free = {CS: CVALS, tau0: RATES}
    P = outs[1][0].points(free, 4)
    res = []
    sc = (CS if time else ONE) if unit else CS
    for meth, f in (("devs", sc), ("taus", CS if unit else ONE)) + ((("mdev", ONE if unit else CS),) if time else ()):
        pr = [(c, method(c, obj, meth, st=st)) for c, st, obj in outs]
        r, _ = compare(rule, where, "%s %s: %s()" % (cname, feed, meth), pr[0], pr[1], f, P)
        res += r
    return res, coverage_of(outs[0][0].I, outs[1][0].I)


def ratio(name, unit, af):
    """observed noise-identification ratios"""
    rule = "%s does not depend on %s" % (name, "the time unit" if unit else "the amplitude")
    m = num(af)
    n = num(8 * af + 3)
    st = {}

    def build(c, f):
        return [data(c, n, "x", f), m, rate / f if unit else rate], {}
    return plain(rule, CI, name, build, ONE, "averaging factor %d, %d points" % (af, 8 * af + 3), slack={}, free={CS: CVALS, rate: RATES}, budget=3000000)


def ident(kind):
    """the series handed to the autocorrelation carries c; the rest follows from lag1_acf"""
    rule = "autocorr_noise_id does not depend on the amplitude"
    m, n = num(2), num(64)
    runs, ser = [], []
    for f in (ONE, CS):
        seen = []

        def lag(I, env, st, node, fr, seen=seen):
            a = I.arr(st, env["x"])
            seen.append(st and a)
            return sym("r%d" % len(seen))
        rs = [sym("r%d" % k) for k in (1, 2)]
        facts = [alg.c_not(alg.c_cmp("lt", rs[0] / (ONE + rs[0]) - F(1, 4))), alg.c_cmp("lt", rs[1] / (ONE + rs[1]) - F(1, 4))]
        c = Case(facts=facts, stubs={CI + ".lag1_acf": lag}, budget=3000000)
        runs.append((c, c.call(CI, "autocorr_noise_id", [data(c, n, "x", f), m], {"data_type": Const(kind)})))
        ser.append(seen)
    where = def_site(CI, "autocorr_noise_id")
    P = runs[1][0].points({CS: CVALS, sym("r1"): [F(2), F(3)], sym("r2"): [F(1, 10), F(-1, 5)]}, 4)
    out, cov = compare(rule, where, kind, runs[0], runs[1], ONE, P)
    if len(ser[0]) != len(ser[1]):
        out.append(finding(UNDECIDED, rule, where, "different numbers of differences"))
    for k, (a, b) in enumerate(zip(*ser)):
        if a is None or b is None:
            continue
        for j in (0, 5):
            x, y = a.at(num(j)), b.at(num(j))
            if isinstance(x, E) and isinstance(y, E):
                v, why = same(y, x * CS, P, need=1)
                out.append(finding(v, rule, where, "%s: sample %d of series %d: %s" % (kind, j, k, why)))
    return out, cov


def acf():
    return plain("lag1_acf does not depend on the amplitude", CI, "lag1_acf", lambda c, f: ([data(c, num(9), "x", f)], {}), ONE, slack={}, free={CS: CVALS})


def dtr(deg):
    return plain("detrend: scaling the data by c", CI, "detrend", lambda c, f: ([data(c, num(7), "x", f)], {"deg": num(deg)}), CS, "degree %d" % deg, slack={}, free={CS: CVALS})


def window():
    st = num(7)
    return plain("mtie_rolling_window: scaling the data by c", AT, "mtie_rolling_window", lambda c, f: ([data(c, st, "x", f), num(3)], {}), CS, slack={}, free={CS: CVALS})


def amplitude(tier):
    obs = [Ob("conversion/" + n, conv, n) for n in CONV]
    for d in ("oadev", "adev", "mdev", "tdev", "ohdev") if tier == "quick" else ("oadev", "adev", "mdev", "tdev", "ohdev", "hdev", "totdev"):
        obs.append(Ob("hat/" + d, hat, d, False))
    for cname in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
        for feed in ("phase", "freq", "mixed"):
            obs.append(Ob("%s/%s" % (cname, feed), stream, cname, False, feed, False))
        obs.append(Ob("%s/auto" % cname, stream, cname, False, "phase", True))
    for n in ("rn", "b1"):
        for af in (1, 2, 3):
            obs.append(Ob("%s/%d" % (n, af), ratio, n, False, af))
    for kind in ("phase", "freq"):
        obs.append(Ob("autocorr_noise_id/" + kind, ident, kind))
    obs += [Ob("lag1_acf", acf), Ob("mtie_rolling_window", window)]
    for d in (0, 1, 2):
        obs.append(Ob("detrend/%d" % d, dtr, d))
    return obs


# ---------------------------------------------------------------- time unit


def unit_conv(name):
    rule = "time unit scaled by c"
    if name == "phase2frequency":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "x", f), rate / f], {}), ONE)
    if name == "frequency2phase":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "y"), rate / f], {}), CS)
    if name == "phase2radians":
        return plain(rule, AT, name, lambda c, f: ([data(c, N, "x", f), sym("v0", pos=True) / f], {}), ONE)
    if name == "input_to_phase/phase":
        return plain(rule, AT, "input_to_phase", lambda c, f: ([data(c, N, "x", f), rate / f, Const("phase")], {}), CS)
    if name == "input_to_phase/freq":
        return plain(rule, AT, "input_to_phase", lambda c, f: ([data(c, N, "x"), rate / f, Const("freq")], {}), CS)


def grid(spec):
    """averaging times and factors of a record sampled in another unit"""
    rule = "averaging-time grid: time unit scaled by c"
    n = num(40)

    def build(c, f):
        r = rate / f
        if isinstance(spec, str):
            t = Const(spec)
        elif spec is None:
            t = NONE
        else:
            t = c.I.alloc(c.st, c.I.list_arr([num(q) / r for q in spec], "list"))
        return [data(c, n, "x"), r], {"taus": t}
    f = lambda lab: None if lab.startswith("result[0]") else CS if lab.startswith("result[2]") else ONE
    return plain(rule, AT, "tau_generator", build, f, "taus %s" % (spec,), slack={}, free={CS: CVALS, rate: RATES}, budget=3000000)


METHODS = (("phase_psd_from_qd", 1), ("frequency_psd_from_qd", 1), ("adev_from_qd", 2), ("mdev_from_qd", 2), ("pdev_from_qd", 2), ("adev", 2), ("mdev", 2))


def kasdin(meth, nargs, b):
    """predictions of the coloured-noise class; phase in seconds, so its
    variance qd carries c**2"""
    where = def_site(KD, "Noise." + meth)
    qd, tau = sym("qd", pos=True), sym("tau", pos=True)
    runs = []
    for f in (ONE, CS):
        c = Case()
        o = construct(c, KD, "Noise", [], {"nr": num(8), "qd": qd * f * f, "b": num(b)})
        if o.value is None:
            return [finding(UNDECIDED, "time unit", where, "construction raises %s" % raises_names(o))], coverage_of(c.I)
        runs.append((c, method(c, o.value, meth, [tau0 * f, tau * f][:nargs], st=o.st)))
    # the prefactors carry the unit of tau**(-c/2)
    h = F(1, 2)
    avar_c = {0: -2, -1: -2, -2: -1, -3: 0, -4: 1}[b]
    mvar_c = {0: -3, -1: -2, -2: -1, -3: 0, -4: 1}[b]
    f = {"phase_psd_from_qd": b + 3, "frequency_psd_from_qd": b + 3, "adev_from_qd": -avar_c * h, "mdev_from_qd": -mvar_c * h,
         "pdev_from_qd": -mvar_c * h, "adev": 0, "mdev": 0}[meth]
    P = runs[1][0].points({CS: [F(2), F(3), F(1, 3)], tau0: RATES, tau: [F(1), F(5), F(9)], qd: [F(1), F(1, 7)]}, 5)
    return compare("noise prediction: time unit scaled by c", where, "Noise.%s, b=%d" % (meth, b), runs[0], runs[1], alg.power(CS, F(f)), P)


def colour(fname):
    b, fs = sym("b", pos=True), sym("fs", pos=True)
    key = {"white": "b0", "brown": "b_minus2", "violet": "b2"}[fname]
    e = {"white": 1, "brown": -1, "violet": 3}[fname]   # S(f) f-density: S -> c S, f**a -> c**-a f**a
    return plain("noise generator: time unit scaled by c", NZ, fname, lambda c, f: ([], {"num_points": N, key: b * alg.power(f, F(e)), "fs": fs / f}),
                 ONE, fname, free={s: [0, 1, 5], i: [0, 1, 3], CS: CVALS, fs: RATES, b: [F(1), F(3, 7)]})


CONVU = ("phase2frequency", "frequency2phase", "phase2radians", "input_to_phase/phase", "input_to_phase/freq")


def timeunit(tier):
    obs = [Ob("conversion/" + n, unit_conv, n) for n in CONVU]
    for d in ("oadev", "adev", "mdev", "tdev", "ohdev") if tier == "quick" else ("oadev", "adev", "mdev", "tdev", "ohdev", "hdev", "totdev"):
        obs.append(Ob("hat/" + d, hat, d, True))
    for cname in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
        for feed in ("phase", "freq", "mixed"):
            obs.append(Ob("%s/%s" % (cname, feed), stream, cname, True, feed, False))
        obs.append(Ob("%s/auto" % cname, stream, cname, True, "phase", True))
    for n in ("rn", "b1"):
        for af in (1, 2, 3):
            obs.append(Ob("%s/%d" % (n, af), ratio, n, True, af))
    for spec in (None, "octave", "decade", "all", (1, 2, 4, 4, 7), (3,)):
        obs.append(Ob("grid/%s" % (spec,), grid, spec))
    for b in (0, -1, -2, -3, -4):
        for meth, k in METHODS:
            obs.append(Ob("Noise.%s/%d" % (meth, b), kasdin, meth, k, b))
    for f in ("white", "brown", "violet"):
        obs.append(Ob("noise/" + f, colour, f))
    return obs
