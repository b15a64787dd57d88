"""C26: phase and frequency conversions are mutually inverse."""
from forms import *
from props.p_c17 import f2p_ob

EXPLANATION = ("the four conversions are abstractly interpreted on records of symbolic length and rate; the value numbers of every "
               "output element and of the output length are compared with the defining formulas, and the composition "
               "phase2frequency(frequency2phase(y)) is analysed as one expression.  frequency2phase is also analysed on every gap pattern of short records.")


def elems(c, o, want_n, want, rule, where, tag, P, first=None):
    """length and general element of a returned sequence"""
    out = []
    v = value(c, o)
    if not isinstance(v, Arr):
        return [finding(UNDECIDED, rule, where, "%s: result is not a sequence" % tag)]
    r, why = same(v.n, want_n, P)
    out.append(finding(r, rule + ": length", where, "%s: %s" % (tag, why)))
    j = sym("j", int=True, nonneg=True)
    c.I.ctx  # the index is any valid one
    spots = [("first", ZERO), ("general", j), ("last", want_n - 1)]
    for lab, i in spots:
        g = v.at(i)
        g = c.I.deref(o.st, g) if g is not None else None
        if not isinstance(g, E):
            out.append(finding(UNDECIDED, rule, where, "%s: element %s has no value number" % (tag, lab)))
            continue
        r, why = same(g, want(i), P)
        out.append(finding(r, "%s: %s element" % (rule, lab), where, "%s: %s" % (tag, why)))
    out += never_raises(o, P, rule + ": defined", where, tag)
    return out


def setup():
    N = sym("N", int=True, pos=True, w=1000)
    s = sym("s", int=True, nonneg=True)
    j = sym("j", int=True, nonneg=True)
    rate = sym("rate", pos=True, w=3)
    c = Case(slack={N: s + 4 + j})
    P = c.points({s: [0, 1, 5], j: [0, 1, 2, 5], rate: RATES}, 6)
    return c, N, rate, P


def psum(c, n, name, upto):
    j = alg.fresh("k", int=True)
    return alg.summation(el(name, j), j, ZERO, upto)


def freq_of_phase(kind, dt):
    c, N, rate, P = setup()
    o = c.call(AT, "phase2frequency", [c.array(N, "x", kind, dt), rate])
    return elems(c, o, N - 1, lambda i: rate * (el("x", i + 1) - el("x", i)), "phase2frequency is the first difference times rate",
                 def_site(AT, "phase2frequency"), "%s of %s" % (kind, dt), P), coverage_of(c.I)


def phase_of_freq(kind, dt):
    c, N, rate, P = setup()
    o = c.call(AT, "frequency2phase", [c.array(N, "y", kind, dt), rate])
    mean = psum(c, N, "y", N) / N
    return elems(c, o, N + 1, lambda i: (psum(c, N, "y", i) - i * mean) / rate, "frequency2phase is the mean-removed running integral",
                 def_site(AT, "frequency2phase"), "%s of %s" % (kind, dt), P), coverage_of(c.I)


def roundtrip():
    c, N, rate, P = setup()
    o = c.call(AT, "frequency2phase", [c.array(N, "y"), rate])
    if o.value is None:
        return [finding(UNDECIDED, "round trip", def_site(AT, "frequency2phase"), "no value")], coverage_of(c.I)
    c.st = o.st
    o = c.call(AT, "phase2frequency", [o.value, rate])
    mean = psum(c, N, "y", N) / N
    return elems(c, o, N, lambda i: el("y", i) - mean, "phase2frequency(frequency2phase(y)) = y - mean",
                 def_site(AT, "frequency2phase"), "", P), coverage_of(c.I)


def radians(kind):
    c, N, _, _ = setup()
    v0 = sym("v0", w=3)
    P = c.points({sym("s", int=True, nonneg=True): [0, 1, 5], sym("j", int=True, nonneg=True): [0, 1, 2], v0: [F(-3), F(0), F(5, 2), F(7)]}, 6)
    o = c.call(AT, "phase2radians", [c.array(N, "x", kind), v0])
    return elems(c, o, N, lambda i: 2 * alg.PI * v0 * el("x", i), "phase2radians is 2 pi v0 x",
                 def_site(AT, "phase2radians"), kind, P), coverage_of(c.I)


def fractional(kind, given):
    c, N, mu, P = setup()
    mu = -mu - 2 if given == "negative" else mu
    o = c.call(AT, "frequency2fractional", [c.array(N, "x", kind)] + ([mu] if given else []))
    m = mu if given else psum(c, N, "x", N) / N
    return elems(c, o, N, lambda i: (el("x", i) - m) / m, "frequency2fractional is (f - mean)/mean",
                 def_site(AT, "frequency2fractional"), {True: "given mean", False: "computed mean", "negative": "negative mean given"}[given], P), coverage_of(c.I)


def obligations(tier):
    obs = [Ob("roundtrip", roundtrip)]
    for kind in ("nd", "list"):
        for dt in ("f", "i"):
            obs.append(Ob("phase2frequency/%s/%s" % (kind, dt), freq_of_phase, kind, dt))
            obs.append(Ob("frequency2phase/%s/%s" % (kind, dt), phase_of_freq, kind, dt))
        obs.append(Ob("phase2radians/%s" % kind, radians, kind))
        for g in (True, False, "negative"):
            obs.append(Ob("frequency2fractional/%s/%s" % (kind, g), fractional, kind, g))
    for L in range(1, 5 if tier == "quick" else 7):
        obs.append(Ob("frequency2phase/gaps/%d" % L, f2p_ob, L, "nd"))
    return obs
