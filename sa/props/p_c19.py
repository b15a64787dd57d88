"""C19: noise generators return exactly the requested number of points."""
from forms import *

NZ = "allantools.noise"
KD = "allantools.noise_kasdin"
EXPLANATION = ("every noise generator is abstractly interpreted with a symbolic number of points (every way of passing it); the length of "
               "the returned array, as a value number, must equal the requested number for every value.  timmer_koenig_from_psd is "
               "followed with symbolic duration and time step and with a concrete number of points of either parity, where every slice "
               "assignment of the spectrum has to have matching lengths.")


def shape_errors(I):
    return [e for e in I.events if e.kind in ("shape-mismatch", "index-error", "out-of-bounds")]


def length_ob(fname, mode):
    where = def_site(NZ, fname)
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={n: s + 1})
    want = n
    if mode == "positional":
        o = c.call(NZ, fname, [n])
    elif mode == "keyword":
        o = c.call(NZ, fname, [], {"num_points": n})
    elif mode == "all":
        if fname == "pink":
            o = c.call(NZ, fname, [n, sym("depth", int=True, pos=True)])
        else:
            o = c.call(NZ, fname, [n, sym("b", pos=True), sym("fs", pos=True)])
    else:
        o = c.call(NZ, fname)
        want = num(1024)
    P = c.points({s: [0, 1, 2, 3, 6, 15, 16]}, 7)
    g = value(c, o)
    cov = coverage_of(c.I)
    tag = "%s called with %s" % (fname, mode)
    if not isinstance(g, Arr):
        return [finding(UNDECIDED, "number of points", where, "%s: no array" % tag)], cov
    v, why = same(g.n, want, P)
    return [finding(v, "number of points", where, "%s: %s" % (tag, why))], cov


def kasdin_ob(via):
    where = def_site(KD, "Noise.generateNoise")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={n: s + 2})
    I = c.I
    b = sym("b")
    kw = {"nr": n, "qd": sym("qd", pos=True), "b": b}
    o = construct(c, KD, "Noise", [], kw if via == "constructor" else {})
    obj, st = o.value, o.st
    if via != "constructor":
        st = method(c, obj, "set_input", [], kw, st).st
    o = method(c, obj, "generateNoise", [], {}, st)
    cov = coverage_of(I)
    ts = attr(c, obj, "time_series", o.st)
    P = c.points({s: [0, 2, 6, 14]}, 4)
    if not isinstance(ts, Arr):
        return [ends(o, P, "number of points", where, "time_series is no array")], cov
    v, why = same(ts.n, n, P)
    return [finding(v, "number of points", where, "nr set by the %s: %s" % (via, why))], cov


def timmer_sym_ob(output):
    where = def_site(NZ, "timmer_koenig_from_psd")
    s = sym("s", nonneg=True)
    dur, dt = sym("dur", pos=True, w=4), sym("dt", pos=True)
    c = Case(slack={dur: 4 * dt + s})
    f, h, a = c.array(num(1), "fn"), c.array(num(2), "h"), c.array(num(2), "al")
    o = c.call(NZ, "timmer_koenig_from_psd", [f, h, a, dur, dt], {"output": Const(output)} if output else {})
    cov = coverage_of(c.I)
    g = value(c, o)
    if not isinstance(g, Arr):
        return [finding(UNDECIDED, "number of points", where, "no array")], cov
    P = c.points({s: [F(1, 8), F(3, 2), F(9, 4), F(21, 2), F(33, 4)], dt: [F(1), F(1, 4), F(5, 2)]}, 8)
    v, why = same(g.n, alg.floor_(dur / dt), P)
    return [finding(v, "number of points", where, "output=%s: %s" % (output, why))], cov


def timmer_n_ob(k, output):
    where = def_site(NZ, "timmer_koenig_from_psd")
    dt = sym("dt", pos=True)
    c = Case()
    f, h, a = c.array(num(0), "fn"), c.array(num(1), "h"), c.array(num(1), "al")
    o = c.call(NZ, "timmer_koenig_from_psd", [f, h, a, k * dt, dt], {"output": Const(output)})
    cov = coverage_of(c.I)
    tag = "%d points, output=%s" % (k, output)
    P = c.points({dt: [F(1), F(1, 4), F(5, 2)]}, 3)
    bad = shape_errors(c.I)
    if o.value is None or bad:
        site = event_site(c.I, bad[0]) if bad else where
        return [finding(VIOLATED if bad or o.raises else UNDECIDED, "spectrum assembled consistently", site, "%s: %s %s" % (
            tag, raises_names(o), [(e.kind, str(e.data)) for e in bad]))], cov
    g = value(c, o)
    if not isinstance(g, Arr):
        return [finding(UNDECIDED, "number of points", where, "no array")], cov
    v, why = same(g.n, num(k), P)
    return [finding(v, "number of points", where, "%s: %s" % (tag, why))], cov


def obligations(tier):
    obs = []
    for fname in ("white", "brown", "violet", "pink"):
        for mode in ("positional", "keyword", "all", "default"):
            obs.append(Ob("%s/%s" % (fname, mode), length_ob, fname, mode))
    for via in ("constructor", "set_input"):
        obs.append(Ob("kasdin/" + via, kasdin_ob, via))
    for output in (None, "phase", "freq"):
        obs.append(Ob("timmer/%s" % output, timmer_sym_ob, output))
    for output in ("phase", "freq"):
        for k in range(4, 12 if tier == "quick" else 40):
            obs.append(Ob("timmer/%d/%s" % (k, output), timmer_n_ob, k, output))
    return obs
