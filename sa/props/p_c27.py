"""C27: the three-cornered hat recovers one clock's variance."""
from forms import *

EXPLANATION = ("three_cornered_hat_phase is abstractly interpreted with an uninterpreted estimator: a recorder that returns arrays of "
               "symbolic length named after the data set it was given.  The value numbers of the four results are compared with "
               "sqrt(max(0, (ab^2 + ca^2 - bc^2)/2)), the averaging times and counts of pair AB, and deviation/sqrt(count); the "
               "recorder's arguments show rate, averaging times and data type of each call.")


class Spy(object):
    """an estimator of which nothing is known"""

    def __init__(self, L, names):
        self.L = L
        self.names = names
        self.calls = []

    def pycall(self, I, st, args, kw, node, fr):
        a = list(args)
        names = ["data", "rate", "data_type", "taus"]
        got = dict(zip(names, a))
        got.update(kw)
        self.calls.append((got, node))
        nm = "?"
        d = I.arr(st, got.get("data", NONE))
        if d is not None:
            e = d.at(num(1))
            for q in self.names:
                if e == el(q, num(1)):
                    nm = q
        mk = lambda p: I.alloc(st, Arr("nd", self.L, (lambda i: el(p + "_" + nm, i)), "f"))
        return Tup([mk("tau"), mk("dev"), mk("err"), mk("n")])


alg.POS_ARRAYS |= {"n_ab", "dev_ab", "dev_bc", "dev_ca", "tau_ab"} if isinstance(alg.POS_ARRAYS, set) else set()


def ob(kind):
    where = def_site(AT, "three_cornered_hat_phase")
    N = sym("N", int=True, pos=True, w=1000)
    L = sym("L", int=True, pos=True, w=10)
    j = sym("j", int=True, nonneg=True)
    rate = sym("rate", pos=True, w=3)
    s = sym("s", int=True, nonneg=True)
    c = Case(slack={L: j + s + 2})
    spy = Spy(L, ("ab", "bc", "ca"))
    data = [c.array(N, q, kind) for q in ("ab", "bc", "ca")]
    taus = c.array(L, "req")
    o = c.call(AT, "three_cornered_hat_phase", data + [rate, taus, spy])
    cov = coverage_of(c.I)
    P = c.points({j: [0, 1, 2, 3], s: [0, 1, 4]}, 24)
    out = []
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "three-cornered hat", where, "no result: raises %s" % raises_names(o))], cov
    # calls
    for got, node in spy.calls:
        site_ = "%s (call at line %s)" % (where, getattr(node, "lineno", "?"))
        v, why = same(c.I.to_e(o.st, got["rate"]) if "rate" in got else None, rate, P)
        if "rate" not in got:
            v, why = VIOLATED, "the rate is not passed to the estimator"
        out.append(finding(v, "estimator called with the given rate", site_, why))
        t = c.I.arr(o.st, got.get("taus", NONE))
        if t is None:
            out.append(finding(VIOLATED if "taus" not in got else UNDECIDED, "estimator called with the given averaging times", site_, repr(got.get("taus"))))
        else:
            v, why = same(t.at(j), el("req", j), P)
            out.append(finding(v, "estimator called with the given averaging times", site_, why))
        dt = got.get("data_type")
        ok = dt == Const("phase") or dt is None
        out.append(finding(PROVED if ok else VIOLATED, "estimator called for phase data", site_, repr(dt)))
    sq = lambda q: el("dev_" + q, j) ** 2 if hasattr(E, "__pow__") else alg.power(el("dev_" + q, j), 2)
    var = (sq("ab") + sq("ca") - sq("bc")) * F(1, 2)
    dev = alg.ite(alg.c_cmp("lt", var), ZERO, root(var))
    dev = root(alg.ite(alg.c_cmp("lt", var), ZERO, var))
    want = [("averaging time", el("tau_ab", j)), ("deviation", dev), ("error", dev / root(el("n_ab", j))), ("count", el("n_ab", j))]
    t = c.I.deref(o.st, o.value)
    if not isinstance(t, Tup) or len(t.items) != 4:
        return out + [finding(UNDECIDED, "three-cornered hat", where, "result is not a 4-tuple")], cov
    for (lab, w), x in zip(want, t.items):
        a = c.I.deref(o.st, x)
        if not isinstance(a, Arr):
            out.append(finding(UNDECIDED, "three-cornered hat: " + lab, where, "not a sequence"))
            continue
        v, why = same(a.n, L, P)
        out.append(finding(v, "three-cornered hat: %s: one per averaging time" % lab, where, why))
        g = a.at(j)
        v, why = same(g if isinstance(g, E) else None, w, P)
        out.append(finding(v, "three-cornered hat: " + lab, where, why))
    out += never_raises(o, P, "three-cornered hat: defined", where, "")
    return out, cov


def obligations(tier):
    return [Ob("hat/nd", ob, "nd"), Ob("hat/list", ob, "list")]
