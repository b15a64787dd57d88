"""C09: the averaging-time grid."""
from forms import *

EXPLANATION = ("tau_generator is abstractly interpreted for every kind of request with the data length, the requested times, the rate "
               "and the limit symbolic; the resulting selection (index maps of the filters and of the sort) is evaluated on adversarial "
               "requests around every bound and compared with the set of admissible rounded factors, element by element.  At every call "
               "of tau_generator in the estimators the value numbers of the arguments are compared with the estimator's own limits.")

n = sym("n", int=True, pos=True, w=20)
r = sym("r", pos=True, w=3)
K = sym("K", int=True, nonneg=True)
mx = sym("mx", int=True, pos=True)
RATES = [F(1), F(1, 3), F(10), F(1, 86400), F(7, 2), F(1000)]
LENS = [3, 4, 5, 7, 8, 9, 10, 11, 16, 17, 33, 40, 64, 100, 101, 150]


class Fixed(object):
    def __init__(self, name, vals, old):
        self.name, self.vals, self.old = name, vals, old

    def get(self, name):
        if name == self.name:
            return lambda i: self.vals[i]
        return self.old.get(name)


def requests(N, M, r, k):
    """requested times, unsorted, with duplicates, around every bound"""
    base = [[2, 1, N - 1, 3, N, 2, M, M + 1, 0, N + 1],
            [N - 2, M, 1, 1, -1, N - 1, 5, M - 1, 2],
            [1], [N - 1], [M, M + 1, M - 1, 4, 3, 6, 8], [0, -3, 7, 2, 2 * N, 2]]
    off = [F(0), F(2, 5), F(-2, 5), F(1, 7), F(-1, 3), F(1, 9)]
    ms = base[k % len(base)]
    if N > 150 and k % 2:
        # a long request
        ms = [(j * 7919) % (N + 9) for j in range(N + 40)]
    return [(m + off[(j * 5 + k) % len(off)]) / r for j, m in enumerate(ms)]


def rnd(x):
    """nearest integer; the requests keep away from halves"""
    f = x.numerator // x.denominator
    return f + (1 if x - f > F(1, 2) else 0)


def expected(req, N, M, rate, even):
    ms = sorted({rnd(F(t) * rate) for t in req})
    return [m for m in ms if 1 <= m < N and m <= M and (not even or m % 2 == 0)]


def keyword_ms(kind, N):
    if kind == "all":
        return list(range(1, N + 1))
    if kind == "octave":
        return [2 ** k for k in range(20)]
    return [a * 10 ** k for k in range(8) for a in (1, 2, 4)]


def grid_ob(kind, cont, even, limit):
    where = def_site(AT, "tau_generator")
    s = sym("s", int=True, nonneg=True)
    kk = sym("k", int=True, nonneg=True)
    c = Case(slack={n: s + 3, K: kk + 1})
    if kind == "request":
        t = c.array(K, "tau", "nd" if cont == "array" else cont)
    elif kind == "empty":
        t = c.I.alloc(c.st, c.I.list_arr([], "list"))
    elif kind == "none":
        t = NONE
    else:
        t = Const(kind)
    kw = {}
    if even:
        kw["even"] = Const(True)
    if limit:
        kw["maximum_m"] = mx
    kw["taus"] = t
    o = c.call(AT, "tau_generator", [c.array(n, "x"), r], kw)
    cov = coverage_of(c.I)
    tag = "%s request%s%s%s" % (kind, " as " + cont if cont else "", ", even factors" if even else "", ", limited" if limit else "")
    d, m, t2 = value(c, o, 0), value(c, o, 1), value(c, o, 2)
    if not isinstance(m, Arr) or not isinstance(t2, Arr) or not isinstance(d, Arr):
        return [finding(UNDECIDED if not o.raises or o.value is not None else VIOLATED, "admissible factors", where,
                        "%s: no grid (raises %s)" % (tag, raises_names(o)))], cov
    out = []
    i = sym("i", int=True, nonneg=True)
    v, why = same(d.at(i), el("x", i), c.points({s: [0, 4], i: [0, 1, 2]}, 4))
    v2, why2 = same(d.n, n, c.points({s: [0, 4]}, 2))
    out.append(finding(worst(v, v2), "data handed back unchanged", where, "%s: %s; %s" % (tag, why, why2)))
    bad = None
    ok = 0
    notes = []
    N = 0
    hit = None
    lens = LENS + [x + y for x in core.source_constants(c.I, 150, 2600) for y in (0, 2)][:4]
    for k in range(len(lens) * 2):
        N = lens[k % len(lens)]
        rate = RATES[(k * 5 + k // len(LENS)) % len(RATES)]
        M = [max(1, N // 3), N, 2, N - 1][k % 4] if limit else N
        req = requests(N, M, rate, k)
        if limit and M < 1:
            continue
        p = alg_eval.Point(seed=SEED * 100 + k, syms={the_atom(n).id: N, the_atom(r).id: rate, the_atom(K).id: len(req), the_atom(kk).id: len(req) - 1, the_atom(mx).id: M, the_atom(s).id: N - 3})
        p.arrays = Fixed("tau", req, ArrayData(p.seed))
        if kind == "log10" and N in (10, 100):
            continue
        if hit is None:
            hit = raise_reached(o, [p])
            if hit:
                hit = hit + (N,)
        try:
            got_n = p.ev(m.n)
            got = [p.ev(c.I.to_e(o.st, m.at(num(j)))) for j in range(int(got_n))]
            gt_n = p.ev(t2.n)
            gt = [p.ev(c.I.to_e(o.st, t2.at(num(j)))) for j in range(int(gt_n))]
        except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, KeyError, IndexError) as ex:
            notes.append("%s %s" % (type(ex).__name__, ex))
            continue
        if p.used:
            notes.append("uninterpreted " + ", ".join(sorted(map(str, p.used))))
            continue
        if kind == "log10":
            want = got
            good = got == sorted(set(got)) and all(g == int(g) and 1 <= g < N and g <= M for g in got) and (even or limit or (bool(got) and got[0] == 1))
        else:
            src = req if kind == "request" else [F(x) / rate for x in keyword_ms("octave" if kind in ("none", "empty") else kind, N)]
            want = expected(src, N, M, rate, even)
            good = len(got) == len(want) and all(abs(a - b) < 1e-9 for a, b in zip(got, want))
        if not good:
            bad = ("admissible factors", "%s, %d points, rate %s, limit %s%s: factors %s instead of %s" % (
                tag, N, rate, M if limit else "none", ", requested m " + str([str(x * rate) for x in req]) if kind == "request" else "",
                [str(g) for g in got][:30], want[:30] if want is not got else "strictly increasing integers in 1..%d" % (N - 1)))
            break
        if len(gt) != len(got) or any(abs(float(a) - float(b) / float(rate)) > 1e-9 * float(b) / float(rate) for a, b in zip(gt, got)):
            bad = ("times are factors over the rate", "%s, %d points, rate %s: times %s for factors %s" % (tag, N, rate, [str(x) for x in gt][:20], [str(g) for g in got][:20]))
            break
        ok += 1
    if bad:
        if opaque_here(m) or opaque_here(t2):
            out.append(finding(UNDECIDED, bad[0], where, "%s: unmodelled construct" % tag))
        else:
            out.append(finding(VIOLATED, bad[0], where, bad[1]))
    else:
        out.append(finding(AGREED if ok >= 4 else UNDECIDED, "admissible factors", where, "%s: selection equals the admissible set on %d adversarial requests %s" % (tag, ok, "; ".join(notes[:2]))))
        if hit:
            out.append(finding(VIOLATED, "every request is answered", where, "%s: raises %s when %s (%d points)" % (tag, hit[0], hit[1], hit[2])))
    v, why = same(t2.at(i), m.at(i) / r, [])
    out.append(finding(v if v == PROVED else AGREED if ok >= 4 and not bad else UNDECIDED, "times are factors over the rate", where, "%s: %s" % (tag, why)))
    return out, cov


def opaque_here(a):
    i = sym("i", int=True, nonneg=True)
    try:
        e = a.at(i)
        return bool(opaque_atoms(e)) or bool(opaque_atoms(a.n))
    except Exception:
        return True


def worst(*vs):
    for v in (VIOLATED, UNDECIDED, AGREED):
        if v in vs:
            return v
    return PROVED


THIRD = ("mtotdev", "ttotdev", "htotdev")


def call_ob(name, dt):
    """arguments of tau_generator at its call sites"""
    r0 = run_dev(name, "two" if name == "theo1" else "gen", dt, ms=[])
    c = r0.case
    where = def_site(AT, name)
    out = []
    P = pts(r0, 6)
    tag = "%s(%s)" % (name, dt)
    if not r0.tg:
        return [finding(UNDECIDED, "grid request", where, "%s: tau_generator not called" % tag)], coverage_of(c.I)
    for t in r0.tg:
        env, st = t["env"], t["st"]
        w = "%s (call at line %s)" % (where, getattr(t["node"], "lineno", "?"))
        v, why = same(c.I.to_e(st, env["rate"]), r0.rate, P)
        out.append(finding(v, "rate handed to the grid", w, "%s: %s" % (tag, why)))
        ta = c.I.deref(st, env["taus"])
        out.append(finding(PROVED if isinstance(ta, Const) and ta.v == "all" else VIOLATED if isinstance(ta, Const) else UNDECIDED, "requested times handed to the grid", w,
                           "%s: %s" % (tag, getattr(ta, "v", ta))))
        a = c.I.arr(st, env["data"])
        L = r0.N - 1 if name == "htotdev" and dt == "freq" else r0.N
        if a is None:
            out.append(finding(UNDECIDED, "record length of the grid", w, tag))
        else:
            alts = (r0.N - 1,) if name == "htotdev" else ()
            v, why = near(a.n, L, P, alts=alts)
            out.append(finding(v, "record length of the grid", w, "%s: %s" % (tag, why)))
        ev = env.get("even")
        ev = ev.v if isinstance(ev, Const) else (True if ev == alg.TRUE else False if ev == alg.FALSE else None)
        out.append(finding(UNDECIDED if ev is None else PROVED if bool(ev) == (name == "theo1") else VIOLATED, "even factors for THEO1 only", w,
                           "%s: even=%s" % (tag, ev)))
        mm = env.get("maximum_m")
        mm = c.I.to_e(st, mm) if mm is not None else num(-1)
        if name in THIRD:
            alts = (alg.floor_((r0.N - 1) / 3),) if name == "htotdev" else ()
            v, why = near(alg.floor_(mm), alg.floor_(r0.N / 3), P, alts=alts)
            out.append(finding(v, "limit of a third of the record", w, "%s: %s" % (tag, why)))
        else:
            v, why = (PROVED, "no limit") if mm == num(-1) else same(alg.ite(alg.c_cmp("lt", mm - r0.N + 1), ONE, ZERO), ZERO, P)
            out.append(finding(v, "no further limit", w, "%s: %s" % (tag, why)))
    return out, coverage_of(c.I)


def obligations(tier):
    obs = []
    for even in (False, True):
        for limit in (False, True):
            for cont in ("array", "list", "tuple"):
                if cont == "tuple" and (even or limit):
                    continue
                obs.append(Ob("grid/request/%s/%d%d" % (cont, even, limit), grid_ob, "request", cont, even, limit))
            for kind in ("none", "empty", "all", "octave", "decade", "log10"):
                obs.append(Ob("grid/%s/%d%d" % (kind, even, limit), grid_ob, kind, "", even, limit))
    for name in SPEC:
        for dt in ("phase", "freq"):
            obs.append(Ob("call/%s/%s" % (name, dt), call_ob, name, dt))
    return obs
