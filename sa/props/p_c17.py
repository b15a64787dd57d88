"""C17: NaN gaps never poison GRADEV."""
from devs import *
import alg_eval

EXPLANATION = ("GRADEV is analysed in a gap context: any sample may be NaN, and a value built from a sample is NaN under the "
               "condition that the sample is.  The value numbers of deviation and count must be the sum and number of the second "
               "differences whose three samples are present, for symbolic length, factor and rate; an unguarded gap sample in an "
               "output is a violation.  trim_data and frequency2phase are analysed on every gap pattern of short records with "
               "symbolic contents (all patterns up to the stated length).")

CI = "allantools.ci"


class GapPoint(alg_eval.Point):
    gaps = ()

    def isgap(self, name, i):
        return i in self.gaps

    def data(self, name, i):
        if i in self.gaps:
            raise Poison("sample %d is a gap" % i)
        return alg_eval.Point.data(self, name, i)


class Poison(alg_eval.NoValue):
    pass


def stub_small(I, env, st, node, fr):
    return Tup([env["taus"], env["devs"], env["deverrs"], env["ns"]])


def stub_edf(I, env, st, node, fr):
    return sym("edf~", pos=True)


def stub_ci(I, env, st, node, fr):
    return Tup([sym("lo~", pos=True), sym("hi~", pos=True)])


def gapob(m, dtype_kind):
    par = "gen"
    stubs = {AT + ".remove_small_ns": stub_small, CI + ".edf_simple": stub_edf, CI + ".confidence_interval": stub_ci}
    r = run_dev("gradev", par, "phase", gaps=True, stubs=stubs, kind=dtype_kind)
    c = r.case
    cov = coverage_of(c.I)
    where = site("calc_gradev_phase")
    if r.rows is None:
        return no_rows(r, "gap-robust deviation", "m=%s" % par), cov
    o = c.ref("gradev", [c.refarray(r.N, "x"), r.rate, r.ms[0]])
    t = c.R.deref(o.st, o.value)
    dev, n = [c.R.to_e(o.st, x) for x in t.items]
    out = []
    got = {"deviation": (at(r, 1), dev), "count": (at(r, 3), n), "tau": (at(r, 0), r.ms[0] / r.rate)}
    base = pts(r, 4)
    pats = [(), (0,), (3,), (4, 5), (1, 2, 6), (2, 7, 8)]
    for lab, (g, w) in got.items():
        rule = "gap-robust " + lab
        if g is None:
            out.append(finding(UNDECIDED, rule, where, "no value"))
            continue
        if is_opaque(g):
            out.append(finding(UNDECIDED, rule, where, "unmodelled: " + alg.estr(g)[:300]))
            continue
        if g == w:
            out.append(finding(PROVED, rule, stores_site(r), "equal value numbers: %s" % alg.estr(g)[:200]))
            continue
        bad, und, ok = None, None, 0
        for q, b in enumerate(base):
            for pat in pats:
                p = GapPoint(seed=b.seed, syms=b.syms)
                p.arrays = {}
                p.gaps = pat
                try:
                    k = p.ev(n)
                    if k < 2:
                        continue
                    want = p.ev(w)
                except alg_eval.NoValue as ex:
                    und = str(ex)
                    continue
                try:
                    have = p.ev(g)
                except Poison as ex:
                    bad = "NaN reaches the %s: gaps at %s, N=%s m=%s: %s (code: %s)" % (
                        lab, pat, p.ev(r.N), p.ev(r.ms[0]), ex, alg.estr(g)[:300])
                    break
                except alg_eval.NoValue as ex:
                    und = str(ex)
                    continue
                if not alg_eval.close_to(have, want, 1e-7, 1e-9):
                    bad = "gaps at %s, N=%s m=%s: code %s, definition %s (code: %s)" % (
                        pat, p.ev(r.N), p.ev(r.ms[0]), fmt(have), fmt(want), alg.estr(g)[:300])
                    break
                ok += 1
            if bad:
                break
        if bad:
            out.append(finding(VIOLATED, rule, stores_site(r), bad))
        elif ok >= 4:
            out.append(finding(AGREED, rule, stores_site(r), "agrees at %d gap patterns" % ok))
        else:
            out.append(finding(UNDECIDED, rule, stores_site(r), str(und)))
    return out, cov


def patterns(L):
    for q in range(1 << L):
        g = [i for i in range(L) if q >> i & 1]
        if len(g) < L:
            yield g


def pattern_items(L, g):
    return [el("nan~x" if i in g else "fin~x", num(i)) for i in range(L)]


def trim_ob(L, kind):
    where = def_site(AT, "trim_data")
    out = []
    cov = None
    nbad = nund = nok = 0
    for g in patterns(L):
        c = Case(gaps=True)
        items = pattern_items(L, g)
        a = c.I.alloc(c.st, c.I.list_arr(items, kind, "f"))
        o = c.call(AT, "trim_data", [a])
        cov = coverage_of(c.I)
        v = c.I.arr(o.st, o.value) if o.value is not None else None
        present = [i for i in range(L) if i not in g]
        want = items[present[0]:present[-1] + 1]
        got = v.items() if v is not None else None
        if o.value is None and o.raises:
            nbad += 1
            out.append(finding(VIOLATED, "leading and trailing gaps trimmed", where, "raises for length %d, gaps %s" % (L, g)))
        elif got is None or any(not isinstance(x, E) or is_opaque(x) or "sel(" in str(x) for x in got) or (v is not None and v.n.const() is None):
            nund += 1
        elif got != want:
            nbad += 1
            out.append(finding(VIOLATED, "leading and trailing gaps trimmed", where,
                               "length %d, gaps %s: kept %s, expected %s" % (L, g, got, want)))
        else:
            nok += 1
    if nok:
        out.append(finding(PROVED, "leading and trailing gaps trimmed", where, "%d patterns of length %d" % (nok, L)))
    if nund:
        out.append(finding(UNDECIDED, "leading and trailing gaps trimmed", where, "%d patterns of length %d" % (nund, L)))
    return out[:12], cov


def f2p_ob(L, kind):
    """frequency2phase: x[0]=0, x[1]= (y[first]-mean of present)/rate ..."""
    where = def_site(AT, "frequency2phase")
    out = []
    cov = None
    nok = nund = 0
    rate = sym("rate", pos=True, w=3)
    rule = "gaps trimmed before integration and left out of the mean"
    for g in patterns(L):
        c = Case(gaps=True)
        items = pattern_items(L, g)
        a = c.I.alloc(c.st, c.I.list_arr(items, kind, "f"))
        o = c.call(AT, "frequency2phase", [a, rate])
        cov = coverage_of(c.I)
        v = c.I.arr(o.st, o.value) if o.value is not None else None
        present = [i for i in range(L) if i not in g]
        kept = items[present[0]:present[-1] + 1]
        if v is None:
            nund += 1
            continue
        mu = ZERO
        for i in present:
            mu = mu + items[i]
        mu = mu / num(len(present))
        bad = None
        if v.n.const() is None:
            nund += 1
            continue
        if v.n != num(len(kept) + 1):
            bad = "length %s, expected %d" % (v.n, len(kept) + 1)
        acc = ZERO
        und = False
        for k in range(len(kept) + 1):
            if bad:
                break
            if k:
                if kept[k - 1] in [items[i] for i in g]:
                    break
                acc = acc + (kept[k - 1] - mu) / rate
            x = v.at(num(k))
            if isinstance(x, E) and not is_opaque(x):
                if x != acc:
                    P = [alg_eval.Point(seed=5), alg_eval.Point(seed=6)]
                    w, why = same(x, acc, P, 1)
                    if w == VIOLATED:
                        bad = "phase[%d]: %s" % (k, why)
                    elif w == UNDECIDED:
                        und = True
            else:
                und = True
        if bad:
            out.append(finding(VIOLATED, rule, where, "length %d, gaps %s: %s" % (L, g, bad)))
        elif und:
            nund += 1
        else:
            nok += 1
    if nok:
        out.append(finding(PROVED, rule, where, "%d patterns of length %d" % (nok, L)))
    if nund:
        out.append(finding(UNDECIDED, rule, where, "%d patterns of length %d" % (nund, L)))
    return out[:12], cov


def obligations(tier):
    obs = [Ob("gradev/gaps/nd", gapob, None, "nd"), Ob("gradev/gaps/list", gapob, None, "list")]
    top = 5 if tier == "quick" else 8
    for L in range(1, top + 1):
        obs.append(Ob("trim_data/%d" % L, trim_ob, L, "nd"))
        obs.append(Ob("trim_data/list/%d" % L, trim_ob, L, "list"))
        obs.append(Ob("frequency2phase/%d" % L, f2p_ob, L, "nd"))
    return obs
