"""C10: four aligned result arrays, rows with n <= 1 dropped, empty result
raises."""
from devs import *

EXPLANATION = ("(a) the row filter is analysed on arrays of symbolic length: all outputs must be selections by one and the same "
               "mask, which must be n > 1, and the empty selection must raise; (b) every estimator is analysed with three "
               "averaging factors: four arrays of length three whose row k belongs to the k-th factor; (c) every estimator is "
               "analysed at the exact record lengths where the count is 2, 1 and 0: the row is kept, dropped, and an empty "
               "result raises.")

# record length (phase) at which the count of factor m is 2 (keep) / 1 (drop)
KEEP = {
    "adev": lambda m: 3 * m + 1, "oadev": lambda m: 2 * m + 2, "hdev": lambda m: 4 * m + 1, "ohdev": lambda m: 3 * m + 2,
    "mdev": lambda m: 3 * m + 1, "tdev": lambda m: 3 * m + 1, "pdev": lambda m: 2 * m + 2, "gcodev": lambda m: 2 * m + 2,
    "gradev": lambda m: 2 * m + 2, "mtie": lambda m: m + 2, "tierms": lambda m: m + 2,
}
DROP = {
    "adev": lambda m: 3 * m, "oadev": lambda m: 2 * m + 1, "hdev": lambda m: 4 * m, "ohdev": lambda m: 3 * m + 1,
    "mdev": lambda m: 3 * m, "tdev": lambda m: 3 * m, "pdev": lambda m: 2 * m + 1, "gcodev": lambda m: 2 * m + 1,
    "gradev": lambda m: 2 * m + 1, "mtie": lambda m: m + 1, "tierms": lambda m: m + 1,
}
KEEPH = {"mtotdev": lambda m: 3 * m + 1, "ttotdev": lambda m: 3 * m + 1, "htotdev": lambda m: 3 * m + 2}
DROPH = {"mtotdev": lambda m: 3 * m, "ttotdev": lambda m: 3 * m, "htotdev": lambda m: 3 * m + 1}


def mask_ob(two):
    c = Case()
    I, st = c.I, c.st
    L = sym("L", int=True, pos=True, w=5)
    refs = [c.array(L, nm) for nm in ("T", "D", "S", "C")]
    if two:
        e2 = c.array(L, "S2")
        errs = I.alloc(st, I.list_arr([refs[2], e2]))
    else:
        errs = refs[2]
    where = def_site(AT, "remove_small_ns")
    o = c.call(AT, "remove_small_ns", [refs[0], refs[1], errs, refs[3]])
    out = []
    v = I.deref(o.st, o.value) if o.value is not None else None
    if not isinstance(v, Tup) or len(v.items) != 4:
        return [finding(UNDECIDED, "row filter", where, "result is not a 4-tuple")], coverage_of(I)
    rows = []
    names = ["T", "D", "S", "C"]
    for k, x in enumerate(v.items):
        a = I.deref(o.st, x)
        if two and k == 2:
            if not isinstance(a, Arr) or a.n != num(2):
                out.append(finding(VIOLATED if isinstance(a, (Arr, Tup)) else UNDECIDED, "row filter keeps both error bounds", where, repr(a)[:200]))
                continue
            rows.append(("S", I.deref(o.st, a.at(ZERO))))
            rows.append(("S2", I.deref(o.st, a.at(ONE))))
        else:
            rows.append((names[k], a))
    j = sym("j", int=True, nonneg=True)
    # reference: compress by n > 1
    key = I.arrkey(st, Arr("nd", L, lambda i: alg.ite(alg.c_cmp("lt", 1 - el("C", i)), ONE, ZERO), "b"))
    cnt = alg.summation(alg.ite(alg.c_cmp("lt", 1 - el("C", j)), ONE, ZERO), j, ZERO, L)
    arrs = {}
    vals = [[3, 0, 2, 1, 5, 1], [2, 2, 7, 3, 1, 4], [1, 0, 1, 2, 9, 9], [0, 1, 2, 1, 0, 3]]
    pts_ = []
    for q, cv in enumerate(vals):
        p = alg_eval.Point(seed=SEED + q, syms={the_atom(L).id: len(cv)})
        p.arrays = Counts(p.seed, cv)
        pts_.append((p, [i for i, x in enumerate(cv) if x > 1]))
    for nm, a in rows:
        if not isinstance(a, Arr):
            out.append(finding(UNDECIDED, "row filter", where, "output %s not an array" % nm))
            continue
        bad = None
        und = None
        for p, keep in pts_:
            try:
                n = p.int_(a.n)
                if n != len(keep):
                    bad = "%d rows kept where the counts %s have %d entries > 1" % (n, p.arrays.c, len(keep))
                    break
                for t, i in enumerate(keep):
                    x = a.at(num(t))
                    if p.ev(x) != p.ev(el(nm, num(i))):
                        bad = "output row %d is not input row %d of the same array (counts %s)" % (t, i, p.arrays.c)
                        break
            except (alg_eval.NoValue, TypeError, AttributeError, ValueError) as ex:
                und = str(ex)
            if bad:
                break
        if bad:
            out.append(finding(VIOLATED, "row filter is the common mask n > 1", where, "%s: %s" % (nm, bad)))
        elif und:
            out.append(finding(UNDECIDED, "row filter is the common mask n > 1", where, und))
        else:
            same_key = "sel(" in str(a.at(j))
            out.append(finding(PROVED if same_key else AGREED, "row filter is the common mask n > 1", where,
                               "%s: selection %s" % (nm, str(a.at(j))[:200])))
    # empty selection raises
    conds = [x[0] for x in o.raises]
    ok = any(cs for cs in conds)
    out.append(finding(PROVED if o.raises else VIOLATED, "an empty result raises", where,
                       "raises %s" % sorted({x[1] for x in o.raises}) if o.raises else "no exception on any path"))
    return out, coverage_of(I)


class Counts(object):
    def __init__(self, seed, c):
        self.seed = seed
        self.c = c

    def get(self, name):
        if name == "C":
            return lambda i: self.c[i] if 0 <= i < len(self.c) else 0
        return lambda i: int(alg_eval.hrand(self.seed, name, i) * 1000003)


def outputs(r):
    return "4 arrays of length " + ", ".join(str(getattr(a, "n", "?")) for a in r.rows) if r.rows else "exception"


def shape_ob(name, par, dt):
    """three averaging factors, all rows present and aligned"""
    from props.p_c11 import triples
    ms, free = triples(name)[0]
    s = sym("s", int=True, nonneg=True, w=1)
    r = run_dev(name, "gen", dt, ms=ms, nslack=SPEC[name]["ab"][0] * ms[2] + 6 + s)
    if r.rows is None:
        r.free = dict(free)
        r.free[s] = [0, 1, 3]
        return no_rows(r, "aligned rows", "%s %s %s" % (name, par, dt)), coverage_of(r.case.I)
    free = dict(free)
    free[s] = [0, 1, 3]
    r.free = free
    P = pts(r, 4)
    out = []
    for k, lab in enumerate(("tau", "dev", "err", "n")):
        a = r.rows[k]
        if k == 2 and name == "gradev":
            parts = [r.case.I.deref(r.out.st, x) for x in (a.items() if isinstance(a, Arr) else a.items)]
        else:
            parts = [a]
        for a in parts:
            if not isinstance(a, Arr):
                out.append(finding(UNDECIDED, "equal lengths", site(name), "%s is not an array" % lab))
                continue
            v, why = same(a.n, num(3), P)
            out.append(finding(v, "every row with n > 1 is reported", site(name), "%s of %s: %s" % (lab, name, why)))
    for k in range(3):
        v, why = same(at(r, 0, k), ms[k] / r.rate, P, need=1)
        out.append(finding(v, "row k carries the k-th averaging time", site(name), "%s row %d: %s" % (name, k, why)))
    return out, coverage_of(r.case.I)


def boundary_ob(name, par, dt, keep):
    if name in KEEPH:
        m = {"one": ONE, "two": num(2), "three": num(3)}[par]
        N = (KEEPH if keep else DROPH)[name](m)
        r = run_dev(name, "one", dt, ms=[m], N=N)
        r.free = {}
    else:
        m = sym("m", int=True, pos=True, w=2)
        N = sym("N", int=True, pos=True, w=1000)
        ex = (KEEP if keep else DROP)[name](m if par == "gen" else ONE)
        if par == "gen":
            r = run_dev(name, "gen", dt, nslack=ex)
            r.free = {m: [1, 2, 3]}
        else:
            r = run_dev(name, "gen", dt, ms=[ONE], N=ex)
            r.free = {}
    rule = "a row with n = 2 is kept" if keep else "a row with n <= 1 is dropped and an empty result raises"
    if keep:
        if r.rows is None:
            exc = [x[1] for x in r.raises]
            v = VIOLATED if exc and all(e == "UserWarning" for e in exc) else UNDECIDED
            return [finding(v, rule, site(name), "%s %s: raises %s instead of returning the row" % (name, dt, exc[:3]))], coverage_of(r.case.I)
        v, why = same(r.rows[1].n if isinstance(r.rows[1], Arr) else None, ONE, pts(r, 3), need=1)
        return [finding(v, rule, site(name), "%s %s: %s" % (name, dt, why))], coverage_of(r.case.I)
    if r.out.value is None:
        return [finding(PROVED, rule, site(name), "raises %s" % sorted({x[1] for x in r.raises}))], coverage_of(r.case.I)
    # a result is returned on some path: its rows must be excluded
    a = r.rows[1] if r.rows else None
    if not isinstance(a, Arr):
        return [finding(UNDECIDED, rule, site(name), "shape not recognised")], coverage_of(r.case.I)
    if r.raises and not a.n.t:
        return [finding(PROVED, rule, site(name), "")], coverage_of(r.case.I)
    v, why = same(a.n, ZERO, pts(r, 3), need=1)
    return [finding(v, rule, site(name), "%s %s: %s" % (name, dt, why))], coverage_of(r.case.I)


def obligations(tier):
    obs = [Ob("filter/one", mask_ob, False), Ob("filter/two", mask_ob, True)]
    for n in SPEC:
        for dt in ("phase", "freq"):
            if not (n in HEAVY and tier == "quick" and dt != ("freq" if n == "htotdev" else "phase")):
                obs.append(Ob("rows/%s/%s" % (n, dt), shape_ob, n, "gen", dt))
            pars = ("one", "two", "three") if n in KEEPH else ("gen", "one")
            if n in KEEP or n in KEEPH:
                for par in pars:
                    for keep in (True, False):
                        obs.append(Ob("boundary/%s/%s/%s/%s" % (n, dt, par, "keep" if keep else "drop"), boundary_ob, n, par, dt, keep))
    return obs
