"""C21: combined EDF algorithm of Greenhall and Riley 2004."""
from forms import *

EXPLANATION = ("edf_greenhall is abstractly interpreted for each noise exponent, difference order and estimator kind with the "
               "averaging factor and the record length symbolic; the resulting case tree (basic sums over the autocovariance "
               "functions, truncated sums and asymptotic coefficients) is compared with the published algorithm written out "
               "separately, as normal forms and at points placed in every case of the algorithm.")

M = sym("m", int=True, pos=True, w=2)
NN = sym("N", int=True, pos=True, w=1000)


def cells(alpha, d, over, modi):
    """(m, N) in every case of the algorithm"""
    out = []
    for m in (1, 2, 3, 7, 20, 30, 40, 60):
        f = 1 if modi else m
        s = m if over else 1
        L = m // f + m * d if modi else 1 + m * d
        for mm in (1, 2, d * s + 1, (d + 1) * s, (d + 1) * s + 1, 110, (d + 1) * s + 40, 101, 3 * (d + 1) * s + 150):
            # M = 1 + floor(S (N - L) / m)
            n = L + (mm - 1 if over else (mm - 1) * m + m // 2)
            if n >= L:
                out.append((m, n))
    return out


def case_of(alpha, d, m, n, over, modi):
    f = 1 if modi else m
    s = m if over else 1
    L = F(m, f) + m * d
    mm = 1 + (s * (n - L)) // m
    r = F(mm, s)
    j = min(mm, (d + 1) * s)
    if not modi and alpha == 2:
        return "4.2" if -((-r) // 1) > d else "4.1"
    if j <= 100:
        return "1" + ("" if modi or alpha > 0 else "a" if m * (d + 1) <= 100 else "b")
    return "2" if r > d + 1 else "=" if r == d + 1 else "3"


def edf_ob(alpha, d, over, modi, per):
    where = def_site(CI, "edf_greenhall")
    # keep large products factored: the cases are compared at points anyway
    alg.MAXPROD, alg.MAXPOW = 4000, 150
    c = Case()
    o = c.call(CI, "edf_greenhall", [num(alpha), num(d), M, NN], {"overlapping": Const(over), "modified": Const(modi)})
    cov = coverage_of(c.I)
    kind = ("overlapped " if over else "non-overlapped ") + ("modified" if modi else "unmodified")
    tag = "alpha=%+d d=%d %s" % (alpha, d, kind)
    if alpha + 2 * d <= 1:
        P = [point(m, n) for m, n in cells(alpha, d, over, modi)[:6]]
        if o.value is None and o.raises:
            return [finding(PROVED, "undefined combination refused", where, "%s: raises %s" % (tag, raises_names(o)))], cov
        ok = sum(1 for p in P if reached(o, p))
        if o.value is not None and not is_opaque(o.value) and ok == 0 and not o.raises:
            return [finding(VIOLATED, "undefined combination refused", where, "%s: returns a value although alpha+2d<=1" % tag)], cov
        return [finding(AGREED if ok == len(P) else UNDECIDED, "undefined combination refused", where, tag)], cov
    w = rvalue(c, c.ref("greenhall", [num(alpha), num(d), M, NN, Const(over), Const(modi)]))
    g = value(c, o)
    by = {}
    for m, n in cells(alpha, d, over, modi):
        by.setdefault(case_of(alpha, d, m, n, over, modi), []).append((m, n))
    out = []
    for k in sorted(by):
        if k in ("4.1", "="):
            continue
        q = by[k]
        # small problems first: the sums are evaluated term by term
        q.sort(key=lambda x: x[0] * (x[1] + 1))
        q = q[:2] + q[2::max(1, (len(q) - 2) // per)][:per]
        # the last averaging factor of the exact form and the first of the asymptotic one
        edge = {"1a": 100 // (d + 1), "1b": 100 // (d + 1) + 1}.get(k)
        if edge and not modi:
            x = next(((edge, n) for n in (edge * (d + 2), edge * (d + 2) + 1) if case_of(alpha, d, edge, n, over, modi) == k), None)
            q += [x] if x else []
        P = [point(m, n) for m, n in q]
        v, why = same(g, w, P, need=min(2, len(P)))
        if g is None and reached_by(o, P):
            v, why = VIOLATED, "raises %s" % raises_names(o)
        out.append(finding(v, "published case %s" % k, where, "%s: %s" % (tag, why)))
        if v in (PROVED, AGREED):
            out += never_raises(o, P, "published case %s is computed" % k, where, tag)
    return out, cov


def default_ob(alpha, d):
    """without flags: the non-overlapped unmodified estimator"""
    where = def_site(CI, "edf_greenhall")
    alg.MAXPROD, alg.MAXPOW = 4000, 150
    out = []
    c = Case()
    w = rvalue(c, c.ref("greenhall", [num(alpha), num(d), M, NN, Const(False), Const(False)]))
    q = [x for x in cells(alpha, d, False, False) if case_of(alpha, d, *x, False, False) not in ("4.1", "=")]
    q.sort(key=lambda x: x[0] * (x[1] + 1))
    o = c.call(CI, "edf_greenhall", [num(alpha), num(d), M, NN])
    v, why = same(value(c, o), w, [point(*x) for x in q[:4]])
    out.append(finding(v, "defaults", where, "alpha=%+d d=%d: %s" % (alpha, d, why)))
    return out, coverage_of(c.I)


def simple_ob(alpha, d, kind):
    where = def_site(CI, "edf_greenhall_simple")
    alg.MAXPROD, alg.MAXPOW = 4000, 150
    c = Case()
    S = M if kind[0] == "o" else ONE
    Fi = M if kind[1] == "u" else ONE
    o = c.call(CI, "edf_greenhall_simple", [num(alpha), num(d), M, S, Fi, NN])
    w = rvalue(c, c.ref("greenhall_simple", [num(alpha), num(d), M, S, Fi, NN]))
    q = [(m, n) for m, n in cells(alpha, d, kind[0] == "o", kind[1] == "m") if m <= 7]
    q.sort(key=lambda x: x[0] * (x[1] + 1))
    v, why = same(value(c, o), w, [point(*x) for x in q[:3] + q[6:8]])
    return [finding(v, "basic sum", where, "alpha=%+d d=%d %s: %s" % (alpha, d, kind, why))], coverage_of(c.I)


def reached_by(o, P):
    return P and all(reached(o, p) for p in P)


def reached(o, p):
    for path, name, *_ in o.raises:
        try:
            if all(p.cond(q) for q in path):
                return True
        except Exception:
            pass
    return False


def point(m, n):
    p = alg_eval.Point(seed=SEED * 100 + m, syms={the_atom(M).id: m, the_atom(NN).id: n})
    return p


def obligations(tier):
    obs = []
    per = 2 if tier == "quick" else 8
    for alpha in (2, 1, 0, -1, -2, -3, -4):
        for d in (1, 2, 3):
            if alpha + 2 * d > 1:
                obs.append(Ob("default/%+d/%d" % (alpha, d), default_ob, alpha, d))
            for over in (False, True):
                for modi in (False, True):
                    if alpha + 2 * d > 1:
                        k = ("o" if over else "n") + ("m" if modi else "u")
                        obs.append(Ob("simple/%+d/%d/%s" % (alpha, d, k), simple_ob, alpha, d, k))
                    obs.append(Ob("edf/%+d/%d/%s%s" % (alpha, d, "o" if over else "n", "m" if modi else "u"), edf_ob, alpha, d, over, modi, per))
    return obs
