"""C18: the telecom masks are the ITU limits."""
from core import *
import alg_eval

EXPLANATION = ("each mask is abstractly interpreted on a symbolic observation time; the breakpoints of the resulting gated value "
               "and of the ITU table cut the axis into cells; on each cell the code must select one affine function, whose two "
               "coefficients are compared with the recommendation (relative 1e-5); at a breakpoint either neighbour is accepted.")

MK = "allantools.mask"
U = 10 ** -6
# (upper end, constant, slope)
INF = None


def f(s):
    return F(s)


TABLE = {
    "prc_tdev": [("100", "3e-9", "0"), ("1000", "0", "0.03e-9"), (None, "30e-9", "0")],
    "prc_mtie": [("1000", "0.025e-6", "0.275e-9"), (None, "0.29e-6", "1e-11")],
    "eprtc_tdev": [("30000", "1e-9", "0"), ("300000", "0", "3.33333e-14"), (None, "10e-9", "0")],
    "eprtc_mtie": [("1", "4e-9", "0"), ("100", "3.89e-9", "0.11114e-9"), ("400000", "15e-9", "0.0375e-12"), (None, "30e-9", "0")],
    "prtcA_tdev": [("100", "3e-9", "0"), ("1000", "0", "0.03e-9"), (None, "30e-9", "0")],
    "prtcB_tdev": [("100", "1e-9", "0"), ("500", "0", "0.01e-9"), (None, "5e-9", "0")],
    "prtcA_mtie": [("273", "0.025e-6", "0.275e-9"), (None, "100e-9", "0")],
    "prtcB_mtie": [("54.5", "0.025e-6", "0.275e-9"), (None, "40e-9", "0")],
}


def oracle(name, t):
    """admissible limits at t"""
    out = []
    lo = F(0)
    for up, c, k in TABLE[name]:
        up = F(up) if up else None
        if t >= lo and (up is None or t <= up):
            out.append(F(c) + F(k) * t)
        lo = up
    return out


def breakpoints(e, t, acc, seen, und):
    """zeros of the conditions in a gated value"""
    if isinstance(e, E):
        for m in e.t:
            for aid, _ in m:
                if aid not in seen:
                    seen.add(aid)
                    for a in alg.atom(aid).args:
                        breakpoints(a, t, acc, seen, und)
    elif isinstance(e, Cond):
        if e.op in ("lt", "le", "eq"):
            x = e.args[0]
            ta = the_atom(t).id
            c0 = x.t.get((), 0)
            c1 = x.t.get(((ta, 1),), 0)
            if set(x.t) <= {(), ((ta, 1),)} and c1:
                acc.add(-F(c0) / F(c1))
            elif alg.depends(x, t):
                und.append(repr(e))
        else:
            for a in e.args:
                breakpoints(a, t, acc, seen, und)
    elif isinstance(e, (tuple, list)):
        for a in e:
            breakpoints(a, t, acc, seen, und)


def near(a, b):
    return abs(a - b) <= F(1, 100000) * abs(b)


def ob(name):
    t = sym("tau", pos=True, w=50)
    c = Case()
    where = def_site(MK, name)
    o = c.call(MK, name, [t])
    cov = coverage_of(c.I)
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "mask value", where, "no value")], cov
    v = c.I.to_e(o.st, o.value)
    if is_opaque(v):
        return [finding(UNDECIDED, "mask value", where, alg.estr(v)[:300])], cov
    bps, und = set(), []
    breakpoints(v, t, bps, set(), und)
    cuts = sorted({b for b in bps if b > 0} | {F(u) for u, _, _ in TABLE[name] if u})
    cells = []
    lo = F(0)
    for b in cuts + [None]:
        hi = b if b is not None else (cuts[-1] * 10 if cuts else F(1000))
        w = hi - lo
        # both ends and the middle of the open cell
        cells.append(((lo, b), [lo + w / 1000, lo + w / 2, hi - w / 1000]))
        if b is not None:
            cells.append(((b, b), [b]))
        lo = hi
    out = []
    for (a, b), pts in cells:
        lab = "tau = %s" % float(a) if a == b else "%s < tau < %s" % (float(a), "inf" if b is None else float(b))
        bad = None
        for x in pts:
            p = alg_eval.Point(seed=1, syms={the_atom(t).id: x})
            try:
                g = p.ev(v)
            except Exception as ex:
                und.append(repr(ex))
                continue
            g = F(g)
            if not any(near(g, w_) for w_ in oracle(name, x)):
                bad = "at tau=%s the code's piece gives %.9g, the recommendation %s" % (
                    float(x), float(g), " or ".join("%.9g" % float(w_) for w_ in oracle(name, x)))
                break
        if bad:
            out.append(finding(VIOLATED, "limit on the cell", where, "%s, %s: %s" % (name, lab, bad)))
        elif und:
            out.append(finding(UNDECIDED, "limit on the cell", where, "%s: %s" % (lab, und[:2])))
        else:
            out.append(finding(PROVED, "limit on the cell", where, "%s, %s: same affine limit (three points of the cell)" % (name, lab)))
    return out, cov


def obligations(tier):
    return [Ob(n, ob, n) for n in TABLE]
