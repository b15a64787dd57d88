"""C14: automatic averaging factors of the streaming estimators."""
from props.p_c13 import *

EXPLANATION = ("Each class is constructed with automatic averaging factors (every grid density, with and without other constructor "
               "arguments).  (a) Symbolic samples are fed one by one: after each, all per-factor arrays must have one length and every held "
               "deviation must have the value number of the batch definition of all samples so far.  (b) The control state is followed for "
               "a long stream of zero samples and compared with the grid of factors whose first term is available; just before and at the "
               "sample that opens each factor, symbolic data and running sums (their closed forms) are put into that state and one more "
               "sample is analysed.")


def grid(ppd, limit):
    out = []
    k = 0
    while True:
        v = int(round(10.0 ** (k / float(ppd))))
        if v > limit:
            return sorted(set(out))
        out.append(v)
        k += 1


def make(c, cname, ppd, extra):
    kw = {"auto_afs": Const(True), "tau0": tau0}
    if ppd is not None:
        kw["pts_per_decade"] = num(ppd)
    if extra:
        kw["afs"] = container(c, extra, "list")
    return construct(c, RT, cname, [], kw)


def factors(c, obj, st):
    """factors in service, from the averaging times"""
    v, o = result(c, obj, "taus", st)
    got = entries(c, v, o.st) if v is not None else None
    if got is None:
        return None, o.st
    out = []
    for e in got:
        q = (e / tau0).const()
        if q is None:
            return None, o.st
        out.append(q)
    return out, o.st


def lengths(c, obj, st):
    """lengths of the per-factor attributes"""
    d = c.I.deref(st, obj)
    r = {}
    for k in ("afs", "dev", "S", "So"):
        if k in d.attrs:
            v = c.I.deref(st, d.attrs[k])
            if isinstance(v, Arr) and v.n.const() is not None:
                r[k] = int(v.n.const())
    return r


def check_grid(cname, n, afs, ppd, tag, where, out):
    a, b = CLASSES[cname][1:]
    if any(x >= y for x, y in zip(afs, afs[1:])) or any(x < 1 or x != int(x) for x in afs):
        out.append(finding(VIOLATED, "factors increase", where, "%s: after %d samples the factors are %s" % (tag, n, [str(x) for x in afs])))
        return False
    if ppd is not None:
        miss = [m for m in grid(ppd, n) if a * m + b <= n and m not in afs]
        if miss:
            out.append(finding(VIOLATED, "every computable factor is in service", where,
                               "%s: after %d samples factors %s can be computed but only %s are in service" % (tag, n, miss, [str(x) for x in afs])))
            return False
    return True


def stream_ob(cname, ppd, extra, feed, length):
    c = Case(budget=4000000)
    out = []
    where = def_site("allantools.realtime", cname)
    tag = "%s(auto, %s points per decade%s), %s" % (cname, ppd or "default", ", afs=%s" % extra if extra else "", feed)
    o = make(c, cname, ppd, extra)
    if o.value is None:
        return [ends(o, c.points({sym("tau0", pos=True, w=3): [F(1), F(5, 2)]}, 2), "construction", where, tag)], coverage_of(c.I)
    st, obj = o.st, o.value
    xs = []
    P = sample_points(c)
    done = 0
    for i in range(length):
        if feed == "freq":
            if not xs:
                xs.append(ZERO)
            xs.append(xs[-1] + el("y", num(i)) * tau0)
            o = method(c, obj, "add_frequency", [el("y", num(i))], st=st)
        else:
            xs.append(el("x", num(i)))
            o = method(c, obj, "add_phase", [xs[-1]], st=st)
        if raise_reached(o, P) or o.value is None:
            hit = raise_reached(o, P)
            out.append(finding(VIOLATED if hit else UNDECIDED, "every sample is accepted", where, "%s: sample %d: %s" % (tag, i + 1, hit[0] if hit else raises_names(o))))
            break
        st = o.st
        L = lengths(c, obj, st)
        if len(set(L.values())) > 1:
            out.append(finding(VIOLATED, "arrays stay in lockstep", where, "%s: after %d samples the lengths are %s" % (tag, i + 1, L)))
            break
        afs, st2 = factors(c, obj, st)
        if afs is None:
            out.append(finding(UNDECIDED, "factors in service", where, "%s: not concrete" % tag))
            break
        if not check_grid(cname, len(xs), afs, ppd, tag, where, out):
            break
        if not check_state(c, cname, obj, st2, [int(x) for x in afs], xs, tag, where, out, P):
            break
        done += 1
    if done:
        out.append(finding(PROVED, "factors in service hold the batch value", where, "%s: %d stream lengths" % (tag, done)))
    return out, coverage_of(c.I)


def long_ob(cname, ppd, length):
    c = Case(budget=40000000)
    out = []
    where = def_site("allantools.realtime", cname)
    tag = "%s(auto, %s points per decade)" % (cname, ppd)
    o = make(c, cname, ppd, None)
    if o.value is None:
        return [ends(o, c.points({sym("tau0", pos=True, w=3): [F(1), F(5, 2)]}, 2), "construction", where, tag)], coverage_of(c.I)
    inv = invariant_known(cname)
    st, obj = o.st, o.value
    a, b = CLASSES[cname][1:]
    G = grid(ppd, length)
    opens = {}
    for m in G:
        for n in {2 * m + 1, a * m + b, a * m + b + 1}:
            opens.setdefault(n, m)
    P = sample_points(c, None, 3)
    done = grafts = 0
    zero = alg.ZERO
    for n in range(1, length + 1):
        if not inv and n in opens and n > 40:
            # symbolic data in this control state, one more sample
            if not graft(c, cname, obj, st, n - 1, opens[n], tag, where, out, P):
                break
            grafts += 1
        d = c.I.deref(st, obj)
        if "x" in d.attrs and isinstance(c.I.deref(st, d.attrs["x"]), Arr) and c.I.deref(st, d.attrs["x"]).n.const() == n - 1:
            st.heap[d.attrs["x"].cid] = Arr("list", num(n - 1), lambda i: zero, "f")
        o = method(c, obj, "add_phase", [zero], st=st)
        if o.value is None or o.raises:
            hit = raise_reached(o, P)
            out.append(finding(VIOLATED if hit else UNDECIDED, "every sample is accepted", where, "%s: sample %d: %s" % (tag, n, hit[0] if hit else raises_names(o))))
            break
        st = o.st
        L = lengths(c, obj, st)
        if len(set(L.values())) > 1:
            out.append(finding(VIOLATED, "arrays stay in lockstep", where, "%s: after %d samples the lengths are %s" % (tag, n, L)))
            break
        afs, st = factors(c, obj, st)
        if afs is None:
            out.append(finding(UNDECIDED, "factors in service", where, "%s: not concrete" % tag))
            break
        if not check_grid(cname, n, afs, ppd, tag, where, out):
            break
        done = n
    if done:
        out.append(finding(PROVED, "every computable factor is in service", where, "%s: lengths equal and grid complete at each of %d stream lengths" % (tag, done)))
    if grafts:
        out.append(finding(PROVED, "value equals the batch value from the first term on", where, "%s: %d openings of a factor" % (tag, grafts)))
    return out, coverage_of(c.I)


def graft(c, cname, obj, st, n, af, tag, where, out, P):
    """state after n samples x[0..n-1], then sample n; factor af"""
    st = st.copy() if hasattr(st, "copy") else st.fork()
    afs, st = factors(c, obj, st)
    if afs is None:
        return True
    at_ = c.I.deref(st, obj).attrs
    xr = c.refarray(num(n), "x")
    a, b = CLASSES[cname][1:]
    other = {f: el("other", num(k)) for k, f in enumerate(SUMS[cname])}
    sums = [run_sums(c, cname, xr, n, int(m)) if m == af else other for m in afs]
    for f in SUMS[cname]:
        st.heap[at_[f].cid] = c.I.list_arr([s_[f] for s_ in sums], "nd", "f")
    st.heap[at_["dev"].cid] = c.I.list_arr([el("held", num(k)) if n >= a * m + b else ZERO for k, m in enumerate(afs)], "nd", "f")
    st.heap[at_["x"].cid] = Arr("list", num(n), lambda i: el("x", i), "f")
    o = method(c, obj, "add_phase", [el("x", num(n))], st=st)
    if o.value is None:
        out.append(finding(UNDECIDED, "value equals the batch value from the first term on", where, "%s: %s" % (tag, raises_names(o))))
        return False
    st = o.st
    afs, st = factors(c, obj, st)
    v, o2 = result(c, obj, "devs", st)
    got = entries(c, v, o2.st) if v is not None else None
    if got is None or afs is None or len(got) != len(afs):
        out.append(finding(UNDECIDED if got is None or afs is None else VIOLATED, "arrays stay in lockstep", where, tag))
        return False
    x1 = c.refarray(num(n + 1), "x")
    ok = True
    for j, m in enumerate(afs):
        if m != af:
            continue
        w = batch(c, cname, x1, num(m)) if n + 1 >= a * m + b else ZERO
        v1, why = same(got[j], w, P)
        if v1 == VIOLATED:
            out.append(finding(v1, "value equals the batch value from the first term on", where, "%s, factor %s at sample %d: %s" % (tag, m, n + 1, why)))
            ok = False
    return ok


def obligations(tier):
    obs = []
    for cname in CLASSES:
        for ppd, extra, feed in ((None, None, "phase"), (1, None, "phase"), (2, None, "freq"), (3, None, "phase"), (5, None, "phase"),
                                 (10, None, "phase"), (24, None, "phase"), (40, None, "phase"), (4, [1, 2], "phase"), (4, [7], "phase"), (6, [2, 4, 8], "freq")):
            obs.append(Ob("stream/%s/%s/%s/%s" % (cname, ppd, feed, extra and len(extra)), stream_ob, cname, ppd, extra, feed, 24 if tier == "quick" else 45))
        for ppd in (1, 2, 3, 4, 5, 7, 10, 24):
            obs.append(Ob("long/%s/%d" % (cname, ppd), long_ob, cname, ppd, 240 if tier == "quick" else 2200))
    return obs
