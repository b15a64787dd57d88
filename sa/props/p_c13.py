"""C13: streaming estimators against the batch definitions."""
from forms import *

RT = "allantools.realtime"
CLASSES = {"oadev_realtime": ("oadev", 2, 1), "ohdev_realtime": ("ohdev", 3, 1), "tdev_realtime": ("tdev", 3, 0)}   # terms need N >= a m + b
SUMS = {"oadev_realtime": ("S",), "ohdev_realtime": ("S",), "tdev_realtime": ("S", "So")}
EXPLANATION = ("(a) Every class is constructed and fed symbolic samples one by one by abstract interpretation; after every sample the value "
               "number of each held deviation is compared with the defining batch formula of the samples so far (zero before the first "
               "term).  (b) The fields' values in those runs identify the running-sum invariant; one step from a state satisfying it, with "
               "the stream length, the factor and the data all symbolic, is then shown to hold the batch value again (induction over the "
               "length of the stream).")
tau0 = sym("tau0", pos=True, w=3)
TAU0S = [F(1), F(5, 2), F(1, 4), F(3)]


def sample_points(c, free=None, count=4):
    f = {tau0: TAU0S}
    f.update(free or {})
    return c.points(f, count, wide=list(free or ()))


def batch(c, cname, x, m):
    """value number of the batch deviation of the samples x (an array of the reference interpreter)"""
    ref, a, b = CLASSES[cname]
    o = c.ref(ref, [x, 1 / tau0, m])
    return rvalue(c, o, 0)


def listed(c, values):
    return c.R.alloc(c.rst, c.R.list_arr(list(values), "list"))


def run_sums(c, cname, x, n, m):
    """the invariant: field -> value number after the samples x (n of them), concrete n and m"""
    g = lambda f: rvalue(c, c.ref(f, [x, num(m)]))
    if cname == "tdev_realtime":
        s = ZERO if n <= 2 * m else g("tdev_window") if n < 3 * m else g("tdev_last_window")
        return {"S": s, "So": g("tdev_running") if n >= 3 * m else ZERO}
    f, a = ("oadev_running", 2) if cname == "oadev_realtime" else ("ohdev_running", 3)
    return {"S": g(f) if n > a * m else ZERO}


def container(c, afs, kind):
    items = [num(a) for a in afs]
    if kind == "tuple":
        return Tup(tuple(items))
    return c.I.alloc(c.st, c.I.list_arr(items, "nd" if kind == "array" else "list"))


def get(c, obj, name, st):
    try:
        fr = ip.Frame(None, c.I)
        return c.I.deref(st, c.I.getattr_(obj, name, st, fr, None))
    except ip.PathEnd:
        return None


def result(c, obj, meth, st):
    o = method(c, obj, meth, st=st)
    if o.value is None:
        return None, o
    return c.I.deref(o.st, o.value), o


def entries(c, v, st):
    if isinstance(v, Tup):
        return [c.I.to_e(st, x) for x in v.items]
    if isinstance(v, Arr):
        k = v.n.const()
        if k is None:
            return None
        return [c.I.to_e(st, v.at(num(j))) for j in range(int(k))]
    return None


def at_zero_ok(got):
    return got is not None and got == ZERO


def check_state(c, cname, obj, st, afs, xs, tag, where, out, P, first=None):
    """held deviations against the batch values of the samples xs"""
    n = len(xs)
    x = listed(c, xs)
    v, o = result(c, obj, "devs", st)
    got = entries(c, v, o.st) if v is not None else None
    if got is None or len(got) != len(afs):
        out.append(finding(UNDECIDED if got is None else VIOLATED, "one deviation per averaging factor", where,
                           "%s, %d samples: %s held for factors %s" % (tag, n, None if got is None else len(got), afs)))
        return False
    ok = True
    a, b = CLASSES[cname][1:]
    want = []
    for j, m in enumerate(afs):
        if n >= a * m + b:
            w = batch(c, cname, x, num(m))
            v1, why = same(got[j], w, P)
        else:
            w = ZERO
            v1, why = (PROVED, "zero") if got[j] == ZERO else same(got[j], ZERO, P)
        want.append(w)
        if v1 != PROVED:
            ok = ok and v1 == AGREED
            out.append(finding(v1, "held deviation = batch deviation" if n >= a * m + b else "zero before the first term", where,
                               "%s, factor %d after %d samples: %s" % (tag, m, n, why)))
    return ok


def stream_ob(cname, afs, kind, feed, length):
    c = Case()
    out = []
    where = def_site("allantools.realtime", cname)
    tag = "%s(%s %s), %s" % (cname, kind, afs, feed)
    o = construct(c, RT, cname, [], {"afs": container(c, afs, kind), "tau0": tau0})
    if o.value is None:
        return [ends(o, sample_points(c), "construction", where, tag)], coverage_of(c.I)
    st, obj = o.st, o.value
    xs = []
    P = sample_points(c)
    ok = 0
    for i in range(length):
        fr = feed == "freq" or (feed == "mixed" and i % 3 == 2)
        if fr:
            if not xs:
                xs.append(ZERO)
            f = el("y", num(i))
            xs.append(xs[-1] + f * tau0)
            o = method(c, obj, "add_frequency", [f], st=st)
        else:
            xs.append(el("x", num(i)))
            o = method(c, obj, "add_phase", [xs[-1]], st=st)
        if raise_reached(o, P):
            out.append(finding(VIOLATED, "every sample is accepted", where, "%s: sample %d raises %s" % (tag, i + 1, raise_reached(o, P)[0])))
            break
        if o.value is None:
            out.append(finding(UNDECIDED, "every sample is accepted", where, "%s: sample %d: %s" % (tag, i + 1, raises_names(o))))
            break
        st = o.st
        if not check_state(c, cname, obj, st, afs, xs, tag, where, out, P):
            break
        ok += 1
    else:
        v, o = result(c, obj, "taus", st)
        got = entries(c, v, o.st) if v is not None else None
        for j, m in enumerate(afs):
            v1, why = same(got[j] if got and j < len(got) else None, num(m) * tau0, P)
            out.append(finding(v1, "averaging times = factor times sampling interval", where, "%s: %s" % (tag, why)))
        if cname == "tdev_realtime":
            v, o = result(c, obj, "mdev", st)
            got = entries(c, v, o.st) if v is not None else None
            x = listed(c, xs)
            for j, m in enumerate(afs):
                w = rvalue(c, c.ref("mdev", [x, 1 / tau0, num(m)]), 0) if len(xs) >= 3 * m else ZERO
                v1, why = same(got[j] if got and j < len(got) else None, w, P)
                out.append(finding(v1, "derived MDEV = batch MDEV", where, "%s, factor %d after %d samples: %s" % (tag, m, len(xs), why)))
            check_state(c, cname, obj, o.st, afs, xs, tag + " after mdev()", where, out, P)
    if ok:
        out.append(finding(PROVED, "held deviation = batch deviation", where, "%s: every factor at each of %d stream lengths" % (tag, ok)))
    return out, coverage_of(c.I)


def invariant_known(cname):
    """do the fields hold the running sums in the concrete runs, and is there no
    other state that changes while samples are added?"""
    c = Case()
    afs = [1, 2, 3]
    o = construct(c, RT, cname, [], {"afs": container(c, afs, "list"), "tau0": tau0})
    if o.value is None:
        return "not constructed"
    st, obj = o.st, o.value
    a0 = {k: c.I.deref(st, v) for k, v in c.I.deref(st, obj).attrs.items()}
    xs = []
    for i in range(12):
        xs.append(el("x", num(i)))
        o = method(c, obj, "add_phase", [xs[-1]], st=st)
        if o.value is None:
            return "not fed"
        st = o.st
        for f in SUMS[cname]:
            v = get(c, obj, f, st)
            got = entries(c, v, st) if isinstance(v, Arr) else None
            if got is None or len(got) != len(afs):
                return "no field " + f
            for j, m in enumerate(afs):
                if got[j] != run_sums(c, cname, listed(c, xs), i + 1, m)[f]:
                    return "field %s is not the running sum" % f
        v = get(c, obj, "x", st)
        got = entries(c, v, st) if isinstance(v, Arr) else None
        if got != xs:
            return "field x is not the samples so far"
    for k, v in c.I.deref(st, obj).attrs.items():
        if k in SUMS[cname] + ("x", "dev"):
            continue
        w = c.I.deref(st, v)
        if k not in a0 or not (w == a0[k] or w is a0[k]):
            return "field %s changes" % k
    return None


m = sym("m", int=True, pos=True, w=5)
N = sym("N", int=True, nonneg=True)
p = sym("p", int=True, nonneg=True)
s = sym("s", int=True, nonneg=True)
t = sym("t", int=True, nonneg=True)
FREE = {p: [0, 1, 2, 3], s: [0, 1, 2, 3], t: [0, 1, 2]}


def regimes(cname):
    """(name, stream length before, factor, kind)"""
    a = CLASSES[cname][1]
    if cname == "tdev_realtime":
        yield "even, too short", 2 * p, p + 1 + s, "zero"
        yield "odd, too short", 2 * p + 1, p + 1 + s, "zero"
        yield "window filling", 2 * (t + 2 + s) + t, t + 2 + s, "filling"
        yield "window full", 3 * (p + 2) - 1, p + 2, "full"
        yield "window full, factor 1", num(2), ONE, "full"
        yield "sliding", 3 * (p + 1) + s, p + 1, "slide"
    elif a == 2:
        yield "even, too short", 2 * p, p + 1 + s, "zero"
        yield "odd, too short", 2 * p + 1, p + 1 + s, "zero"
        yield "first and later terms", 2 * (p + 1) + s, p + 1, "sum"
    else:
        for e in (0, 1, 2):
            yield "3p+%d, too short" % e, 3 * p + e, p + 1 + s, "zero"
        yield "first and later terms", 3 * (p + 1) + s, p + 1, "sum"


def step_ob(cname, reg, feed):
    where = def_site("allantools.realtime", cname)
    name, n0, af, kind = [r for r in regimes(cname) if r[0] == reg][0]
    tag = "%s, one %s sample more, stream of %s, factor %s" % (cname, feed, alg.estr(n0), alg.estr(af))
    why = invariant_known(cname)
    c = Case()
    if why:
        return [finding(UNDECIDED, "inductive step", where, "%s: invariant not recognised (%s)" % (tag, why))], coverage_of(c.I)
    afs = c.I.alloc(c.st, c.I.list_arr([af], "list"))
    o = construct(c, RT, cname, [], {"afs": afs, "tau0": tau0})
    if o.value is None:
        return [finding(UNDECIDED, "inductive step", where, tag + ": not constructed")], coverage_of(c.I)
    st, obj = o.st, o.value
    at_ = c.I.deref(st, obj).attrs
    xr = c.refarray(n0, "x")
    g = lambda f: rvalue(c, c.ref(f, [xr, af]))
    z = {f: ZERO for f in SUMS[cname]}
    if kind == "sum":
        z["S"] = g("oadev_running" if cname == "oadev_realtime" else "ohdev_running")
    elif kind in ("filling", "full"):
        z["S"] = g("tdev_window")
    elif kind == "slide":
        z["S"] = g("tdev_last_window")
        z["So"] = g("tdev_running")
    for f, v in z.items():
        st.heap[at_[f].cid] = c.I.list_arr([v], "nd", "f")
    st.heap[at_["x"].cid] = Arr("list", lift(n0), lambda i: el("x", i), "f")
    before = ZERO if kind in ("zero", "filling", "full") else el("dev0", ZERO)
    st.heap[at_["dev"].cid] = c.I.list_arr([before], "nd", "f")
    P = sample_points(c, FREE, 8)
    if feed == "phase":
        new = el("x", n0)
        o = method(c, obj, "add_phase", [new], st=st)
    else:
        if n0 == ZERO or n0.const() is None and kind == "zero":
            return [], {}
        new = el("x", n0 - 1) + el("y", ZERO) * tau0
        o = method(c, obj, "add_frequency", [el("y", ZERO)], st=st)
    out = []
    if raise_reached(o, P):
        return [finding(VIOLATED, "every sample is accepted", where, "%s: raises %s" % (tag, raise_reached(o, P)[0]))], coverage_of(c.I)
    if o.value is None:
        return [finding(UNDECIDED, "inductive step", where, "%s: %s" % (tag, raises_names(o)))], coverage_of(c.I)
    st = o.st
    v, o2 = result(c, obj, "devs", st)
    got = entries(c, v, o2.st) if v is not None else None
    got = got[0] if got and len(got) == 1 else None
    x1 = c.R.alloc(c.rst, Arr("list", lift(n0) + 1, lambda i: ext(i, n0, new), "f"))
    want = batch(c, cname, x1, af) if kind not in ("zero", "filling") else ZERO
    if kind == "zero":
        want = ZERO
    v1, why = same(got, want, P)
    if kind == "sum" or kind == "slide" or kind == "full":
        out.append(finding(v1, "held deviation = batch deviation after one more sample", where, "%s: %s" % (tag, why)))
    else:
        out.append(finding(v1, "zero before the first term", where, "%s: %s" % (tag, why)))
    # the invariant holds again
    h = lambda f: rvalue(c, c.ref(f, [x1, af]))
    nx = {"zero": {"S": ZERO, "So": ZERO}, "filling": {"S": "tdev_window", "So": ZERO},
          "full": {"S": "tdev_last_window", "So": "tdev_running"}, "slide": {"S": "tdev_last_window", "So": "tdev_running"},
          "sum": {"S": "oadev_running" if cname == "oadev_realtime" else "ohdev_running"}}[kind]
    for f in SUMS[cname]:
        vv = get(c, obj, f, st)
        e = entries(c, vv, st) if isinstance(vv, Arr) else None
        w = nx[f] if not isinstance(nx[f], str) else h(nx[f])
        v1, why = same(e[0] if e else None, w, P)
        out.append(finding(UNDECIDED if v1 == VIOLATED else v1, "running sum kept", where, "%s, field %s: %s" % (tag, f, why)))
    vx = get(c, obj, "x", st)
    if isinstance(vx, Arr):
        v1, why = same(vx.n, lift(n0) + 1, P)
        v2, why2 = same(c.I.to_e(st, vx.at(lift(n0))), new, P)
        v1 = UNDECIDED if VIOLATED in (v1, v2) or v1 == UNDECIDED else v2
        out.append(finding(v1, "samples kept", where, "%s: %s; %s" % (tag, why, why2)))
    return out, coverage_of(c.I)


def ext(i, n0, new):
    i = lift(i)
    if new == el("x", n0):
        return el("x", i)
    return alg.ite(alg.c_cmp("lt", i - n0), el("x", i), new)


def obligations(tier):
    obs = []
    L = 14 if tier == "quick" else 30
    for cname in CLASSES:
        for afs, kind, feed in (((1,), "list", "phase"), ((1, 2, 3), "list", "phase"), ((3, 1), "array", "phase"), ((2, 4), "tuple", "phase"),
                                ((1, 2), "list", "freq"), ((3,), "array", "freq"), ((2, 1), "list", "mixed"), ((2, 2), "list", "phase"),
                                ((4,), "list", "phase"), ((50, 1), "list", "phase")):
            obs.append(Ob("stream/%s/%s/%s/%s" % (cname, "-".join(map(str, afs)), kind, feed), stream_ob, cname, list(afs), kind, feed, L))
        for reg in regimes(cname):
            for feed in ("phase", "freq"):
                if feed == "freq" and reg[3] == "zero":
                    continue
                obs.append(Ob("step/%s/%s/%s" % (cname, reg[0], feed), step_ob, cname, reg[0], feed))
    return obs
