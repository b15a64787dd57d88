"""C20: noise generators and noise models use the published scale."""
from forms import *
from props.p_c19 import NZ, KD

EXPLANATION = ("the generators are abstractly interpreted with the draws of numpy's normal generator as free symbols: each returned sample "
               "is a value number in those symbols, compared with the published scale times the draw (white), its running sum (brown), "
               "its difference (violet) or its filter recursion (Kasdin; the product of transforms is decided as a circular "
               "convolution).  The spectrum assembled by timmer_koenig_from_psd is compared bin by bin with the piecewise power law, "
               "its independence and its Hermitian symmetry.  The Kasdin model's predicted levels are compared with the published "
               "functions of qd, tau0 and tau for each noise exponent.")


def normals(e):
    """names of the unit-normal draw arrays in a value number; None if other
    distributions occur"""
    out = set()

    def walk(x):
        if isinstance(x, E):
            for m in x.t:
                for aid, _ in m:
                    a = alg.atom(aid)
                    if a.kind == "el" and isinstance(a.args[0], str) and a.args[0].startswith(("randn~", "rand~")):
                        out.add(a.args[0])
                    for y in a.args:
                        walk(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                walk(y)
        elif isinstance(x, alg.PWKey):
            walk(x.pieces)
        elif isinstance(x, Cond):
            walk(x.args)
    walk(e)
    return out


def colour_ob(fname, mode):
    where = def_site(NZ, fname)
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    c = Case(slack={n: s + i + 2})
    b, fs = sym("b", pos=True), sym("fs", pos=True)
    key = {"white": "b0", "brown": "b_minus2", "violet": "b2"}[fname]
    if mode == "keyword":
        o = c.call(NZ, fname, [], {"num_points": n, key: b, "fs": fs})
    elif mode == "positional":
        o = c.call(NZ, fname, [n, b, fs])
    else:
        o = c.call(NZ, fname, [n])
        b = fs = ONE
    cov = coverage_of(c.I)
    tag = "%s, %s arguments" % (fname, mode)
    g = value(c, o)
    if not isinstance(g, Arr):
        return [finding(UNDECIDED, "scale", where, "%s: no array" % tag)], cov
    x = g.at(i)
    rn = normals(x) if isinstance(x, E) else set()
    P = c.points({s: [0, 1, 5], i: [0, 1, 4]}, 6)
    if len(rn) != 1:
        return [finding(UNDECIDED, "scale", where, "%s: %d draws" % (tag, len(rn)))], cov
    r = rn.pop()
    if not r.startswith("randn~"):
        return [finding(VIOLATED, "scale", where, "%s: the draw is not normally distributed" % tag)], cov
    pi2 = alg.PI * alg.PI
    if fname == "white":
        w = root(b * fs / 2) * el(r, i)
    elif fname == "brown":
        k = alg.fresh("k", int=True, nonneg=True)
        w = root(4 * pi2 * b * fs / 2) / fs * alg.summation(el(r, k), k, ZERO, i + 1)
    else:
        w = fs * root(b / (4 * pi2) * fs / 2) * (el(r, i + 1) - el(r, i))
    v, why = same(x, w, P)
    return [finding(v, "scale", where, "%s: %s" % (tag, why))], cov


# ------------------------------------------------------------------ Kasdin


class FT(object):
    """transforms of explicitly known arrays; products become convolutions"""

    def __init__(self):
        self.src = {}
        self.bad = []

    def stubs(self):
        return {"ext:numpy.fft.rfft": self.fwd("rfft"), "ext:numpy.fft.fft": self.fwd("fft"),
                "ext:numpy.fft.irfft": self.inv("irfft"), "ext:numpy.fft.ifft": self.inv("ifft")}

    def fwd(self, name):
        def f(I, args, kw, st, node, fr):
            a = I.arr(st, args[0])
            its = [I.to_e(st, v) for v in a.items()] if a is not None and a.items() is not None else None
            n = args[1] if len(args) > 1 else kw.get("n")
            if its is None or set(kw) - {"n"} or len(args) > 2:
                return None
            if isinstance(n, E):
                n = n.const()
                if n is None:
                    return None
                its = (its + [ZERO] * int(n))[:int(n)]
            nm = "FT%d" % len(self.src)
            self.src[nm] = its
            k = len(its) // 2 + 1 if name == "rfft" else len(its)
            return I.alloc(st, Arr("nd", num(k), lambda i: el(nm, i), "c"))
        return f

    def inv(self, name):
        def f(I, args, kw, st, node, fr):
            a = I.arr(st, args[0])
            if a is None or set(kw) - {"n"} or len(args) > 2:
                return None
            n = args[1] if len(args) > 1 else kw.get("n")
            n = I.to_e(st, n) if n is not None and not (isinstance(n, Const) and n.v is None) else (2 * (a.n - 1) if name == "irfft" else a.n)
            n = n.const()
            k = alg.fresh("k", int=True, nonneg=True)
            e = a.at(k)
            if n is None or not isinstance(e, E):
                return None
            n = int(n)
            tot = [ZERO] * n
            for m, cf in e.t.items():
                fac, co = [], E({(): cf})
                for aid, x in m:
                    at = alg.atom(aid)
                    if at.kind == "el" and at.args[0] in self.src:
                        if lift(at.args[1]) != k or not isinstance(x, int) or x < 0:
                            return None
                        fac += [self.src[at.args[0]]] * int(x)
                    else:
                        at_e = E({((aid, x),): 1})
                        if alg.depends(at_e, k):
                            return None
                        co = co * at_e
                if not fac or any(len(q) != n for q in fac):
                    return None
                v = fac[0]
                for q in fac[1:]:
                    v = [sum((v[j] * q[(t - j) % n] for j in range(n)), ZERO) for t in range(n)]
                tot = [x + co * y for x, y in zip(tot, v)]
            return I.alloc(st, I.list_arr(tot, "nd", "f"))
        return f


def kasdin_ob(nr, b):
    where = def_site(KD, "Noise.generateNoise")
    ft = FT()
    c = Case(stubs=ft.stubs())
    qd = sym("qd", pos=True)
    bb = sym("b") if b is None else num(b)
    o = construct(c, KD, "Noise", [], {"nr": num(nr), "qd": qd, "b": bb})
    obj = o.value
    o = method(c, obj, "generateNoise", [], {}, o.st)
    cov = coverage_of(c.I)
    ts = attr(c, obj, "time_series", o.st)
    tag = "nr=%d b=%s" % (nr, b if b is not None else "any")
    if not isinstance(ts, Arr) or ts.items() is None or len(ts.items()) != nr:
        return [ends(o, c.points({qd: [F(1), F(3)]}, 2), "filter recursion", where, "%s: time series not recognised" % tag)], cov
    xs = [c.I.to_e(o.st, v) for v in ts.items()]
    rn = set()
    for x in xs:
        rn |= normals(x)
    if len(rn) != 1:
        return [finding(UNDECIDED, "filter recursion", where, "%s: %d draws" % (tag, len(rn)))], cov
    r = rn.pop()
    if not r.startswith("randn~"):
        return [finding(VIOLATED, "filter recursion", where, "%s: the draw is not normally distributed" % tag)], cov
    h = [ONE]
    for k in range(1, nr):
        h.append(h[-1] * (-bb / 2 + k - 1) / k)
    P = c.points({qd: [F(1), F(4), F(1, 9)]}, 4)
    for t in range(nr):
        w = ZERO
        for j in range(t + 1):
            w = w + h[j] * root(qd) * el(r, num(t - j))
        v, why = same(xs[t], w, P)
        if v != PROVED:
            return [finding(v, "filter recursion", where, "%s, sample %d: %s" % (tag, t, why))], cov
    return [finding(PROVED, "filter recursion", where, "%s: all %d samples equal" % (tag, nr))], cov


PREF = {  # coefficients of h_a, [Vernotte2015] Table I / SP1065 / [Dawkins2007]
    "adev_from_qd": "adev", "mdev_from_qd": "mdev", "pdev_from_qd": "pdev"}


def model_ob(meth, b, mode):
    where = def_site(KD, "Noise." + meth)
    c = Case()
    qd, t0, tau = sym("qd", pos=True), sym("t0", pos=True), sym("tau", pos=True)
    o = construct(c, KD, "Noise", [], {"nr": num(4), "qd": qd, "b": num(b)})
    obj = o.value
    needtau = meth not in ("phase_psd_from_qd", "frequency_psd_from_qd", "c_avar", "c_mvar")
    if meth in ("c_avar", "c_mvar"):
        o = method(c, obj, meth, [], {}, o.st)
    elif mode == "keyword":
        o = method(c, obj, meth, [], {"tau0": t0, "tau": tau} if needtau else {"tau0": t0}, o.st)
    elif mode == "positional":
        o = method(c, obj, meth, [t0, tau] if needtau else [t0], {}, o.st)
    else:
        o = method(c, obj, meth, [], {}, o.st)
        t0 = tau = ONE
    cov = coverage_of(c.I)
    tag = "%s b=%d %s arguments" % (meth, b, mode)
    P = c.points({qd: [F(1), F(4), F(1, 9)], sym("t0", pos=True): [F(1), F(1, 8), F(5, 2)], sym("tau", pos=True): [F(30), F(8), F(50, 3)]}, 6)
    if o.value is None:
        return [finding(VIOLATED if o.raises else UNDECIDED, "predicted level", where, "%s: raises %s" % (tag, raises_names(o)))], cov
    w = rvalue(c, c.ref("noise_" + meth if meth in ("adev", "mdev") else meth, [qd, num(b), t0, tau]))
    v, why = near(value(c, o), w, P, 1.5e-3)
    return [finding(v, "predicted level", where, "%s: %s" % (tag, why))], cov


# ------------------------------------------------------------- Timmer-Koenig


def timmer_ob(n, nseg, output, nodeless=False):
    where = def_site(NZ, "timmer_koenig_from_psd")
    dt = sym("dt", pos=True)
    rec = []

    def ifft(I, args, kw, st, node, fr):
        a = I.arr(st, args[0])
        rec.append((a, st.fork(), node, len(args) > 1 or bool(kw)))
        return I.alloc(st, Arr("nd", a.n, lambda i: el("re", i) + alg.IMAG * el("im", i), "c"))
    c = Case(stubs={"ext:numpy.fft.ifft": ifft})
    nn = 0 if nodeless else nseg - 1
    f, h, a = c.array(num(nn), "fn"), c.array(num(nseg), "h"), c.array(num(nseg), "al")
    o = c.call(NZ, "timmer_koenig_from_psd", [f, h, a, n * dt, dt], {"output": Const(output)})
    cov = coverage_of(c.I)
    tag = "%d points, %d segments, output=%s" % (n, nseg, output)
    g = value(c, o)
    if not isinstance(g, Arr) or len(rec) != 1 or rec[0][0] is None or rec[0][3] or rec[0][0].items() is None:
        return [ends(o, c.points({}, 2), "spectrum", where, "%s: inverse transform not recognised" % tag)], cov
    X, st, node, _ = rec[0]
    where = where + " (inverse transform at line %s)" % getattr(node, "lineno", "?")
    xs = [c.I.to_e(st, v) for v in X.items()]
    out = []
    # points: node positions so that grid lines fall in every interval and on a node
    P = c.points({dt: [F(1), F(1, 4), F(5, 2)]}, 6)
    for q, p in enumerate(P):
        d = F(p.ev(dt))
        f1, fN = 1 / ((n - 1) * d), 1 / (2 * d)
        grid = [f1 + (fN - f1) * F(j) / (n // 2) for j in range(n // 2 + 1)]
        cut = sorted((q * 7 + 3 * j + 1) % (n // 2 + 1) for j in range(nn))
        nodes = []
        for j, u in enumerate(sorted(cut)):
            x = grid[u] if q % 3 == 0 else grid[u] + (grid[1] - grid[0]) * F(1 + j, 3 + nn)
            while nodes and x <= nodes[-1]:
                x = nodes[-1] + (grid[1] - grid[0]) / 5
            nodes.append(x)
        hs = [F(j + 2, 3) for j in range(nseg)]
        als = [(-2, -1, 0, 1, 2)[(q + 2 * j) % 5] for j in range(nseg)]
        tab = {"fn": nodes, "h": hs, "al": als}
        old = p.arrays
        p.arrays = Table(tab, old)
        p.grid, p.nodes, p.hs, p.als = grid, nodes, hs, als
    v, why = same(xs[0], ZERO, P)
    out.append(finding(v, "no constant term", where, "%s: %s" % (tag, why)))
    used = {}
    for j in range(1, n // 2 + 1):
        names = draws(xs[j])
        if not names and not opaque_atoms(xs[j]):
            out.append(finding(VIOLATED, "two independent draws per frequency", where, "%s, bin %d: the coefficient %s contains no draw" % (tag, j, alg.estr(xs[j])[:80])))
            continue
        if len(names) != 2:
            out.append(finding(UNDECIDED, "two independent draws per frequency", where, "%s, bin %d: %d draws" % (tag, j, len(names))))
            continue
        for nm in names:
            if nm in used:
                out.append(finding(VIOLATED, "draws of different frequencies are independent", where, "%s: bins %d and %d share a draw" % (tag, used[nm], j)))
            used[nm] = j
        if not all(str(alg.atom(k).args[0]).startswith("randn~") for k in names):
            out.append(finding(VIOLATED, "draws are normally distributed", where, "%s, bin %d" % (tag, j)))
            continue
        bad = None
        ok = 0
        for p in P:
            try:
                co = []
                for k in names:
                    vals = {kk: 0 for kk in names}
                    vals[k] = 1
                    e = alg.subst(xs[j], {kk: num(vv) for kk, vv in vals.items()})
                    co.append(complex(p.ev(e)))
                z = alg.subst(xs[j], {kk: ZERO for kk in names})
                z = complex(p.ev(z))
                f0 = p.grid[j]
                # at a break frequency either neighbouring segment is right
                segs = sorted({sum(1 for x in p.nodes if f0 >= x), sum(1 for x in p.nodes if f0 > x)})
                amps = [(float(p.hs[g]) * float(f0) ** p.als[g]) ** 0.5 / (2 * 3.141592653589793 * float(f0)) / 2 for g in segs]
                amp = min(amps, key=lambda y: abs(y - abs(co[0])))
                seg = segs[amps.index(amp)]
            except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError) as ex:
                continue
            t = 1e-7 * amp
            good = abs(abs(co[0]) - amp) < t and abs(abs(co[1]) - amp) < t and abs(z) < t and abs(abs(co[0] + 1j * co[1]) * abs(co[0] - 1j * co[1])) < 4 * t * amp
            if not good:
                bad = "bin %d at f=%.6g, segment %d: amplitudes %.6g and %.6g, expected %.6g" % (j, float(f0), seg, abs(co[0]), abs(co[1]), amp)
                break
            ok += 1
        if opaque_atoms(xs[j]):
            out.append(finding(UNDECIDED, "spectral amplitude", where, "%s, bin %d: unmodelled construct" % (tag, j)))
        elif bad:
            out.append(finding(VIOLATED, "spectral amplitude", where, "%s: %s" % (tag, bad)))
        else:
            out.append(finding(AGREED if ok >= 2 else UNDECIDED, "spectral amplitude", where, "%s, bin %d: %d points" % (tag, j, ok)))
    for j in range(1, (n + 1) // 2):
        w = xs[j]
        v, why = same(xs[n - j], conj(w), P)
        out.append(finding(v, "Hermitian symmetry", where, "%s, bin %d: %s" % (tag, n - j, why)))
    sc = root((n - 1) / dt)
    for j in range(n):
        if output == "phase":
            w = sc * el("re", num(j))
        else:
            w = ZERO if j == 0 else sc * (el("re", num(j)) - el("re", num(j - 1))) / dt
        v, why = same(c.I.deref(o.st, g.at(num(j))), w, P)
        out.append(finding(v, "scaled inverse transform", where, "%s, sample %d: %s" % (tag, j, why)))
    return out, cov


class Table(object):
    def __init__(self, tab, old):
        self.tab, self.old = tab, old

    def get(self, name):
        if name in self.tab:
            return lambda i: self.tab[name][i]
        return self.old.get(name)


def conj(e):
    iid = the_atom(alg.IMAG).id
    return alg.subst(e, {iid: -alg.IMAG})


def draws(e):
    out = []
    for m in e.t:
        for aid, _ in m:
            a = alg.atom(aid)
            if a.kind == "el" and isinstance(a.args[0], str) and a.args[0].startswith(("randn~", "rand~")) and aid not in out:
                out.append(aid)
    if not out:
        # below a factored sum
        for aid in alg.free_syms(e):
            a = alg.atom(aid)
            if a.kind == "el" and isinstance(a.args[0], str) and a.args[0].startswith(("randn~", "rand~")) and aid not in out:
                out.append(aid)
    return sorted(out)


def psd_ob():
    """numpy_psd: one-sided periodogram"""
    where = def_site(NZ, "numpy_psd")
    n = sym("n", int=True, pos=True, w=20)
    s = sym("s", int=True, nonneg=True)
    i = sym("i", int=True, nonneg=True)
    fs = sym("fs", pos=True)
    c = Case(slack={n: s + i + 2}, stubs={"ext:numpy.fft.rfft": lambda I, args, kw, st, node, fr:
                                          I.alloc(st, Arr("nd", alg.floor_(I.arr(st, args[0]).n / 2) + 1, lambda k: el("re", k) + alg.IMAG * el("im", k), "c"))})
    o = c.call(NZ, "numpy_psd", [c.array(n, "x"), fs])
    cov = coverage_of(c.I)
    P = c.points({s: [0, 1, 2, 5], i: [0, 1, 3]}, 6)
    out = []
    f, g = value(c, o, 0), value(c, o, 1)
    if not isinstance(f, Arr) or not isinstance(g, Arr):
        return [finding(UNDECIDED, "periodogram", where, "no arrays")], cov
    v, why = same(f.at(i), i * fs / 2 / alg.floor_(n / 2), P)
    out.append(finding(v, "frequency axis from zero to the Nyquist frequency", where, why))
    v, why = same(g.at(i), 2 * (el("re", i) ** 2 + el("im", i) ** 2) / (n * fs), P)
    out.append(finding(v, "one-sided density", where, why))
    return out, cov


def ctz(i):
    c = 0
    while not i >> c & 1:
        c += 1
    return c


def pink_ob(n, depth, func="pink"):
    """every sample: depth current sources and one fresh draw, all of unit
    scale; source c is renewed where the index has c trailing zeros"""
    where = def_site(NZ, "iterpink")
    c = Case({}, budget=4000000)
    o = c.call(NZ, "pink", [num(n)], {"depth": num(depth)})
    cov = coverage_of(c.I)
    a = value(c, o)
    rule, rule2 = "sum of depth + 1 distinct unit draws", "source c renewed where the index has c trailing zeros"
    if not isinstance(a, Arr) or a.n.const() is None:
        return [ends(o, c.points({}, 2), rule, where, "no samples")], cov
    out = []
    rows = []
    for k in range(int(a.n.const())):
        e = a.at(num(k))
        if not isinstance(e, E) or is_opaque(e):
            return [finding(UNDECIDED, rule, where, "sample %d: %s" % (k, e))], cov
        ds = set()
        bad = None
        for mm, q in e.t.items():
            at = alg.atom(mm[0][0]) if len(mm) == 1 and mm[0][1] == 1 else None
            if at is None or at.kind != "el" or not str(at.args[0]).startswith("randn~"):
                return [finding(UNDECIDED, rule, where, "sample %d is not a sum of draws: %s" % (k, e))], cov
            if q != 1:
                bad = "draw %s has weight %s" % (alg.estr(E({mm: F(1)})), q)
            ds.add(at.id if hasattr(at, "id") else mm[0][0])
        if bad is None and len(ds) != depth + 1:
            bad = "%d distinct draws, expected %d" % (len(ds), depth + 1)
        if bad:
            out.append(finding(VIOLATED, rule, where, "pink(%d, %d) sample %d: %s" % (n, depth, k, bad)))
            return out, cov
        rows.append(ds)
    out.append(finding(PROVED, rule, where, "pink(%d, %d): %d samples" % (n, depth, len(rows))))
    # a draw that left never comes back
    alive = {}
    for k, ds in enumerate(rows):
        for d in ds:
            if d in alive and alive[d] != k - 1:
                out.append(finding(VIOLATED, "one fresh draw per sample", where, "pink(%d, %d): sample %d uses a draw again that sample %d used" % (n, depth, k, alive[d])))
                return out, cov
            alive[d] = k
    out.append(finding(PROVED, "one fresh draw per sample", where, "pink(%d, %d): every draw occurs in consecutive samples" % (n, depth)))
    # lifetimes inside the first block
    L = min(depth, len(rows))
    life = {}
    for k in range(L):
        for d in rows[k]:
            life.setdefault(d, []).append(k)
    got = {}
    for d, ks in life.items():
        if ks != list(range(ks[0], ks[-1] + 1)):
            out.append(finding(VIOLATED, rule2, where, "pink(%d, %d): a draw occurs in samples %s" % (n, depth, ks)))
            return out, cov
        got[(ks[0], ks[-1])] = got.get((ks[0], ks[-1]), 0) + 1
    want = {}

    def add(b, e):
        want[(b, min(e, L - 1))] = want.get((b, min(e, L - 1)), 0) + 1
    for k in range(L):
        add(k, k)
    for c_ in range(depth):
        add(0, (1 << c_) - 1 if c_ < 20 else L)
    for k in range(1, L):
        add(k, k + (1 << ctz(k) + 1) - 1)
    miss = {k: v for k, v in want.items() if got.get(k, 0) != v}
    more = {k: v for k, v in got.items() if want.get(k, 0) != v}
    out.append(finding(VIOLATED if miss or more else PROVED, rule2, where,
                       "pink(%d, %d): %s" % (n, depth, "draws living over samples %s, expected %s" % (sorted(more.items())[:4], sorted(miss.items())[:4]) if miss or more
                                             else "lifetimes of %d draws" % len(life))))
    return out, cov


def obligations(tier):
    obs = []
    for n, depth in ((3, 2), (6, 4), (9, 8), (20, 8), (33, 32), (5, 80)) + (((70, 64), (100, 16), (40, 80)) if tier == "thorough" else ()):
        obs.append(Ob("pink/%d/%d" % (n, depth), pink_ob, n, depth))
    for fname in ("white", "brown", "violet"):
        for mode in ("keyword", "positional", "default"):
            obs.append(Ob("%s/%s" % (fname, mode), colour_ob, fname, mode))
    for b in (None, 0, -1, -2, -3, -4):
        for nr in (2, 4, 8) if tier == "quick" else (2, 4, 8, 16, 32):
            obs.append(Ob("kasdin/%s/%d" % (b, nr), kasdin_ob, nr, b))
    for b in (0, -1, -2, -3, -4):
        for meth in ("phase_psd_from_qd", "frequency_psd_from_qd", "c_avar", "c_mvar", "adev_from_qd", "mdev_from_qd", "pdev_from_qd", "adev", "mdev"):
            modes = ("keyword",) if meth[:2] == "c_" else ("keyword", "positional") if meth in ("adev", "mdev") else ("keyword", "positional", "default")
            for mode in modes:
                obs.append(Ob("model/%s/%d/%s" % (meth, b, mode), model_ob, meth, b, mode))
    for output in ("phase", "freq"):
        for n in (8, 9) if tier == "quick" else (4, 5, 6, 7, 8, 9, 12, 15):
            for nseg in (1, 2, 3, 4):
                obs.append(Ob("timmer/%d/%d/%s" % (n, nseg, output), timmer_ob, n, nseg, output))
    obs.append(Ob("numpy_psd", psd_ob))
    return obs
