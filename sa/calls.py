"""Analysis contexts of every public function and method of the package: who
calls what with which arguments.  Used by the checks that quantify over the
whole interface (inputs unchanged, no hidden state, no internal errors)."""
import itertools
from forms import *
import lib2

NZ = "allantools.noise"
KD = "allantools.noise_kasdin"
RT = "allantools.realtime"
MK = "allantools.mask"
DS = "allantools.dataset"
PL = "allantools.plot"

N = sym("N", int=True, pos=True, w=1000)
s = sym("s", int=True, nonneg=True, w=1)
m = sym("m", int=True, pos=True, w=2)
u = sym("u", int=True, nonneg=True)
K = sym("K", int=True, pos=True, w=20)
k0 = sym("k", int=True, nonneg=True)
rate = sym("rate", pos=True, w=3)
rate2 = sym("rate2", pos=True, w=3)
V1, V2 = sym("v1", pos=True, w=5), sym("v2", pos=True, w=5)
VPOOL = [F(1, 4), F(3, 4), F(1), F(5, 4), F(2), F(5, 2), F(9), F(10), F(11), F(150), F(1000), F(2000), F(10**5)]
MRATES = [F(1), F(2), F(1, 4), F(3, 4), F(5, 2)]

alg.POS_ARRAYS |= {"tau", "tau2", "fn", "fn2", "h", "h2", "al", "al2", "S", "S2", "freqs", "adev", "adev2", "n_a"}


class Call(object):
    def __init__(self, args=(), kw=None, watch=(), recv=None, meth=None):
        self.args = list(args)
        self.kw = dict(kw or {})
        self.watch = list(watch)      # (label, reference)
        self.recv, self.meth = recv, meth


class Entry(object):
    """name, module, function, number of contexts, builder(case, tag) -> Call"""

    def __init__(self, name, mod, func, build, slack=None, free=None, stubs=None, facts=(), budget=400000, heavy=False, random=False):
        self.name, self.mod, self.func, self.build = name, mod, func, build
        self.slack, self.free, self.stubs = slack or {}, free or {}, stubs
        self.facts, self.budget = facts, budget
        self.heavy = heavy
        self.random = random
        self.tags = (2, 3, 4) if slack is not None and mod in (CI, MK) else (2, 3)

    def case(self):
        st = self.stubs() if self.stubs else {}
        c = Case(dict(self.slack), self.facts, st, False, self.budget)
        return c

    def points(self, c, count=6, extra=None):
        free = dict(self.free)
        free.update(extra or {})
        free.setdefault(rate, MRATES)
        free.setdefault(rate2, MRATES)
        free.setdefault(V1, VPOOL)
        free.setdefault(V2, VPOOL)
        return c.points(free, count, wide=[x for x in self.free if x in (s, u, k0)])

    def site(self):
        return def_site(self.mod, self.func)

    def perform(self, c, call, st):
        """run the call in a state; Outcome"""
        c.st = st
        f = c.I.function(self.mod, self.func.split(".")[0])
        if f is None:
            raise Missing("%s.%s" % (self.mod, self.func))
        if call.recv is not None:
            return method(c, call.recv, call.meth, call.args, call.kw, st)
        return c.I.run_value(f, call.args, call.kw, st)


def arr(c, n, name, kind="nd", dtype="f"):
    return mine(c, c.array(n, name, kind, dtype))


def mine(c, r):
    """a cell of the caller: its content now is what it has to hold later"""
    if not hasattr(c, "orig"):
        c.orig = {}
    c.orig[r.cid] = c.I.deref(c.st, r)
    return r


def rt(tag):
    return rate2 if tag == 2 else rate


def nm(base, tag):
    return base if tag == 1 else base + "2"


# ------------------------------------------------------------- deviations


def dev_entries(tier):
    out = []
    for name in SPEC:
        pars = []
        for p in SPEC[name].get("regimes", ("gen",)):
            if name in HEAVY and p in ("even", "odd"):
                p = {"even": "two", "odd": "three"}[p]
            if p not in pars:
                pars.append(p)
        for par, dt, kind in itertools.product(pars, ("phase", "freq"), ("nd", "list")):
            if kind == "list" and (par != pars[0] or name in HEAVY and tier == "quick" and dt != "phase"):
                continue
            if name in HEAVY and par != "one" and dt == ("phase" if name == "htotdev" else "freq") and tier == "quick":
                continue
            out.append(dev_entry(name, par, dt, kind))
            if kind == "nd" and par == pars[0]:
                out.append(dev_entry(name, par, dt, kind, "i"))
        for dt in ("phase", "freq"):
            out.append(whole_entry(name, dt))
    return out


def whole_entry(name, dt):
    """the estimator with the real averaging-time grid on a short record"""
    sp = SPEC[name]
    L = 14 if name not in HEAVY else 10

    def build(c, tag):
        n = num(L if dt == "phase" else L - 1)
        d = arr(c, n, nm("x", tag))
        args, w = [d], [("data", d)]
        if sp.get("two"):
            d2 = arr(c, n, nm("z", tag))
            args.append(d2)
            w = [("data_1", d), ("data_2", d2)]
        t = c.I.alloc(c.st, c.I.list_arr([num(4), num(2), num(1)] if name not in HEAVY else [num(2), num(1)], "nd", "f"))
        w.append(("taus", t))
        return Call(args, {"rate": ONE if tag == 1 else num(1), "data_type": Const(dt), "taus": t}, w)
    return Entry("%s/%s/whole" % (name, dt), AT, name, build, {}, {}, None, heavy=name in HEAVY, budget=3000000)


def dev_entry(name, par, dt, kind, dtype="f", taus="nd"):
    sp = SPEC[name]
    mm, free = regime(par)
    a, b = sp["ab"]
    free = dict(free)
    free[s] = [0, 1, 2, 5]

    def build(c, tag):
        n = N if dt == "phase" else N - 1
        d = arr(c, n, nm("x", tag), kind, dtype)
        args, w = [d], [("data", d)]
        if sp.get("two"):
            d2 = arr(c, n, nm("z", tag), kind, dtype)
            args.append(d2)
            w = [("data_1", d), ("data_2", d2)]
        t = arr(c, K, "tau", taus)
        w.append(("taus", t))
        return Call(args, {"rate": rt(tag), "data_type": Const(dt), "taus": t}, w)

    def stubs():
        return {AT + ".tau_generator": tg_stub([], [mm])}
    return Entry("%s/%s/%s/%s/%s" % (name, par, dt, kind, dtype), AT, name, build,
                 {N: a * mm + b + s, K: k0 + 1}, free, stubs, heavy=name in HEAVY)


# ------------------------------------------------------------- everything else


def simple(name, mod, func, build, **kw):
    return Entry(name, mod, func, build, **kw)


def at_entries(tier):
    E_ = []

    def add(name, func, build, mod=AT, **kw):
        kw.setdefault("slack", {N: s + 12})
        kw.setdefault("free", {s: [0, 1, 5]})
        E_.append(Entry(name, mod, func, build, **kw))

    for kind in ("nd", "list"):
        def b(c, tag, kind=kind):
            d, t = arr(c, N, nm("x", tag), kind), arr(c, K, "tau", kind)
            return Call([d, rt(tag)], {"taus": t}, [("data", d), ("taus", t)])
        add("tau_generator/request/" + kind, "tau_generator", b, slack={N: s + 12, K: k0 + 1}, free={s: [0, 1, 5], k0: [1, 2, 3]})

        def b(c, tag, kind=kind):
            d, t = arr(c, N, nm("x", tag), kind), arr(c, K, "tau", kind)
            return Call([d, rt(tag)], {"taus": t, "even": Const(True), "maximum_m": N // 3 if False else num(4)}, [("data", d), ("taus", t)])
        add("tau_generator/even/" + kind, "tau_generator", b, slack={N: s + 12, K: k0 + 1}, free={s: [0, 1, 5], k0: [1, 2, 3]})
        for dt in ("phase", "freq"):
            def b(c, tag, kind=kind, dt=dt):
                d = arr(c, N, nm("x", tag), kind)
                return Call([d, rt(tag), Const(dt)], {}, [("data", d)])
            add("input_to_phase/%s/%s" % (dt, kind), "input_to_phase", b)
        for f in ("frequency2phase", "phase2frequency", "phase2radians"):
            for dtype in ("f", "i"):
                def b(c, tag, kind=kind, dtype=dtype):
                    d = arr(c, N, nm("x", tag), kind, dtype)
                    return Call([d, rt(tag)], {}, [("data", d)])
                add("%s/%s/%s" % (f, kind, dtype), f, b)

        def b(c, tag, kind=kind):
            d = arr(c, N, nm("x", tag), kind)
            return Call([d], {}, [("frequency", d)])
        add("frequency2fractional/" + kind, "frequency2fractional", b)

        def b(c, tag, kind=kind):
            d = [arr(c, N, nm(q, tag), kind) for q in ("ab", "bc", "ca")]
            t = arr(c, K, "tau", kind)
            from props.p_c27 import Spy
            return Call(d + [rt(tag), t, Spy(K, tuple(nm(q, tag) for q in ("ab", "bc", "ca")))], {},
                        [("phasedata", x) for x in d] + [("taus", t)])
        add("three_cornered_hat_phase/" + kind, "three_cornered_hat_phase", b, slack={N: s + 12, K: k0 + 1}, free={s: [0, 1, 5], k0: [1, 2, 3]})
    for kw in ("all", "octave", "decade", None):
        def b(c, tag, kw=kw):
            d = arr(c, N, nm("x", tag))
            return Call([d, rt(tag)], {"taus": NONE if kw is None else Const(kw)}, [("data", d)])
        add("tau_generator/%s" % kw, "tau_generator", b)

    def b(c, tag):
        d = arr(c, N, nm("x", tag))
        return Call([d], {}, [("x", d)])
    add("trim_data", "trim_data", b)

    def b(c, tag):
        q = arr(c, num(5), nm("ms", tag), dtype="i")
        return Call([q, rt(tag), num(3)], {}, [("ms", q)])
    add("tau_reduction", "tau_reduction", b)

    def b(c, tag):
        q = [arr(c, num(3), nm(w, tag)) for w in ("tau", "dv", "er", "cn")]
        return Call(q, {}, list(zip(("taus", "devs", "deverrs", "ns"), q)))
    add("remove_small_ns", "remove_small_ns", b)

    def b(c, tag):
        q = [arr(c, num(3), nm(w, tag)) for w in ("tau", "dv", "er", "el", "cn")]
        pair = c.I.alloc(c.st, c.I.list_arr([q[2], q[3]], "list"))
        return Call([q[0], q[1], pair, q[4]], {}, list(zip(("taus", "devs", "deverrs[0]", "deverrs[1]", "ns"), q)) + [("deverrs", pair)])
    add("remove_small_ns/pair", "remove_small_ns", b)

    def b(c, tag):
        d = arr(c, N, nm("x", tag))
        return Call([d, num(3)], {}, [("a", d)])
    add("mtie_rolling_window", "mtie_rolling_window", b)
    for f, extra, L in (("calc_adev_phase", 1, N), ("calc_hdev_phase", 1, N), ("calc_pdev_phase", 0, N), ("calc_mtotdev_phase", -1, N),
                        ("calc_mtotdev_phase", -1, num(8)), ("calc_pdev_phase", 0, num(9))):
        def b(c, tag, extra=extra, L=L):
            d = arr(c, L, nm("x", tag))
            args = [d, rt(tag), num(2)] + ([ONE] if extra == 1 else [])
            return Call(args, {}, [("phase", d)])
        add(f + ("" if L is N else "/short"), f, b)

    for L in (N, num(8)):
        def b(c, tag, L=L):
            d = arr(c, L, nm("x", tag))
            return Call([d, num(2)], {}, [("freq", d)])
        add("calc_htotdev_freq" + ("" if L is N else "/short"), "calc_htotdev_freq", b)

    def b(c, tag):
        d, d2 = arr(c, N, nm("x", tag)), arr(c, N, nm("z", tag))
        return Call([d, d2, rt(tag), num(2), ONE], {}, [("phase_1", d), ("phase_2", d2)])
    add("calc_gcodev_phase", "calc_gcodev_phase", b)
    for nt in ("wp", "ff"):
        def b(c, tag, nt=nt):
            d = arr(c, N, nm("x", tag))
            return Call([d, rt(tag), num(2), ONE, num(F(9, 10)), Const(nt)], {}, [("data", d)])
        add("calc_gradev_phase/" + nt, "calc_gradev_phase", b)
    for kind, vec in (("adev", True), ("mdev", True), ("adev", False)):
        def b(c, tag, kind=kind, vec=vec):
            S = arr(c, N, nm("S", tag))
            w = [("S_y", S)]
            f = rt(tag)
            if vec:
                f = c.I.alloc(c.st, Arr("nd", N, lambda q: q * rt(tag), "f"))
                w.append(("f", f))
            return Call([S, f], {"kind": Const(kind)}, w)
        add("psd2allan/%s/%s" % (kind, "vector" if vec else "step"), "psd2allan", b)
    for kind in ("nd", "list"):
        def b(c, tag, kind=kind):
            d = arr(c, num(3), nm("adev", tag), kind)
            t = arr(c, num(3), nm("tau", tag), kind)
            return Call([d, t], {}, [("adev", d), ("taus", t)])
        add("adev2psd_piecewise_approx/" + kind, "adev2psd_piecewise_approx", b, budget=4000000)

        def b(c, tag, kind=kind):
            h, al, f_, t = arr(c, num(3), nm("h", tag), kind), arr(c, num(3), nm("al", tag), kind), arr(c, num(2), nm("fn", tag), kind), arr(c, K, nm("tau", tag), kind)
            return Call([h, al, f_, t], {}, list(zip(("h", "alpha", "f_nodes", "taus"), (h, al, f_, t))))
        add("psd_piecewise_to_adev/" + kind, "psd_piecewise_to_adev", b, slack={K: k0 + 1}, free={k0: [0, 1, 3]})

    # confidence intervals
    def add_ci(name, func, build, **kw):
        add(name, func, build, mod=CI, **kw)
    for kind in ("nd", "list"):
        for dt in ("phase", "freq"):
            def b(c, tag, kind=kind, dt=dt):
                d = arr(c, N, nm("x", tag), kind)
                return Call([d, num(2)], {"data_type": Const(dt)}, [("x", d)])
            add_ci("autocorr_noise_id/%s/%s" % (dt, kind), "autocorr_noise_id", b, slack={N: s + 80},
                   stubs=lambda: {CI + ".lag1_acf": lambda I, env, st, node, fr: num(F(-1, 3))})

            def b(c, tag, kind=kind, dt=dt):
                d = arr(c, N, nm("x", tag), kind)
                return Call([d, ONE], {"data_type": Const(dt)}, [("x", d)])
            add_ci("autocorr_noise_id/%s/%s/af1" % (dt, kind), "autocorr_noise_id", b, slack={N: s + 80},
                   stubs=lambda: {CI + ".lag1_acf": lambda I, env, st, node, fr: num(F(9))})

        def b(c, tag, kind=kind):
            d = arr(c, N, nm("x", tag), kind)
            return Call([d, sym("dev", pos=True), num(2)], {"dev_type": Const("oadev")}, [("x", d)])
        add_ci("confidence_interval_noiseID/" + kind, "confidence_interval_noiseID", b, slack={N: s + 80},
               stubs=lambda: {CI + ".autocorr_noise_id": lambda I, env, st, node, fr: Tup([ZERO, F_("aid"), ONE, F_("rid")]),
                              CI + ".edf_greenhall": lambda I, env, st, node, fr: sym("edf~", pos=True)})
    for f, argf in (("lag1_acf", lambda tag: []), ("detrend", lambda tag: []), ("b1", lambda tag: [num(2), rt(tag)]), ("rn", lambda tag: [num(2), rt(tag)])):
        for kind in ("nd",) if f != "detrend" else ("nd", "list"):
            def b(c, tag, f=f, argf=argf, kind=kind):
                d = arr(c, N, nm("x", tag), kind)
                return Call([d] + argf(tag), {}, [("x", d)])
            add_ci("%s/%s" % (f, kind), f, b, slack={N: s + 12},
                   stubs=(lambda: {AT + ".tau_generator": tg_stub([], [num(2)])}) if f in ("b1", "rn") else None)

    def scal(name, func, vals, mod=CI, **kw):
        def b(c, tag):
            return Call(vals(tag), {}, [])
        add(name, func, b, mod=mod, **kw)
    e1 = lambda tag: V1 if tag == 1 else V2
    for a in (-2, -1, 0, 1, 2):
        scal("edf_simple/%d" % a, "edf_simple", lambda tag, a=a: [N * (2 if tag > 2 else 1), num(4 if tag in (2, 3) else 2), num(a)])
        if a < 1:
            scal("edf_totdev/%d" % a, "edf_totdev", lambda tag, a=a: [N * (2 if tag > 2 else 1), num(4 if tag in (2, 3) else 2), num(a)])
        scal("edf_mtotdev/%d" % a, "edf_mtotdev", lambda tag, a=a: [N * (2 if tag > 2 else 1), num(4 if tag in (2, 3) else 2), num(a)])
        for d in (1, 2, 3):
            for over, mod_ in ((True, False), (False, False), (True, True)):
                def b(c, tag, a=a, d=d, over=over, mod_=mod_):
                    return Call([num(a), num(d), num(4 if tag in (2, 3) else 2), num(40 * (2 if tag > 2 else 1))], {"overlapping": Const(over), "modified": Const(mod_)}, [])
                if a + 2 * d > 1:
                    add_ci("edf_greenhall/%d/%d/%s%s" % (a, d, "o" if over else "", "m" if mod_ else ""), "edf_greenhall", b, budget=3000000)
            for t_ in (1, 2, 3) if a == 1 else (1, 2):
                scal("greenhall_table%d/%d/%d" % (t_, a, d), "greenhall_table%d" % t_, lambda tag, a=a, d=d: [num(a), num(d)])
        scal("greenhall_sw/%d" % a, "greenhall_sw", lambda tag, a=a: [e1(tag), num(a)])
        scal("greenhall_sx/%d" % a, "greenhall_sx", lambda tag, a=a: [e1(tag), e1(tag), num(a)])
        scal("greenhall_sz/%d" % a, "greenhall_sz", lambda tag, a=a: [e1(tag), e1(tag), num(a), num(2)])
        scal("rn_theory/%d" % (a - 2), "rn_theory", lambda tag, a=a: [num(2 + min(tag, 2)), num(a - 2)])
        if a < 1:
            scal("rn_boundary/%d" % a, "rn_boundary", lambda tag, a=a: [num(2 + min(tag, 2)), num(a)])
        scal("b_to_mu/%d" % a, "b_to_mu", lambda tag, a=a: [num(a - 2)])
        scal("b1_theory/%d" % a, "b1_theory", lambda tag, a=a: [N * (2 if tag > 1 else 1), num(a)])
        if a < 2:
            scal("b1_boundary/%d" % a, "b1_boundary", lambda tag, a=a: [num(a - 1), N * (2 if tag > 1 else 1)])
    scal("confidence_interval", "confidence_interval", lambda tag: [e1(tag), e1(tag) + 1])
    scal("edf_greenhall_simple", "edf_greenhall_simple", lambda tag: [ZERO, num(2), num(4 if tag in (2, 3) else 2), num(4), ONE, N * (2 if tag > 2 else 1)])
    # masks
    for f in ("prc_tdev", "prc_mtie", "eprtc_tdev", "eprtc_mtie", "prtcA_tdev", "prtcB_tdev", "prtcA_mtie", "prtcB_mtie"):
        scal(f, f, lambda tag: [e1(tag)], mod=MK)
    return E_


def F_(name):
    return sym(name + "~")


def noise_entries(tier):
    E_ = []

    def add(name, func, build, mod=NZ, **kw):
        kw.setdefault("slack", {N: s + 12})
        kw.setdefault("free", {s: [0, 1, 5]})
        kw.setdefault("random", True)
        E_.append(Entry(name, mod, func, build, **kw))
    for f in ("white", "brown", "violet"):
        def b(c, tag):
            return Call([N, sym("b0", pos=True), rt(tag)], {}, [])
        add(f, f, b)
    for d in (4, 80):
        def b(c, tag, d=d):
            return Call([num(6 if d == 4 else 3)], {"depth": num(d)}, [])
        add("pink/%d" % d, "pink", b)
    for kind in ("nd", "list"):
        for out_ in ("phase", "freq"):
            for seed in (None, 0, 7):
                def b(c, tag, kind=kind, out_=out_, seed=seed):
                    f_, h, al = arr(c, num(2), nm("fn", tag), kind), arr(c, num(3), nm("h", tag), kind), arr(c, num(3), nm("al", tag), kind)
                    return Call([f_, h, al, num(8) * rt(tag), rt(tag)], {"output": Const(out_), "seed": NONE if seed is None else num(seed)},
                                list(zip(("f_nodes", "h", "alpha"), (f_, h, al))))
                add("timmer_koenig_from_psd/%s/%s/%s" % (out_, kind, seed), "timmer_koenig_from_psd", b)
    for f in ("numpy_psd", "scipy_psd"):
        def b(c, tag):
            d = arr(c, N, nm("x", tag))
            return Call([d, rt(tag)], {}, [("x", d)])
        add(f, f, b, random=False)
    return E_


def class_entries(tier):
    """methods, on objects built by the constructor"""
    E_ = []

    def add(name, mod, func, build, **kw):
        kw.setdefault("slack", {N: s + 12, K: k0 + 1})
        kw.setdefault("free", {s: [0, 1, 5]})
        E_.append(Entry(name, mod, func, build, **kw))

    def made(c, mod, cname, args, kw=None):
        o = construct(c, mod, cname, args, kw)
        if o.value is None:
            raise Missing("%s.%s cannot be constructed: %s" % (mod, cname, raises_names(o)))
        c.st = o.st
        return o.value
    # coloured noise class
    for b_ in (0, -1, -2, -3, -4):
        for meth, args in (("phase_psd_from_qd", ("t",)), ("frequency_psd_from_qd", ("t",)), ("adev_from_qd", ("t", "u")), ("mdev_from_qd", ("t", "u")),
                           ("adev", ("t", "u")), ("mdev", ("t", "u")), ("c_avar", ()), ("c_mvar", ()), ("pdev_from_qd", ("t", "u"))):
            def b(c, tag, b_=b_, meth=meth, args=args):
                o = made(c, KD, "Noise", [], {"nr": num(4), "qd": sym("qd%d" % tag, pos=True), "b": num(b_)})
                return Call([sym("tk%d" % tag, pos=True) if a == "t" else sym("tu%d" % tag, pos=True) for a in args], {}, [], o, meth)
            add("Noise.%s/%d" % (meth, b_), KD, "Noise." + meth, b)

        def b(c, tag, b_=b_):
            import props.p_c20 as p20
            o = made(c, KD, "Noise", [], {"nr": num(4), "qd": sym("qd%d" % tag, pos=True), "b": num(b_)})
            return Call([], {}, [], o, "generateNoise")
        add("Noise.generateNoise/%d" % b_, KD, "Noise.generateNoise", b, random=True, budget=4000000)

    def b(c, tag):
        o = made(c, KD, "Noise", [], {})
        return Call([], {"nr": num(8), "qd": sym("qd%d" % tag, pos=True), "b": num(-2)}, [], o, "set_input")
    add("Noise.set_input", KD, "Noise.set_input", b)
    # streaming estimators
    for cname, fed in (("oadev_realtime", 5), ("ohdev_realtime", 6), ("tdev_realtime", 8)):
        for kind in ("list", "nd"):
            for auto in (False, True):
                def b(c, tag, cname=cname, fed=fed, kind=kind, auto=auto):
                    afs = mine(c, c.I.alloc(c.st, c.I.list_arr([num(1), num(2)] if not auto else [num(1)], kind, "i" if kind == "nd" else None)))
                    o = made(c, RT, cname, [], {"afs": afs, "tau0": sym("t0%d" % tag, pos=True), "auto_afs": Const(auto)})
                    for q in range(fed if not auto else 14):
                        r = method(c, o, "add_phase", [el(nm("x", tag), num(q))], st=c.st)
                        c.st = r.st
                    return Call([el(nm("y", tag), ZERO)], {}, [("afs", afs)], o, "add_frequency")
                add("%s/%s/%s" % (cname, kind, "auto" if auto else "given"), RT, cname + ".add_frequency", b, budget=6000000)
        for meth in ("taus", "devs") + (("mdev",) if cname == "tdev_realtime" else ()):
            def b(c, tag, cname=cname, fed=fed, meth=meth):
                o = made(c, RT, cname, [], {"tau0": sym("t0%d" % tag, pos=True)})
                for q in range(fed):
                    r = method(c, o, "add_phase", [el(nm("x", tag), num(q))], st=c.st)
                    c.st = r.st
                return Call([], {}, [], o, meth)
            add("%s.%s" % (cname, meth), RT, cname + "." + meth, b, budget=6000000)
    # data set and plot
    for kind in ("nd", "list"):
        def b(c, tag, kind=kind):
            d, t = arr(c, N, nm("x", tag), kind), arr(c, K, "tau", kind)
            o = made(c, DS, "Dataset", [d], {"rate": rt(tag), "data_type": Const("phase"), "taus": t})
            return Call([Const("oadev" if tag == 1 else "adev")], {}, [("data", d), ("taus", t)], o, "compute")
        add("Dataset.compute/" + kind, DS, "Dataset.compute", b, stubs=lambda: {AT + ".oadev": dev_stub, AT + ".adev": dev_stub})

        def b(c, tag, kind=kind):
            d, t = arr(c, N, nm("x", tag), kind), arr(c, K, "tau", kind)
            o = made(c, DS, "Dataset", [], {})
            return Call([d], {"rate": rt(tag), "data_type": Const("freq"), "taus": t}, [("data", d), ("taus", t)], o, "set_input")
        add("Dataset.set_input/" + kind, DS, "Dataset.set_input", b)

    def ds(c, tag):
        d, t = arr(c, N, nm("x", tag)), arr(c, K, "tau")
        o = made(c, DS, "Dataset", [d], {"rate": rt(tag), "data_type": Const("phase"), "taus": t})
        r = method(c, o, "compute", [Const("oadev" if tag == 1 else "adev")], st=c.st)
        if r.value is None:
            raise Missing("compute fails")
        c.st = r.st
        res = c.I.deref(c.st, r.value)
        w = [("data", d), ("taus", t)]
        if isinstance(res, Dct):
            w.append(("result of compute", r.value))
            for kk, v in res.d.items():
                if isinstance(v, Ref):
                    w.append(("result of compute[%s]" % (kk,), v))
        return o, w
    for hp in (False, True):
        def b(c, tag, hp=hp):
            o, w = ds(c, tag)
            kw = {}
            if hp:
                h = c.I.alloc(c.st, Dct({("s", "operator") if False else c.I.dkey(c.st, Const("operator"))[0]: Const("me%d" % tag)}))
                kw["header_params"] = h
                w.append(("header_params", h))
            return Call([Const("file%d.txt" % tag)], kw, w, o, "write_results")
        add("Dataset.write_results/%s" % ("header" if hp else "plain"), DS, "Dataset.write_results", b, stubs=lambda: {AT + ".oadev": dev_stub, AT + ".adev": dev_stub})
    for eb in (False, True):
        def b(c, tag, eb=eb):
            o, w = ds(c, tag)
            p = made(c, PL, "Plot", [Const(True)])
            return Call([o], {"errorbars": Const(eb), "grid": Const(True)}, w + [("dataset", o)], p, "plot")
        add("Plot.plot/%s" % eb, PL, "Plot.plot", b, stubs=lambda: {AT + ".oadev": dev_stub, AT + ".adev": dev_stub})
    return E_


def dev_stub(I, env, st, node, fr):
    """an estimator returning three rows named after its data"""
    d = I.arr(st, env.get("data", env.get("data_1", NONE)))
    q = "?"
    if d is not None:
        e = d.at(ONE)
        q = e if isinstance(e, E) else "?"
    tag = "2" if isinstance(q, E) and "x2" in alg.estr(q) else ""
    mk = lambda p: I.alloc(st, Arr("nd", num(3), (lambda i: el(p + "_row" + tag, i)), "f"))
    return Tup([mk("t"), mk("d"), mk("e"), mk("n")])


def all_entries(tier):
    return dev_entries(tier) + at_entries(tier) + noise_entries(tier) + class_entries(tier)


# ------------------------------------------------------------- cell comparison


def snapshot(c, st, refs):
    """contents of the cells reachable from the references"""
    out = {}
    todo = list(refs)
    while todo:
        lab, r = todo.pop()
        if isinstance(r, Tup):
            todo += [("%s[%d]" % (lab, k), x) for k, x in enumerate(r.items)]
            continue
        if not isinstance(r, Ref) or r.cid in out:
            continue
        v = getattr(c, "orig", {}).get(r.cid) or c.I.deref(st, r)
        out[r.cid] = (lab, v)
        if isinstance(v, Obj):
            todo += [("%s.%s" % (lab, k), x) for k, x in v.attrs.items()]
        elif isinstance(v, Dct):
            todo += [("%s[%s]" % (lab, k), x) for k, x in v.d.items()]
        elif isinstance(v, Arr) and v.kind in ("list", "tuple") and v.items() is not None:
            todo += [("%s[%d]" % (lab, k), x) for k, x in enumerate(v.items())]
    return out


def value_same(c, st, a, b, points):
    """two stored values: (verdict, why)"""
    if a is b or a == b:
        return PROVED, "the same object"
    if isinstance(a, Ref) and isinstance(b, Ref):
        return UNDECIDED, "another object"
    if isinstance(a, (E, Cond)) and isinstance(b, (E, Cond)):
        return same_bool(a, b, points)
    if type(a) is type(b) and isinstance(a, Arr):
        return arr_same(c, st, a, b, points)
    if isinstance(a, Const) and isinstance(b, Const):
        return VIOLATED, "%r became %r" % (a, b)
    return UNDECIDED, "%r became %r" % (a, b)


def arr_same(c, st, a, b, points):
    if a is b:
        return PROVED, "the same object"
    r, why = same(b.n, a.n, points)
    if r == VIOLATED:
        return r, "length: " + why
    res = r
    j = sym("jw", int=True, nonneg=True)
    n = a.n.const()
    idx = list(range(int(n))) if n is not None and n <= 12 else [0, 1, 2, 3, 5, 8, -1, -2]
    last = ""
    for k in idx:
        i = num(k) if k >= 0 else a.n + k
        x, y = a.at(i), b.at(i)
        if x is y or x == y:
            continue
        if not (isinstance(x, (E, Cond)) and isinstance(y, (E, Cond))):
            r, why = value_same(c, st, x, y, points) if not isinstance(x, Arr) else (UNDECIDED, "row")
        else:
            ok = [p for p in points if inside(p, i, a.n)]
            r, why = same_bool(y, x, ok, need=1)
        last = "element %s: %s" % (k, why)
        if r == VIOLATED:
            return r, last
        if r == UNDECIDED:
            res = UNDECIDED
        elif r == AGREED and res == PROVED:
            res = AGREED
    return res, last or "equal elements"


def inside(p, i, n):
    try:
        return 0 <= p.ev(i) < p.ev(n)
    except Exception:
        return False


def changed(c, snap, st, points, only=None):
    """(label, verdict, why) of every snapshotted cell that is not the same object"""
    out = []
    for cid, (lab, v) in sorted(snap.items()):
        if only is not None and not only(lab):
            continue
        w = st.heap.get(cid, c.I.modheap.get(cid))
        if w is v:
            continue
        if isinstance(v, Arr) and isinstance(w, Arr):
            r, why = arr_same(c, st, v, w, points)
        elif isinstance(v, Dct) and isinstance(w, Dct):
            if set(v.d) != set(w.d):
                r, why = VIOLATED, "keys %s became %s" % (sorted(map(str, v.d)), sorted(map(str, w.d)))
            else:
                r, why = PROVED, "same keys and values"
                for k in v.d:
                    r2, w2 = value_same(c, st, v.d[k], w.d[k], points)
                    if r2 not in (PROVED, AGREED):
                        r, why = r2, "[%s]: %s" % (k, w2)
                        if r == VIOLATED:
                            break
        elif isinstance(v, Obj) and isinstance(w, Obj):
            r, why = PROVED, "same attributes"
            if set(v.attrs) != set(w.attrs):
                r, why = VIOLATED, "attributes %s became %s" % (sorted(v.attrs), sorted(w.attrs))
            for k in v.attrs:
                if k in w.attrs:
                    r2, w2 = value_same(c, st, v.attrs[k], w.attrs[k], points)
                    if r2 not in (PROVED, AGREED):
                        r, why = r2, ".%s: %s" % (k, w2)
        else:
            r, why = UNDECIDED, "content not recognised"
        out.append((lab, r, why))
    return out
