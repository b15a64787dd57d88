"""C15: invalid arguments are rejected."""
from calls import *

EXPLANATION = ("every function that takes an enumerated argument is abstractly interpreted with values outside the enumeration (and with a zero rate, "
               "inconsistent node arrays, non-positive durations), the remaining arguments symbolic: no path may return a value; where the result is "
               "gated, the path conditions of all exceptions are evaluated at points.")

BAD_DT = ("foo", "Phase", "frequency", "freqs", "fre", "ph", "phases", "phase ", "", "PHASE", "FREQ", "time")
BAD_NUM = {"none": NONE, "0": ZERO, "1": ONE}


class Bad(Entry):
    def __init__(self, name, mod, func, build, invalid, **kw):
        kw.setdefault("slack", {N: s + 12})
        kw.setdefault("free", {s: [0, 1, 5, 60]})
        Entry.__init__(self, name, mod, func, build, **kw)
        self.invalid = invalid


def returns_at(c, o, points):
    """(verdict, why): does the call return a value?"""
    if o.value is None:
        if o.raises:
            return PROVED, "raises %s on every path" % ", ".join(raises_names(o))
        return UNDECIDED, "no path analysed to its end"
    opaque = any(opaque_atoms(q) for r in o.raises for q in r[0])
    ret = None
    und = 0
    ok = 0
    for p in points:
        try:
            hit = False
            for r in o.raises:
                if all(p.cond(q) for q in r[0]):
                    hit = True
                    break
            if hit:
                ok += 1
            else:
                ret = p
                break
        except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, RecursionError):
            und += 1
    if ret is not None:
        if opaque:
            return UNDECIDED, "exception under unknown conditions"
        odd = [e for e in c.I.events if e.kind in ("call-opaque", "getattr-dynamic", "opaque-store", "generator")]
        if odd:
            return UNDECIDED, "unknown calls on the way"
        if c.I.notes:
            return UNDECIDED, "not fully analysed: %s" % (list(c.I.notes)[:1],)
        v = c.I.deref(o.st, o.value)
        return VIOLATED, "returns %s" % str(v)[:160]
    if ok and not und:
        return AGREED, "raises at all %d points" % ok
    return UNDECIDED, "%d points raise, %d not evaluated" % (ok, und)


def bad_ob(e):
    c = e.case()
    rule = "%s rejected" % e.invalid
    call = e.build(c, 1)
    o = e.perform(c, call, c.st)
    P = e.points(c, 8)
    v, why = returns_at(c, o, P)
    f = finding(v, rule, e.site(), "%s: %s" % (e.name, why))
    key = getattr(e, "key", None)
    if key:
        f["key"] = key
    return [f], coverage_of(c.I)


def entries(tier):
    E_ = []
    thorough = tier == "thorough"

    def add(name, func, build, invalid, mod=AT, **kw):
        key = kw.pop("key", None)
        b = Bad(name, mod, func, build, invalid, **kw)
        b.key = key
        E_.append(b)

    def data(c, sp, n, kind, tag=1):
        d = [arr(c, n, nm("x", tag), kind)]
        if sp.get("two"):
            d.append(arr(c, n, nm("z", tag), kind))
        return d

    def grid(c, how):
        if how == "none":
            return NONE
        if how == "nd":
            return arr(c, K, "tau")
        if how == "few":
            return c.I.alloc(c.st, c.I.list_arr([num(1), num(2)], "list"))
        if how == "empty":
            return c.I.alloc(c.st, c.I.list_arr([], "list"))
        return Const(how)
    t = package().trees.get(AT)
    have = [x.name for x in t.body if isinstance(x, ast.FunctionDef)] if t else []
    names = list(SPEC) + [n for n in ("theo1", "mtie", "tierms", "mtie_phase_fast") if n in have and n not in SPEC]
    # data_type
    for j, f in enumerate(names):
        sp = SPEC.get(f, {})
        for k, bad in enumerate(BAD_DT):
            for how in ("none", "nd", "few", "all", "decade"):
                for kind in ("nd", "list"):
                    if not thorough and (j + k + len(how)) % 4 and not (how == "few" and kind == "nd" and k < 4):
                        continue
                    if kind == "list" and how != "none":
                        continue

                    def b(c, tag, sp=sp, bad=bad, how=how, kind=kind):
                        return Call(data(c, sp, N, kind), {"rate": rate, "data_type": Const(bad), "taus": grid(c, how)})
                    add("%s/data_type=%r/%s/%s" % (f, bad, how, kind), f, b, "unknown data_type", slack={N: s + 12, K: k0 + 1},
                        free={s: [0, 1, 5, 60], k0: [0, 1, 4]}, key="mtie_phase_fast" if f == "mtie_phase_fast" else None)
        for bad in ("foo", "frequency", "Phase"):
            # the averaging factors known, so that nothing but the data type can stop it
            if f not in SPEC:
                continue
            mm, fr = regime("two" if f in HEAVY or f in ("theo1",) else "gen")

            def b(c, tag, sp=sp, bad=bad):
                return Call(data(c, sp, N, "nd"), {"rate": rate, "data_type": Const(bad), "taus": grid(c, "nd")})
            a_, b_ = sp["ab"]
            add("%s/data_type=%r/factors" % (f, bad), f, b, "unknown data_type", slack={N: a_ * mm + b_ + s, K: k0 + 1},
                free={**fr, s: [0, 1, 5], k0: [0, 1, 4]}, stubs=lambda mm=mm: {AT + ".tau_generator": tg_stub([], [mm])})
    for bad in BAD_DT:
        def b(c, tag, bad=bad):
            return Call([arr(c, N, "x"), rate, Const(bad)])
        add("input_to_phase/%r" % bad, "input_to_phase", b, "unknown data_type")
        for af in (1, 2, 8):
            for dmax in (2, 3):
                def b(c, tag, bad=bad, af=af, dmax=dmax):
                    return Call([arr(c, N, "x"), num(af)], {"data_type": Const(bad), "dmin": ZERO, "dmax": num(dmax)})
                if thorough or af == 2 or bad == "foo":
                    add("autocorr_noise_id/%r/%d/%d" % (bad, af, dmax), "autocorr_noise_id", b, "unknown data_type", mod=CI, slack={N: s + 400}, free={s: [0, 1, 77]},
                        stubs=lambda: {CI + ".lag1_acf": lambda I, env, st, node, fr: num(F(-1, 3))})
        for dev in ("adev", "ohdev", "tdev"):
            def b(c, tag, bad=bad, dev=dev):
                return Call([arr(c, N, "x"), sym("dev", pos=True), num(2)], {"dev_type": Const(dev), "data_type": Const(bad)})
            if thorough or dev == "adev":
                add("confidence_interval_noiseID/%s/data_type=%r" % (dev, bad), "confidence_interval_noiseID", b, "unknown data_type", mod=CI,
                    slack={N: s + 400}, free={s: [0, 1, 77]}, budget=3000000,
                    stubs=lambda: {CI + ".lag1_acf": lambda I, env, st, node, fr: num(F(-1, 3)), CI + ".edf_greenhall": lambda I, env, st, node, fr: sym("edf~", pos=True)})
    # rate
    for f in names:
        if f == "mtie_phase_fast":
            continue
        sp = SPEC.get(f, {})
        for dt in ("phase", "freq"):
            for how in ("none", "nd", "few", "all", "octave", "decade", "log10", "empty"):
                for kind in ("nd", "list"):
                    if kind == "list" and how not in ("none", "few"):
                        continue

                    def b(c, tag, sp=sp, dt=dt, how=how, kind=kind):
                        return Call(data(c, sp, N, kind), {"rate": ZERO, "data_type": Const(dt), "taus": grid(c, how)})
                    add("%s/rate=0/%s/%s/%s" % (f, dt, how, kind), f, b, "zero rate", slack={N: s + 12, K: k0 + 1}, free={s: [0, 1, 5, 60], k0: [0, 1, 4]})

            def b(c, tag, sp=sp, dt=dt):
                L = num(14)
                return Call(data(c, sp, L, "nd"), {"rate": ZERO, "data_type": Const(dt), "taus": c.I.alloc(c.st, c.I.list_arr([num(1), num(2)], "nd", "f"))})
            add("%s/rate=0/%s/short" % (f, dt), f, b, "zero rate", slack={}, free={}, budget=3000000)
    for how in ("none", "nd", "few", "all", "octave", "decade", "log10", "empty"):
        def b(c, tag, how=how):
            return Call([arr(c, N, "x"), ZERO], {"taus": grid(c, how)})
        add("tau_generator/rate=0/" + how, "tau_generator", b, "zero rate", slack={N: s + 12, K: k0 + 1}, free={s: [0, 1, 5, 60], k0: [0, 1, 4]})
    # kinds
    for kind in ("hdev", "tdev", "oadev", "pdev", "totdev", "x", "1", " adev", "-mdev"):
        for vec in (True, False):
            for base in (2, 10, 1):
                def b(c, tag, kind=kind, vec=vec, base=base):
                    S = arr(c, N, "S")
                    f = c.I.alloc(c.st, Arr("nd", N, lambda q: q * rate, "f")) if vec else rate
                    return Call([S, f], {"kind": Const(kind), "base": num(base)})
                if thorough or base == 2 or kind == "hdev":
                    add("psd2allan/kind=%r/%s/%d" % (kind, "vector" if vec else "step", base), "psd2allan", b, "unknown kind")
    for vt in ("mdev", "oadev", "tdev", "ohdev", "", "a", "h", "hdevx", "xadev", "pdev", "adev "):
        for n in (2, 3):
            for kind in ("nd", "list"):
                def b(c, tag, vt=vt, n=n, kind=kind):
                    return Call([arr(c, num(n), "adev", kind), arr(c, num(n), "tau", kind)], {"vartype": Const(vt)})
                add("adev2psd_piecewise_approx/vartype=%r/%d/%s" % (vt, n, kind), "adev2psd_piecewise_approx", b, "unknown vartype", slack={}, free={}, budget=4000000)
    # node arrays
    for n1, n2 in ((2, 3), (3, 2), (1, 2), (2, 1), (4, 3), (0, 1), (1, 0), (0, 0), (1, 1)):
        def b(c, tag, n1=n1, n2=n2):
            return Call([arr(c, num(n1), "adev"), arr(c, num(n2), "tau")], {})
        add("adev2psd_piecewise_approx/%d,%d points" % (n1, n2), "adev2psd_piecewise_approx", b, "inconsistent arrays", slack={}, free={}, budget=4000000)
    for nh, na, nf in itertools.product((1, 2, 3, 4), (1, 2, 3, 4), (0, 1, 2, 3, 4)):
        if nh == na and nf == nh - 1:
            continue
        for kind in ("nd", "list"):
            if not thorough and kind == "list" and (nh + na + nf) % 3:
                continue

            def b(c, tag, nh=nh, na=na, nf=nf, kind=kind):
                return Call([arr(c, num(nf), "fn", kind), arr(c, num(nh), "h", kind), arr(c, num(na), "al", kind), num(8) * rate, rate], {})
            add("timmer_koenig_from_psd/%d nodes, %d h, %d alpha/%s" % (nf, nh, na, kind), "timmer_koenig_from_psd", b, "inconsistent arrays", mod=NZ)

            def b(c, tag, nh=nh, na=na, nf=nf, kind=kind):
                return Call([arr(c, num(nh), "h", kind), arr(c, num(na), "al", kind), arr(c, num(nf), "fn", kind), arr(c, num(2), "tau", kind)], {})
            add("psd_piecewise_to_adev/%d nodes, %d h, %d alpha/%s" % (nf, nh, na, kind), "psd_piecewise_to_adev", b, "inconsistent arrays")
    # durations
    T = sym("T", pos=True)
    D = {T: [F(1, 3), F(1), F(7), F(1000), F(10 ** 6)]}
    for lab, du, ts in (("0,+", ZERO, T), ("-,+", -T, T / 100), ("+,0", T, ZERO), ("+,-", T, -T / 100), ("-,-", -T, -T / 100), ("0,0", ZERO, ZERO), ("0,-", ZERO, -T),
                        ("-,0", -T, ZERO), ("-,- unrelated", -T - 100, -rate)):
        for out_ in ("phase", "freq"):
            for seed in (None, 3):
                def b(c, tag, du=du, ts=ts, out_=out_, seed=seed):
                    return Call([arr(c, num(1), "fn"), arr(c, num(2), "h"), arr(c, num(2), "al"), du, ts],
                                {"output": Const(out_), "seed": NONE if seed is None else num(seed)})
                add("timmer_koenig_from_psd/duration,timestep %s/%s/%s" % (lab, out_, seed), "timmer_koenig_from_psd", b, "non-positive duration", mod=NZ, slack={}, free=dict(D))
    for n in (0, 1, 2, 3):
        def b(c, tag, n=n):
            return Call([arr(c, num(1), "fn"), arr(c, num(2), "h"), arr(c, num(2), "al"), num(n) * T + T / 2, T], {})
        add("timmer_koenig_from_psd/%d samples" % n, "timmer_koenig_from_psd", b, "too short duration", mod=NZ, slack={}, free=dict(D))
    for out_ in ("foo", "Phase", "frequency", "", "PHASE", "freq ", "psd", "ph", "x"):
        for n in (8, 9):
            def b(c, tag, out_=out_, n=n):
                return Call([arr(c, num(1), "fn"), arr(c, num(2), "h"), arr(c, num(2), "al"), num(n) * T, T], {"output": Const(out_)})
            add("timmer_koenig_from_psd/output=%r/%d" % (out_, n), "timmer_koenig_from_psd", b, "unknown output", mod=NZ, slack={}, free=dict(D))
    # exponents
    for bad in (1, 2, -5, -6, 3):
        for meth, args in (("adev_from_qd", 2), ("mdev_from_qd", 2), ("pdev_from_qd", 2), ("adev", 2), ("mdev", 2), ("c_avar", 0), ("c_mvar", 0)):
            for how in ("init", "set"):
                def b(c, tag, bad=bad, meth=meth, args=args, how=how):
                    kw = {"nr": num(4), "qd": sym("qd", pos=True), "b": num(bad)}
                    o = construct(c, KD, "Noise", [], kw if how == "init" else {})
                    if o.value is None:
                        raise Missing("Noise() fails")
                    c.st = o.st
                    if how == "set":
                        q = method(c, o.value, "set_input", [], kw, c.st)
                        if q.value is not None:
                            c.st = q.st
                    return Call([sym("tk", pos=True), sym("tu", pos=True)][:args], {}, [], o.value, meth)
                add("Noise.%s/b=%d/%s" % (meth, bad, how), "Noise." + meth, b, "noise exponent", mod=KD, slack={}, free={})
    for a in (3, 4, 5, 9, -5, -6, -9):
        for d in (1, 2, 3):
            for over, mod_ in itertools.product((True, False), (True, False)):
                for m_, n_ in ((1, 50), (2, 50), (4, 40), (10, 400), (64, 20000), (200, 1000), (1, 5000)):
                    if not thorough and (m_, n_) not in ((2, 50), (64, 20000), (200, 1000)):
                        continue

                    def b(c, tag, a=a, d=d, over=over, mod_=mod_, m_=m_, n_=n_):
                        return Call([num(a), num(d), num(m_), num(n_)], {"overlapping": Const(over), "modified": Const(mod_)})
                    add("edf_greenhall/alpha=%d/d=%d/%s%s/m=%d/N=%d" % (a, d, "o" if over else "", "m" if mod_ else "", m_, n_), "edf_greenhall", b, "noise exponent",
                        mod=CI, slack={}, free={}, budget=3000000)
        for sc in ("edf_mtotdev",):
            def b(c, tag, a=a):
                return Call([N, num(4), num(a)])
            add("%s/alpha=%d" % (sc, a), sc, b, "noise exponent", mod=CI)
        def b(c, tag, a=a):
            return Call([V1, num(a)])
        add("greenhall_sw/alpha=%d" % a, "greenhall_sw", b, "noise exponent", mod=CI, slack={}, free={})

        def b(c, tag, a=a):
            return Call([V1, num(2), num(a), num(2)])
        add("greenhall_sz/alpha=%d" % a, "greenhall_sz", b, "noise exponent", mod=CI, slack={}, free={})
        for d in (1, 2, 3):
            def b(c, tag, a=a, d=d):
                return Call([num(a), num(d)])
            add("greenhall_table2/alpha=%d/d=%d" % (a, d), "greenhall_table2", b, "noise exponent", mod=CI, slack={}, free={})
            add("greenhall_table3/alpha=%d/d=%d" % (a, d), "greenhall_table3", b, "noise exponent", mod=CI, slack={}, free={})

        def b(c, tag, a=a):
            return Call([num(a - 2)])
        add("b_to_mu/alpha=%d" % a, "b_to_mu", b, "noise exponent", mod=CI, slack={}, free={})
    for a in (0, 2, -1, -2, -3):
        def b(c, tag, a=a):
            return Call([num(a), num(2)])
        add("greenhall_table3/alpha=%d" % a, "greenhall_table3", b, "noise exponent", mod=CI, slack={}, free={})
    # alpha + 2 d must exceed 1
    for a, d in ((-1, 1), (-2, 1), (-3, 1), (-4, 1), (-3, 2), (-4, 2)):
        for over, mod_ in itertools.product((True, False), (True, False)):
            def b(c, tag, a=a, d=d, over=over, mod_=mod_):
                return Call([num(a), num(d), num(8), num(500)], {"overlapping": Const(over), "modified": Const(mod_)})
            add("edf_greenhall/alpha=%d/d=%d/%s%s" % (a, d, "o" if over else "", "m" if mod_ else ""), "edf_greenhall", b, "exponent outside the validity of the difference order",
                mod=CI, slack={}, free={}, budget=3000000)
    # deviation kinds
    for dev in ("pdev", "totdev", "foo", "", "ADEV", "oadevx", "ttotdev", "mtotdev", "theo1", "mtie", "dev", "adev ", "gradev", "htotdev"):
        for dt in ("phase", "freq"):
            for noise in (0, -2, 2):
                def b(c, tag, dev=dev, dt=dt):
                    return Call([arr(c, N, "x"), sym("dev", pos=True), num(2)], {"dev_type": Const(dev), "data_type": Const(dt)})
                if thorough or noise == 0:
                    add("confidence_interval_noiseID/%r/%s/%d" % (dev, dt, noise), "confidence_interval_noiseID", b, "unknown deviation kind", mod=CI,
                        slack={N: s + 400}, free={s: [0, 1, 77]},
                        stubs=lambda noise=noise: {CI + ".autocorr_noise_id": lambda I, env, st, node, fr: Tup([num(noise), F_("aid"), ONE, F_("rid")]),
                                                   CI + ".edf_greenhall": lambda I, env, st, node, fr: sym("edf~", pos=True)})
    # data sets
    for f in [n for n in have if not (n[-3:] == "dev" or n in ("theo1", "mtie", "tierms"))] + ["nosuch", "nosuchdev", "", "np", "ci", "__doc__", "ADEV", "oadev "]:
        def b(c, tag, f=f):
            o = construct(c, DS, "Dataset", [arr(c, N, "x")], {"rate": rate})
            if o.value is None:
                raise Missing("Dataset() fails")
            c.st = o.st
            return Call([Const(f)], {}, [], o.value, "compute")
        add("Dataset.compute/%r" % f, "Dataset.compute", b, "unknown deviation name", mod=DS)
    for f in ("adev", "oadev", "mdev", "hdev", "totdev", "mtie", "htotdev", "theo1", "gradev"):
        for bad in ("foo", "frequency", "Phase"):
            def b(c, tag, f=f, bad=bad):
                o = construct(c, DS, "Dataset", [arr(c, N, "x")], {"rate": rate, "data_type": Const(bad)})
                if o.value is None:
                    return Call([], {}, [], Missing, "x")
                c.st = o.st
                return Call([Const(f)], {}, [], o.value, "compute")
            add("Dataset.compute/%s/data_type=%r" % (f, bad), "Dataset.compute", b, "unknown data_type", mod=DS)

        def b(c, tag, f=f):
            o = construct(c, DS, "Dataset", [arr(c, N, "x")], {"rate": ZERO})
            if o.value is None:
                raise Missing("Dataset() fails")
            c.st = o.st
            return Call([Const(f)], {}, [], o.value, "compute")
        add("Dataset.compute/%s/rate=0" % f, "Dataset.compute", b, "zero rate", mod=DS)
    return E_


def obligations(tier):
    return [Ob(e.name, bad_ob, e) for e in entries(tier)]
