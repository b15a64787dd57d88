"""C29: no undefined name, unassigned variable, missing attribute or arity error."""
import symtable
import builtins
from calls import *
import scopes

EXPLANATION = ("(a) every function and method is abstractly interpreted in the contexts of all other checks, with invalid arguments and on short and empty "
               "records; an exception caused by a name or attribute that is not assigned on the path, or by a call with wrong arguments, is a violation "
               "when its path condition holds at a point. (b) a package-wide scan: names bound nowhere, local variables that no assignment reaches, "
               "attributes of modules that the module does not define, attributes of self that no method assigns, and calls of library functions and "
               "methods that cannot be bound to the signature.")

KINDS = ("unbound", "attr-missing", "arity", "missing-import")
LISTS = ("list", "tuple", "range", "str")


def internal(c, r):
    """what went wrong when this exception is an internal error"""
    path, name, stt, node, explicit = r
    if explicit:
        return None
    name = str(name)
    evs = [e for e in c.I.events if e.node is node and e.kind in KINDS]
    if name == "UnboundLocalError":
        return evs[0] if evs else ("unbound", getattr(node, "id", "?"), node, None)
    if name in ("NameError", "AttributeError", "TypeError", "ImportError"):
        for e in evs:
            if e.kind == "attr-missing" and e.data[0] in LISTS:
                continue
            return e
    return None


def text(c, ev):
    if isinstance(ev, tuple):
        return "%s %s (line %s)" % (ev[0], ev[1], getattr(ev[2], "lineno", "?"))
    return "%s %s at %s" % (ev.kind, ev.data, event_site(c.I, ev))


def ctx_ob(e):
    c = e.case()
    outs = []
    orig = c.I.run_value

    def spy(*a, **k):
        o = orig(*a, **k)
        outs.append(o)
        return o
    c.I.run_value = spy
    rule = "no internal name, attribute or arity error"
    note = None
    try:
        call = e.build(c, 1)
        if call.recv is None or call.recv is not Missing and call.meth != "x":
            e.perform(c, call, c.st)
    except Missing as ex:
        note = str(ex)
    fs = []
    P = e.points(c, 8)
    seen = set()
    n = 0
    for o in outs:
        for r in o.raises:
            if len(r) < 5:
                continue
            ev = internal(c, r)
            if ev is None:
                continue
            n += 1
            v, why = reached(r[0], P)
            key = (id(r[3]), v)
            if key in seen:
                continue
            seen.add(key)
            f = finding(v, rule, e.site(), "%s: %s %s: %s" % (e.name, r[1], why, text(c, ev)))
            # the key names the exact defect
            if getattr(e, "key29", None) and getattr(ev, "kind", "") == "arity" and e.key29.endswith("/" + ev.data[0]):
                f["key"] = e.key29
            fs.append(f)
    # an import of a name the package does not define fails without a model exception
    for ev in c.I.events:
        if ev.kind == "missing-import" and id(ev.node) not in seen:
            seen.add(id(ev.node))
            fs.append(finding(VIOLATED, "imported names exist", event_site(c.I, ev), "%s does not exist" % (ev.data,)))
    if not fs:
        if not outs:
            return [finding(UNDECIDED, rule, e.site(), "%s: %s" % (e.name, note))], coverage_of(c.I)
        odd = [x for x in c.I.events if x.kind in ("call-opaque", "getattr-dynamic", "opaque-meth") and "ext:" not in str(x.data)]
        fs.append(finding(PROVED, rule, e.site(), "%s: no such exit on any path analysed" % e.name))
    return fs, coverage_of(c.I)


def reached(path, points):
    if any(opaque_atoms(q) for q in path):
        return UNDECIDED, "under unknown conditions"
    if not path:
        return VIOLATED, "always"
    und = 0
    for p in points:
        try:
            if all(p.cond(q) for q in path):
                return VIOLATED, "when %s" % " and ".join(str(q) for q in path[-3:])
        except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, RecursionError):
            und += 1
    return UNDECIDED, "not reached at %d points" % len(points)


# ----------------------------------------------------------------- contexts


def contexts(tier):
    out = list(all_entries(tier))
    import props.p_c15 as p15
    bad = p15.entries(tier)
    seen = set()
    for e in bad:
        # one of each function and kind of argument is enough for the paths of the others
        out.append(e)
    E_ = []

    def add(name, func, build, mod=AT, key=None, **kw):
        kw.setdefault("slack", {})
        kw.setdefault("free", {})
        kw.setdefault("budget", 3000000)
        x = Entry(name, mod, func, build, **kw)
        x.key29 = key
        E_.append(x)
    # short and empty records, whole function with the real grid
    t = package().trees.get(AT)
    have = [x.name for x in t.body if isinstance(x, ast.FunctionDef)] if t else []
    names = list(SPEC) + [n for n in ("theo1", "mtie", "tierms", "mtie_phase_fast") if n in have and n not in SPEC]
    lens = (0, 1, 2, 3, 4, 5, 7, 9) if tier == "thorough" else (0, 1, 2, 3, 5)
    for f in names:
        sp = SPEC.get(f, {})
        for n in lens:
            for dt in ("phase", "freq"):
                for how in ("none", "all", "octave", "decade", "log10", "one", "empty", "big"):
                    if how == "log10" and f in HEAVY:
                        continue
                    if tier == "quick" and (how in ("octave", "log10") and n not in (2, 5) or how == "big" and n not in (0, 5)):
                        continue

                    def b(c, tag, sp=sp, n=n, dt=dt, how=how):
                        d = [c.I.alloc(c.st, c.I.list_arr([el("x", num(q)) for q in range(n)], "nd", "f"))]
                        if sp.get("two"):
                            d.append(c.I.alloc(c.st, c.I.list_arr([el("z", num(q)) for q in range(n)], "nd", "f")))
                        g = NONE if how == "none" else Const(how)
                        if how in ("one", "empty", "big"):
                            g = c.I.alloc(c.st, c.I.list_arr({"one": [num(1)], "empty": [], "big": [num(50)]}[how], "list"))
                        return Call(d, {"rate": ONE, "data_type": Const(dt), "taus": g})
                    add("%s/%d points/%s/%s" % (f, n, dt, how), f, b)
    for n in (0, 1, 2):
        for f in ("white", "brown", "violet", "pink"):
            def b(c, tag, n=n):
                return Call([num(n)], {})
            add("%s/%d" % (f, n), f, b, mod=NZ, random=True)
        for f in ("frequency2phase", "phase2frequency", "phase2radians", "frequency2fractional", "trim_data"):
            def b(c, tag, n=n, f=f):
                d = c.I.alloc(c.st, c.I.list_arr([el("x", num(q)) for q in range(n)], "nd", "f"))
                return Call([d] + ([rate] if f[-5:] in ("phase", "uency", "dians") and f != "trim_data" else []), {})
            add("%s/%d" % (f, n), f, b)
    for b_ in (0, -1, -2, -3, -4, 1):
        for n in (1, 2):
            def b(c, tag, b_=b_, n=n):
                o = construct(c, KD, "Noise", [], {"nr": num(n), "qd": sym("qd", pos=True), "b": num(b_)})
                if o.value is None:
                    raise Missing("Noise fails")
                c.st = o.st
                return Call([], {}, [], o.value, "generateNoise")
            add("Noise.generateNoise/%d/%d" % (b_, n), "Noise.generateNoise", b, mod=KD, random=True)
    # degrees of freedom: every noise type, every small averaging factor
    for f in ("edf_simple", "edf_totdev", "edf_mtotdev"):
        for a in (-4, -3, -2, -1, 0, 1, 2, 3):
            for m_ in (1, 2, 3, 4, 8):
                for n_ in (4, 9, 50):
                    def b(c, tag, a=a, m_=m_, n_=n_):
                        return Call([num(n_), num(m_), num(a)], {})
                    add("%s/alpha=%d/m=%d/N=%d" % (f, a, m_, n_), f, b, mod=CI)
    for a in (-4, -3, -2, -1, 0, 1, 2):
        for d in (1, 2, 3):
            for m_, n_ in ((1, 4), (2, 9), (1, 50), (3, 50), (200, 1000), (1, 20000)):
                for over, mod_ in itertools.product((True, False), (True, False)):
                    if tier == "quick" and (a + d + m_ + over + mod_) % 2:
                        continue

                    def b(c, tag, a=a, d=d, m_=m_, n_=n_, over=over, mod_=mod_):
                        return Call([num(a), num(d), num(m_), num(n_)], {"overlapping": Const(over), "modified": Const(mod_)})
                    add("edf_greenhall/%d/%d/%d/%d/%s%s" % (a, d, m_, n_, "o" if over else "", "m" if mod_ else ""), "edf_greenhall", b, mod=CI)
    # every kind of confidence interval, every way noise identification can end
    for dev in ("adev", "mdev", "tdev", "hdev", "ohdev", "oadev", "pdev", "totdev"):
        for a in (-4, -3, -2, -1, 0, 1, 2):
            def b(c, tag, dev=dev):
                return Call([arr(c, N, "x"), sym("dev", pos=True), num(2)], {"dev_type": Const(dev)})
            add("confidence_interval_noiseID/%s/%d" % (dev, a), "confidence_interval_noiseID", b, mod=CI, slack={N: s + 80}, free={s: [0, 1, 5]},
                stubs=lambda a=a: {CI + ".autocorr_noise_id": lambda I, env, st, node, fr: Tup([num(a), F_("aid"), ONE, F_("rid")]),
                                   CI + ".edf_greenhall": lambda I, env, st, node, fr: sym("edf~", pos=True)})
    for dt in ("phase", "freq"):
        for r1 in (F(-2, 3), F(-1, 2), F(-1, 3), F(0), F(1, 2), F(9, 10), F(1)):
            for dmin, dmax in ((0, 2), (0, 3), (1, 2), (2, 2), (0, 0)):
                def b(c, tag, dt=dt, dmin=dmin, dmax=dmax):
                    return Call([arr(c, N, "x"), num(2)], {"data_type": Const(dt), "dmin": num(dmin), "dmax": num(dmax)})
                add("autocorr_noise_id/%s/%s/%d-%d" % (dt, r1, dmin, dmax), "autocorr_noise_id", b, mod=CI, slack={N: s + 80}, free={s: [0, 1, 5]},
                    stubs=lambda r1=r1: {CI + ".lag1_acf": lambda I, env, st, node, fr: num(r1)})
    for a in (-6, -5, -4, -3, -2, -1, 0, 1, 2, 3):
        for f, args in (("rn_theory", lambda a: [num(4), num(a)]), ("rn_boundary", lambda a: [num(4), num(a)]), ("b_to_mu", lambda a: [num(a)]),
                        ("b1_theory", lambda a: [num(30), num(a)]), ("b1_boundary", lambda a: [num(a), num(30)])):
            def b(c, tag, a=a, args=args):
                return Call(args(a), {})
            add("%s/%d" % (f, a), f, b, mod=CI)
    # masks: every segment and outside of the range
    for f in ("prc_tdev", "prc_mtie", "eprtc_tdev", "eprtc_mtie", "prtcA_tdev", "prtcB_tdev", "prtcA_mtie", "prtcB_mtie"):
        for tau in (F(1, 100), F(1, 10), F(1), F(50), F(500), F(5000), F(200000), F(10 ** 8)):
            def b(c, tag, tau=tau):
                return Call([num(tau)], {})
            add("%s/%s" % (f, tau), f, b, mod=MK)
    # spectra
    for kind in ("adev", "mdev", "a", "m", "ADEV", "hdev"):
        for vec in (True, False):
            for base in (2, 10, F(1, 2)):
                for n_ in (1, 2, 5):
                    def b(c, tag, kind=kind, vec=vec, base=base, n_=n_):
                        S = arr(c, num(n_), "S")
                        f = c.I.alloc(c.st, c.I.list_arr([el("freqs", num(q)) for q in range(n_)], "nd", "f")) if vec else rate
                        return Call([S, f], {"kind": Const(kind), "base": num(base)})
                    add("psd2allan/%s/%s/%s/%d" % (kind, vec, base, n_), "psd2allan", b)
    for vt in ("adev", "mdev", "hdev", "foo"):
        for n_ in (1, 2, 3):
            def b(c, tag, vt=vt, n_=n_):
                return Call([arr(c, num(n_), "adev"), arr(c, num(n_), "tau")], {"vartype": Const(vt)})
            add("adev2psd_piecewise_approx/%s/%d" % (vt, n_), "adev2psd_piecewise_approx", b)
    # data sets: every deviation of the library is called with arguments it accepts
    try:
        import props.p_c24 as p24
        for f in p24.module_functions():
            if not p24.allowed(f):
                continue

            def b(c, tag, f=f):
                o = construct(c, DS, "Dataset", [arr(c, N, "x")], {"rate": rate})
                if o.value is None:
                    raise Missing("Dataset fails")
                c.st = o.st
                return Call([Const(f)], {}, [], o.value, "compute")
            add("Dataset.compute/" + f, "Dataset.compute", b, mod=DS, slack={N: s + 12}, free={s: [0, 1, 5]},
                stubs=lambda: p24.Rec().stubs(), key="Dataset.compute/" + f)
    except Missing:
        pass

    def made(c, mod, cname, args, kw=None):
        o = construct(c, mod, cname, args, kw)
        if o.value is None:
            raise Missing("%s fails: %s" % (cname, raises_names(o)))
        c.st = o.st
        return o.value
    # methods before any data, in any order
    for cname in ("oadev_realtime", "ohdev_realtime", "tdev_realtime"):
        ct = [x for x in (package().trees.get(RT).body if package().trees.get(RT) else []) if isinstance(x, ast.ClassDef) and x.name == cname]
        meths = sorted({x.name for q in scopes.mro(package(), RT, cname) for x in q[1].body if isinstance(x, ast.FunctionDef)}) if ct else []
        for fed in (0, 1, 3, 6):
            for auto in (False, True):
                for meth in meths:
                    if meth == "__init__":
                        continue

                    def b(c, tag, cname=cname, fed=fed, auto=auto, meth=meth):
                        o = made(c, RT, cname, [], {"auto_afs": Const(auto)})
                        for q in range(fed):
                            r = method(c, o, "add_phase", [el("x", num(q))], st=c.st)
                            if r.value is None:
                                raise Missing("add_phase fails")
                            c.st = r.st
                        f = [x for q in scopes.mro(package(), RT, cname) for x in q[1].body if isinstance(x, ast.FunctionDef) and x.name == meth][0]
                        need = len(f.args.args) - 1 - len(f.args.defaults)
                        return Call([el("y", num(q)) for q in range(need)], {}, [], o, meth)
                    # internal steps are only called with averaging factors that exist
                    if meth in ("add_phase", "add_frequency", "taus", "devs", "mdev", "__str__", "__repr__"):
                        add("%s.%s/after %d%s" % (cname, meth, fed, "/auto" if auto else ""), cname + "." + meth, b, mod=RT, budget=4000000)
    for args, lab in (([], "defaults"), ([ONE], "data")):
        def b(c, tag, args=args):
            o = made(c, DS, "Dataset", [arr(c, N, "x")] if args else [])
            return Call([Const("oadev")], {}, [], o, "compute")
        add("Dataset.compute/" + lab, "Dataset.compute", b, mod=DS, slack={N: s + 12}, free={s: [0, 1, 5]})

        def b(c, tag, args=args):
            o = made(c, DS, "Dataset", [arr(c, N, "x")] if args else [])
            return Call([Const("out.txt")], {}, [], o, "write_results")
        add("Dataset.write_results/nothing computed/" + lab, "Dataset.write_results", b, mod=DS, slack={N: s + 12}, free={s: [0, 1, 5]})
    for show in (True, False):
        for kw in ({}, {"errorbars": alg.TRUE}, {"grid": alg.TRUE}, {"errorbars": alg.TRUE, "grid": alg.TRUE}):
            def b(c, tag, show=show, kw=kw):
                import props.p_c24 as p24
                ds = made(c, DS, "Dataset", [arr(c, N, "x")])
                r = method(c, ds, "compute", [Const("oadev")], {}, c.st)
                if r.value is None:
                    raise Missing("compute fails")
                c.st = r.st
                p = made(c, PL, "Plot", [Const(show)])
                return Call([ds], dict(kw), [], p, "plot")
            add("Plot.plot/%s/%s" % (show, sorted(kw)), "Plot.plot", b, mod=PL, slack={N: s + 12}, free={s: [0, 1, 5]}, stubs=lambda: {AT + ".oadev": dev_stub})
        for meth, args in (("show", []), ("save", [Const("x.png")])):
            def b(c, tag, show=show, meth=meth, args=args):
                p = made(c, PL, "Plot", [Const(show)])
                return Call(args, {}, [], p, meth)
            add("Plot.%s/%s" % (meth, show), "Plot." + meth, b, mod=PL)
    return out + E_


# ------------------------------------------------------- package-wide scan


def scan_ob(mod, what):
    fs = []
    n = 0
    for verdict, site, detail, key in getattr(scopes, what)(package(), mod):
        n += 1
        if verdict == "bad":
            fs.append(finding(VIOLATED, RULES[what], site, detail))
    if not fs:
        fs.append(finding(PROVED, RULES[what], package().files[mod], "%d uses examined" % n))
    return fs, {"functions": sorted(mod + "." + q for q in scopes.function_names(package(), mod)), "statements": n}


RULES = {"names": "every name read is bound in some enclosing scope", "locals_": "every local variable read is reached by an assignment",
         "modules": "every attribute of a module exists", "selfs": "every attribute of self is assigned by some method",
         "arity": "every call of a library function or method can be bound to its signature"}


def group(es):
    """contexts that share one process"""
    fs, funcs, n = [], set(), 0
    for e in es:
        r = core_run(e)
        fs += r[0]
        funcs |= set(r[1].get("functions", []))
        n += r[1].get("statements", 0)
    return fs, {"functions": sorted(funcs), "statements": n}


def core_run(e):
    try:
        return ctx_ob(e)
    except Missing as ex:
        return [finding(UNDECIDED, "anchor", "", "not found in the sources: %s" % ex)], {}
    except (ip.Unmodelled, ip.Budget, alg.Limit, RecursionError, MemoryError) as ex:
        return [finding(UNDECIDED, "outside the analysed subset", "", "%s: %s: %s" % (e.name, type(ex).__name__, ex))], {}


def obligations(tier):
    obs = []
    for mod in sorted(package().trees):
        for what in RULES:
            obs.append(Ob("scan/%s/%s" % (what, mod), scan_ob, mod, what))
    pool = {}
    for e in contexts(tier):
        if e.random and e.func == "timmer_koenig_from_psd" and tier == "quick" and "/list/" in e.name:
            continue
        pool.setdefault(e.func.split(".")[0], []).append(e)
    for f, es in pool.items():
        size = 2 if f in HEAVY + ("timmer_koenig_from_psd", "Dataset") else 16
        for k in range(0, len(es), size):
            obs.append(Ob("%s/%d..%d" % (f, k, k + len(es[k:k + size]) - 1), group, es[k:k + size]))
    return obs
