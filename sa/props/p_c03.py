"""C03: random numbers come from numpy's global stream only; seeding rules."""
import ast
import lib
from calls import *
from props.p_c02 import leaves, random_names, env_names, rngno, atoms_of

EXPLANATION = ("every random generator is abstractly interpreted with each draw as a fresh numbered symbol: the draws in the returned value must "
               "have been made during the call, by a function of numpy's global stream; a reference scan over the functions reachable from "
               "the generators resolves imports and reports every other entropy source; the seeding event of timmer_koenig_from_psd must "
               "precede its first draw exactly when a seed (0 included) is given; no other entry reseeds the stream.")

# entropy sources other than numpy's global stream
FORBIDDEN = ("random.", "secrets.", "os.urandom", "os.getrandom", "uuid.",
             "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "numpy.random.BitGenerator",
             "numpy.random.PCG64", "numpy.random.PCG64DXSM", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64")
SEEDERS = ("numpy.random.seed", "numpy.random.set_state", "numpy.random.mtrand.seed")
SD = sym("sd", int=True, nonneg=True)
WIDE = [0, 1, 5, 10 ** 3, 10 ** 6, 10 ** 9]


# ------------------------------------------------------------- reference scan


def import_map(body):
    m = {}
    for nd in body:
        if isinstance(nd, ast.Import):
            for a in nd.names:
                m[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(nd, ast.ImportFrom) and not nd.level and nd.module:
            for a in nd.names:
                m[a.asname or a.name] = nd.module + "." + a.name
    return m


def dotted(nd, imp, local):
    parts = []
    while isinstance(nd, ast.Attribute):
        parts.append(nd.attr)
        nd = nd.value
    if not isinstance(nd, ast.Name) or nd.id in local or nd.id not in imp:
        return None
    return ".".join([imp[nd.id]] + parts[::-1])


def functions(tree):
    """(qualified name, node)"""
    out = []

    def go(body, pre):
        for nd in body:
            if isinstance(nd, (ast.FunctionDef, ast.AsyncFunctionDef)):
                out.append((pre + nd.name, nd))
                go(nd.body, pre + nd.name + ".")
            elif isinstance(nd, ast.ClassDef):
                go(nd.body, pre + nd.name + ".")
            elif hasattr(nd, "body") and isinstance(getattr(nd, "body"), list):
                go(nd.body, pre)
                go(getattr(nd, "orelse", []), pre)
    go(tree.body, "")
    return out


def references(mod):
    """(function or '', dotted path, node) of every reference to an imported name"""
    t = package().trees[mod]
    imp = import_map(ast.walk(t))
    out = []
    owner = {}
    for name, nd in functions(t):
        for x in ast.walk(nd):
            if x is not nd and not (x in nd.decorator_list or x in nd.args.defaults or x in nd.args.kw_defaults):
                owner[id(x)] = name
    for nd in ast.walk(t):
        if isinstance(nd, (ast.Attribute, ast.Name)) and isinstance(nd.ctx, ast.Load):
            d = dotted(nd, imp, ())
            if d:
                out.append((owner.get(id(nd), ""), d, nd))
    return out


def reachable(mods, roots):
    """functions of these modules reachable by name from the roots"""
    fs = {}
    for mod in mods:
        for name, nd in functions(package().trees[mod]):
            fs.setdefault(name.split(".")[-1], []).append((mod, name, nd))
    seen, todo = set(), list(roots)
    while todo:
        r = todo.pop()
        for mod, name, nd in fs.get(r, ()):
            if (mod, name) in seen:
                continue
            seen.add((mod, name))
            for x in ast.walk(nd):
                if isinstance(x, ast.Name):
                    todo.append(x.id)
                elif isinstance(x, ast.Attribute):
                    todo.append(x.attr)
    return seen


def is_forbidden(d):
    return any(d == f or f.endswith(".") and d.startswith(f) for f in FORBIDDEN)


def scan():
    out = []
    pkg = package()
    mods = [m for m in pkg.trees if m.split(".")[-1] in ("noise", "noise_kasdin")]
    if not mods:
        raise Missing("noise modules")
    roots = []
    for m in mods:
        for nd in pkg.trees[m].body:
            if isinstance(nd, ast.FunctionDef):
                if not nd.name.startswith("_"):
                    roots.append(nd.name)
            elif isinstance(nd, ast.ClassDef):
                roots += [x.name for x in nd.body if isinstance(x, ast.FunctionDef)]
    reach_ = reachable(list(pkg.trees), roots)
    n = 0
    for m in pkg.trees:
        for f, d, nd in references(m):
            n += 1
            site = "%s:%d %s" % (pkg.files[m], nd.lineno, f or "module level")
            live = (m, f) in reach_ or not f and m in mods
            if is_forbidden(d) and live:
                out.append(finding(VIOLATED, "no entropy source but numpy's global stream", site, "refers to %s" % d))
            if not f and d in SEEDERS:
                out.append(finding(VIOLATED, "importing never reseeds", site, "module level refers to %s" % d))
    out.append(finding(PROVED, "no entropy source but numpy's global stream", "package", "%d references to imported names in %d modules, %d functions reachable from generators"
                       % (n, len(pkg.trees), len(reach_))) if not out else out[0])
    return out, {"functions": sorted("%s.%s" % x for x in reach_), "statements": n}


# ------------------------------------------------------------- draws


def feasible(e, c, path):
    P = c.points(dict(list(e.free.items()) + [(s, WIDE), (rate, MRATES), (SD, [0, 1, 7, 12345])]), 12)
    return any(holds(p, path) for p in P) if path else True


def holds(p, path):
    try:
        return all(p.cond(q) for q in path)
    except Exception:
        return False


def draws(e):
    c = e.case()
    c.I.function(e.mod, e.func.split(".")[0])
    c.st = c.I.new_state()
    call = e.build(c, 1)
    start = lib._rng[0]
    k0_ = len(c.I.events)
    o = e.perform(c, call, c.st)
    end = lib._rng[0]
    out = []
    site = e.site()
    rule = "draws of this call from numpy's global stream"
    evs = c.I.events[k0_:]
    for x in evs:
        if x.kind == "rng-new" and feasible(e, c, x.path):
            out.append(finding(VIOLATED, "no entropy source but numpy's global stream", event_site(c.I, x), "%s: constructs numpy.random.%s" % (e.name, x.data[0])))
    if e.func != "timmer_koenig_from_psd":
        for x in evs:
            if x.kind == "rng-seed" and feasible(e, c, x.path):
                out.append(finding(VIOLATED, "never reseeds", event_site(c.I, x), "%s reseeds the global stream" % e.name))
    if o.value is None:
        return out + [finding(UNDECIDED, rule, site, "%s: no result: %s" % (e.name, raises_names(o)))], coverage_of(c.I)
    names, env, opaque = set(), set(), False
    vals = list(leaves(c, o.st, o.value))
    if call.recv is not None:
        vals += list(leaves(c, o.st, call.recv))
    for lab, v in vals:
        names |= random_names(v)
        env |= env_names(v)
        opaque = opaque or bool(opaque_atoms(v))
    for q in names:
        k = rngno(q)
        if k is not None and not (start <= k < end):
            out.append(finding(VIOLATED, rule, site, "%s: value contains a draw made before the call (%s)" % (e.name, q)))
            break
    if env:
        out.append(finding(VIOLATED, "no entropy source but numpy's global stream", site, "%s: value depends on %s" % (e.name, sorted(env))))
    if not out and c.I.hidden_changes({}, o.st.heap):
        c.st = o.st.fork()
        call2 = e.build(c, 2)
        start2 = lib._rng[0]
        o2 = e.perform(c, call2, c.st)
        if o2.value is not None:
            old = {q for lab, v in leaves(c, o2.st, o2.value) for q in random_names(v) if rngno(q) is not None and rngno(q) < start2}
            if old:
                out.append(finding(VIOLATED, "no random state kept between calls", site, "%s: a second call returns draws of the first (%s)" % (e.name, sorted(old)[:3])))
    if not out:
        ev = [x for x in evs if x.kind == "rng"]
        out.append(finding(PROVED if names or ev else UNDECIDED, rule, site, "%s: %d draws by %s" % (e.name, len(ev), sorted({str(x.data[0]) for x in ev}))))
    return out, coverage_of(c.I)


# ------------------------------------------------------------- seeding


def seeding(output, seed, kind):
    def run():
        c = Case({})
        f_, h, al = [arr(c, num(n), q, kind) for n, q in ((2, "fn"), (3, "h"), (3, "al"))]
        sv = {"none": NONE, "sym": SD, "default": NONE}.get(seed, None)
        kw = {"output": Const(output), "seed": num(seed) if sv is None else sv}
        if seed == "default":
            kw.pop("seed")
        dt = sym("dt", pos=True)
        o = c.call(NZ, "timmer_koenig_from_psd", [f_, h, al, num(8) * dt, dt], kw)
        site = def_site(NZ, "timmer_koenig_from_psd")
        evs = [x for x in c.I.events if x.kind in ("rng", "rng-seed")]
        seeds = [(k, x) for k, x in enumerate(evs) if x.kind == "rng-seed"]
        first = next((k for k, x in enumerate(evs) if x.kind == "rng"), None)
        name = "seed=%s output=%s" % (seed, output)
        P = c.points({SD: [0, 1, 7, 12345, 2 ** 31], dt: [F(1), F(1, 3)]}, 8)
        out = []
        if first is None:
            return [finding(UNDECIDED, "seed before first draw", site, name + ": no draw recognised")], coverage_of(c.I)
        if seed in ("none", "default"):
            rule = "no seed: stream not reseeded"
            live = [x for _, x in seeds if not x.path or any(holds(p, x.path) for p in P)]
            out.append(finding(VIOLATED if live else PROVED, rule, event_site(c.I, live[0]) if live else site,
                               name + (": reseeds with %s" % (live[0].data,) if live else ": %d draws, no reseeding" % sum(x.kind == "rng" for x in evs))))
            return out, coverage_of(c.I)
        rule = "seed before first draw"
        want = SD if seed == "sym" else num(seed)
        if [x for x in c.I.events if x.kind in ("ext-call", "opaque-meth") and "random" in str(x.data[0])]:
            und = True
        else:
            und = False
        early = [x for k, x in seeds if k < first]
        late = [x for k, x in seeds if k > first]
        for p in P:
            if not any(not x.path or holds(p, x.path) for x in early):
                out.append(finding(UNDECIDED if und else VIOLATED, rule, event_site(c.I, late[0]) if late else site,
                                   "%s: the stream is not seeded before the first draw at %s when %s" % (
                                       name, event_site(c.I, evs[first]), {alg.estr(SD): str(p.ev(SD))} if seed == "sym" else "given")))
                break
            again = [x for x in late if not x.path or holds(p, x.path)]
            if again:
                out.append(finding(VIOLATED, "seeded once", event_site(c.I, again[0]), "%s: reseeded after a draw: later draws repeat earlier ones" % name))
                break
        for x in early:
            if len(x.data) == 1 and isinstance(x.data[0], E):
                r, why = same(x.data[0], want, P)
                if r == VIOLATED:
                    out.append(finding(r, "the given seed is used", event_site(c.I, x), "%s: %s" % (name, why)))
        if not out:
            out.append(finding(PROVED, rule, event_site(c.I, early[0]), "%s: seeded with the given value before %d draws" % (name, sum(x.kind == "rng" for x in evs))))
        return out, coverage_of(c.I)
    return run


def reseeds(e):
    """entries that are not generators do not touch the stream"""
    c = e.case()
    call = e.build(c, 1)
    n0 = lib._rng[0]
    k = len(c.I.events)
    e.perform(c, call, c.st)
    rule = "never reseeds"
    for x in c.I.events[k:]:
        if x.kind == "rng-seed" and feasible(e, c, x.path):
            return [finding(VIOLATED, rule, event_site(c.I, x), "%s: %s" % (e.name, x.kind))], coverage_of(c.I)
    return [finding(PROVED, rule, e.site(), e.name)], coverage_of(c.I)


def obligations(tier):
    obs = [Ob("references", scan)]
    for e in all_entries(tier):
        if e.random:
            obs.append(Ob(e.name, lambda e=e: draws(e)))
        elif "whole" not in e.name and not e.heavy:
            obs.append(Ob(e.name, lambda e=e: reseeds(e)))
    for output in ("phase", "freq"):
        for seed in ("none", "default", 0, 1, 7, 12345, "sym"):
            obs.append(Ob("timmer/%s/%s" % (output, seed), seeding(output, seed, "nd")))
    return obs
