"""C24: Dataset calls exactly the named deviation on exactly its input."""
import ast
from calls import *

EXPLANATION = ("Dataset.compute is abstractly interpreted for every function name of the library, with all library functions replaced by recorders: "
               "the recorded calls give callee and bound arguments, which must be the deviation named and the very data, rate, data_type and taus "
               "last set; returned and stored dictionaries must hold its four outputs. Refused names, and recorders that raise, must call nothing / "
               "leave the stored results and input as they were. Sequences of set_input and compute are interpreted likewise.")

WHITE = ("theo1", "mtie", "tierms")
KEYS = ("taus", "stat", "stat_err", "stat_n")


def module_functions():
    t = package().trees.get(AT)
    if t is None:
        raise Missing(AT)
    fs = [x.name for x in t.body if isinstance(x, ast.FunctionDef)]
    top = package().trees.get("allantools")
    pub = {a.name for x in (top.body if top else []) if isinstance(x, ast.ImportFrom) and x.level == 1 and x.module == "allantools" for a in x.names}
    pub |= set(SPEC) | set(WHITE) | set(INTERNAL)
    return [f for f in fs if f in pub or "*" in pub and not f.startswith("_")]


INTERNAL = ("calc_adev_phase", "calc_pdev_phase", "calc_gcodev_phase", "calc_hdev_phase", "calc_mtotdev_phase", "calc_htotdev_freq",
            "calc_gradev_phase", "input_to_phase", "remove_small_ns", "mtie_rolling_window")


def allowed(n):
    return n[-3:] == "dev" or n in WHITE


class Rec(object):
    """stubs that record calls; the k-th call returns rows named after it"""

    def __init__(self, fail=()):
        self.calls = []
        self.fail = set(fail)

    def stubs(self):
        return {AT + "." + f: (lambda I, env, st, node, fr, f=f: self.rec(f, I, env, st, node, fr)) for f in module_functions()}

    def rec(self, f, I, env, st, node, fr):
        self.calls.append((f, dict(env), st.path))
        if f in self.fail:
            I.raise_("ValueError", st, fr, node, explicit=True)
        k = len(self.calls)
        return Tup([I.alloc(st, Arr("nd", num(3), (lambda i, p=p: el("%s_%s%d" % (p, f, k), i)), "f")) for p in ("t", "d", "e", "n")])


def dataset(c, how, data, r, dt, taus):
    """a Dataset holding this input, set in one of several ways"""
    full = {"rate": r, "data_type": Const(dt), "taus": taus}
    if how == "init/keyword":
        o = construct(c, DS, "Dataset", [], dict(full, data=data))
    elif how == "init/positional":
        o = construct(c, DS, "Dataset", [data, r, Const(dt), taus])
    else:
        o = construct(c, DS, "Dataset", [])
    if o.value is None:
        raise Missing("Dataset() fails: %s" % raises_names(o))
    c.st = o.st
    if how.startswith("set"):
        setin(c, o.value, how, data, r, dt, taus)
    return o.value


def setin(c, ds, how, data, r, dt, taus):
    if how.endswith("keyword"):
        q = method(c, ds, "set_input", [], {"data": data, "rate": r, "data_type": Const(dt), "taus": taus}, c.st)
    else:
        q = method(c, ds, "set_input", [data, r, Const(dt), taus], {}, c.st)
    c.st = q.st


def compute(c, ds, name):
    st = c.st.fork()
    o = method(c, ds, "compute", [Const(name)], {}, st)
    if o.value is not None:
        c.st = o.st
    return o


def after(c, o):
    """the state in which the call ended"""
    if o.value is not None:
        return o.st
    for r in o.raises:
        if hasattr(r[2], "heap"):
            return r[2]
    return o.st


def out_of(c, ds, st):
    d = c.I.deref(st, ds)
    return c.I.deref(st, d.attrs.get("out")) if isinstance(d, Obj) else None


def inp_of(c, ds, st):
    d = c.I.deref(st, ds)
    return c.I.deref(st, d.attrs.get("inp")) if isinstance(d, Obj) else None


def entry(d, key):
    return d.d.get(key, d.d.get(("s", key))) if isinstance(d, Dct) else None


def same_arg(c, st, got, want, points):
    """(verdict, why) of an argument that has to be this value"""
    if got is want or isinstance(got, Ref) and isinstance(want, Ref) and got.cid == want.cid:
        return PROVED, "the object itself"
    a, b = c.I.deref(st, got), c.I.deref(st, want)
    if a is None:
        return VIOLATED, "missing"
    if isinstance(a, Tup) and isinstance(b, Arr):
        a = c.I.list_arr(a.items, "tuple")
    if isinstance(a, Arr) and isinstance(b, Arr):
        return arr_same(c, st, b, a, points)
    if isinstance(a, (E, Cond)) and isinstance(b, (E, Cond)):
        return same_bool(a, b, points)
    if isinstance(a, Const) and isinstance(b, Const):
        return (PROVED, "equal") if a.v == b.v else (VIOLATED, "%r instead of %r" % (a.v, b.v))
    if isinstance(a, E) and is_opaque(a) or isinstance(b, E) and is_opaque(b):
        return UNDECIDED, "unknown value"
    if isinstance(a, (Const, Arr, E)) and isinstance(b, (Const, Arr, E)):
        return VIOLATED, "%s instead of %s" % (a, b)
    return UNDECIDED, "%s / %s" % (type(a).__name__, type(b).__name__)


def check_call(c, call, name, data, r, dt, taus, P, lab, site):
    f, env, path = call
    out = []
    if f != name:
        out.append(finding(VIOLATED, "the named deviation is called", site, "%s: calls %s" % (lab, f)))
        return out
    out.append(finding(PROVED, "the named deviation is called", site, lab))
    for k, want in (("data", data), ("rate", r), ("data_type", Const(dt)), ("taus", taus)):
        if k not in env:
            out.append(finding(UNDECIDED, "argument %s" % k, site, "%s: %s has no parameter of that name" % (lab, f)))
            continue
        v, why = same_arg(c, c.st, env[k], want, P)
        out.append(finding(v, "argument %s" % k, site, "%s: %s" % (lab, why)))
    return out


def check_results(c, ds, o, name, k, P, lab, site):
    """returned and stored dictionaries hold the four outputs of the k-th call"""
    out = []
    st = o.st
    ret = c.I.deref(st, o.value)
    sto = out_of(c, ds, st)
    for what, d in (("returned", ret), ("stored", sto)):
        for p, key in zip("tden", KEYS):
            rule = "%s[%s]" % (what, key)
            if not isinstance(d, Dct):
                out.append(finding(UNDECIDED, rule, site, "%s: not a dictionary" % lab))
                continue
            v = entry(d, key)
            if v is None:
                out.append(finding(VIOLATED, rule, site, "%s: missing" % lab))
                continue
            a = c.I.arr(st, v)
            if a is None:
                out.append(finding(UNDECIDED, rule, site, "%s: not an array" % lab))
                continue
            w = Arr("nd", num(3), lambda i: el("%s_%s%d" % (p, name, k), i), "f")
            r, why = arr_same(c, st, w, a, P)
            out.append(finding(r, rule, site, "%s: %s" % (lab, why)))
    if isinstance(sto, Dct):
        v = entry(sto, "stat_id")
        ok = isinstance(v, Const) and v.v == name
        out.append(finding(PROVED if ok else VIOLATED if isinstance(v, Const) or v is None else UNDECIDED, "stored[stat_id]", site, "%s: %s" % (lab, v)))
    return out


def ctx(rec):
    c = Case({N: s + 12, K: k0 + 1}, (), rec.stubs(), False)
    c.P = c.points({s: [0, 1, 5], k0: [1, 2, 3], rate: MRATES, rate2: MRATES}, 6)
    return c


def site_():
    return def_site(DS, "Dataset.compute")


def taus_value(c, how):
    if how == "none":
        return NONE
    if how in ("nd", "list"):
        return arr(c, K, "tau", how)
    return Const(how)


def run_ob(name, how, dt, kind, tk):
    rec = Rec()
    c = ctx(rec)
    data, taus = arr(c, N, "x", kind), taus_value(c, tk)
    ds = dataset(c, how, data, rate, dt, taus)
    snap = snapshot(c, c.st, [("data", data), ("taus", taus)])
    o = compute(c, ds, name)
    lab = "%s/%s/%s/%s/%s" % (name, how, dt, kind, tk)
    cov = coverage_of(c.I)
    if o.value is None:
        if not rec.calls and not any(opaque_atoms(r[0]) for r in o.raises):
            arity = [x for x in c.I.events if x.kind == "arity"]
            if arity:
                return [finding(UNDECIDED, "the named deviation is called", site_(), "%s: called with the wrong arguments (decided by C29)" % lab)], cov
            return [finding(VIOLATED, "the named deviation is called", site_(), "%s: raises %s without calling it" % (lab, raises_names(o)))], cov
        return [finding(UNDECIDED, "the named deviation is called", site_(), "%s: %s" % (lab, raises_names(o)))], cov
    if len(rec.calls) != 1:
        if not rec.calls:
            return [finding(UNDECIDED, "the named deviation is called", site_(), "%s: no call recognised" % lab)], cov
        others = [q[0] for q in rec.calls if q[0] != name]
        if len([q for q in rec.calls if q[0] == name]) != 1:
            return [finding(VIOLATED if not others else UNDECIDED, "called once", site_(), "%s: calls %s" % (lab, [q[0] for q in rec.calls]))], cov
    k = next((i for i, q in enumerate(rec.calls) if q[0] == name), 0)
    out = check_call(c, rec.calls[k], name, data, rate, dt, taus, c.P, lab, site_())
    if out[0]["verdict"] == PROVED:
        out += check_results(c, ds, o, name, k + 1, c.P, lab, site_())
    i = inp_of(c, ds, o.st)
    if isinstance(i, Dct):
        for key, want in (("data", data), ("rate", rate), ("data_type", Const(dt)), ("taus", taus)):
            v, why = same_arg(c, o.st, entry(i, key), want, c.P)
            out.append(finding(v, "input left as set", site_(), "%s: %s %s" % (lab, key, why)))
    return out, cov


def refused_ob(name, before):
    """a name that is not a deviation"""
    rec = Rec()
    c = ctx(rec)
    data, taus = arr(c, N, "x"), arr(c, K, "tau")
    ds = dataset(c, "init/keyword", data, rate, "phase", taus)
    if before:
        o = compute(c, ds, "oadev")
        if o.value is None:
            return [finding(UNDECIDED, "refused", site_(), "compute fails")], coverage_of(c.I)
    n0 = len(rec.calls)
    st0 = c.st.fork()
    d0, i0 = out_of(c, ds, st0), inp_of(c, ds, st0)
    o = compute(c, ds, name)
    lab = "%r%s" % (name, " after a computation" if before else "")
    out = []
    called = [q[0] for q in rec.calls[n0:]]
    if called:
        out.append(finding(VIOLATED, "refused names call nothing", site_(), "%s: calls %s" % (lab, called)))
    elif o.value is not None:
        ops = [x for x in c.I.events if x.kind in ("call-opaque", "getattr-dynamic")]
        out.append(finding(UNDECIDED if is_op(c, o) else VIOLATED, "refused names raise", site_(), "%s: returns %s" % (lab, o.value)))
    else:
        out.append(finding(PROVED, "refused names raise", site_(), "%s: %s" % (lab, raises_names(o))))
    out += unchanged(c, ds, d0, i0, after(c, o), lab, st0)
    return out, coverage_of(c.I)


def is_op(c, o):
    v = c.I.deref(o.st, o.value)
    if isinstance(v, E):
        return is_opaque(v)
    if isinstance(v, Dct):
        return any(isinstance(c.I.deref(o.st, x), E) and is_opaque(c.I.deref(o.st, x)) for x in v.d.values())
    return False


def unchanged(c, ds, d0, i0, st, lab, st0):
    out = []
    for what, x0, x1 in (("results", d0, out_of(c, ds, st)), ("input", i0, inp_of(c, ds, st))):
        rule = "%s left as they were" % what
        if x0 is x1:
            out.append(finding(PROVED, rule, site_(), lab + ": the same dictionary content"))
        elif isinstance(x0, Dct) and isinstance(x1, Dct):
            bad, und = [], []
            for k in list(x0.d) + [k for k in x1.d if k not in x0.d]:
                a, b = x0.d.get(k), x1.d.get(k)
                if a is None or b is None:
                    bad.append("key %s %s" % (k, "added" if a is None else "removed"))
                    continue
                if a is b or a == b:
                    continue
                v, why = same_arg(c, st, b, a, c.P)
                if v == VIOLATED:
                    bad.append("%s: %s" % (k, why))
                elif v == UNDECIDED:
                    und.append("%s: %s" % (k, why))
            out.append(finding(VIOLATED if bad else UNDECIDED if und else PROVED, rule, site_(), "%s: %s" % (lab, (bad or und or ["equal"])[0])))
        elif x0 is None or x1 is None:
            out.append(finding(UNDECIDED, rule, site_(), lab))
        else:
            out.append(finding(UNDECIDED, rule, site_(), lab + ": %s" % (x1,)))
    return out


def failing_ob(name, before):
    """the computation raises"""
    rec = Rec(fail=[name])
    c = ctx(rec)
    data, taus = arr(c, N, "x"), arr(c, K, "tau")
    ds = dataset(c, "set/keyword", data, rate, "freq", taus)
    if before and before != name:
        o = compute(c, ds, before)
        if o.value is None:
            return [finding(UNDECIDED, "failing computation", site_(), "compute fails")], coverage_of(c.I)
    st0 = c.st.fork()
    d0, i0 = out_of(c, ds, st0), inp_of(c, ds, st0)
    o = compute(c, ds, name)
    lab = "%s raises%s" % (name, " after " + before if before else "")
    out = []
    if o.value is not None:
        out.append(finding(VIOLATED if not is_op(c, o) else UNDECIDED, "exceptions reach the caller", site_(), "%s: compute returns" % lab))
    elif not rec.calls or rec.calls[-1][0] != name:
        return [finding(UNDECIDED, "exceptions reach the caller", site_(), lab + ": not called")], coverage_of(c.I)
    else:
        out.append(finding(PROVED, "exceptions reach the caller", site_(), "%s: %s" % (lab, raises_names(o))))
    out += unchanged(c, ds, d0, i0, after(c, o), lab, st0)
    return out, coverage_of(c.I)


def history_ob(steps):
    """steps: ('set', tag) or ('run', name)"""
    rec = Rec()
    c = ctx(rec)
    out = []
    vals = {}

    def inputs(tag):
        if tag not in vals:
            vals[tag] = (arr(c, N, "x%s" % tag), [rate, rate2][tag % 2], ["phase", "freq"][tag % 2], arr(c, K, "tau%s" % tag) if tag != 3 else NONE)
        return vals[tag]
    cur = None
    ds = None
    lab = " ".join("%s(%s)" % x for x in steps)
    for what, a in steps:
        if what == "init":
            cur = inputs(a)
            ds = dataset(c, "init/keyword", *cur)
        elif what == "set":
            if ds is None:
                ds = dataset(c, "set/positional", *inputs(a))
            else:
                setin(c, ds, "set/positional", *inputs(a))
            cur = inputs(a)
        else:
            n0 = len(rec.calls)
            o = compute(c, ds, a)
            if allowed(a):
                mine_ = [k for k in range(n0, len(rec.calls)) if rec.calls[k][0] == a]
                if o.value is None or not mine_:
                    known = rec.calls[n0:] == [] and o.value is not None and not is_op(c, o)
                    out.append(finding(VIOLATED if known else UNDECIDED, "every compute() runs the deviation", site_(),
                                       "%s: %s is not run" % (lab, a)))
                    return out, coverage_of(c.I)
                out += check_call(c, rec.calls[mine_[-1]], a, cur[0], cur[1], cur[2], cur[3], c.P, lab, site_())
                out += check_results(c, ds, o, a, mine_[-1] + 1, c.P, lab, site_())
    return out, coverage_of(c.I)


def obligations(tier):
    obs = []
    t = package().trees.get(AT)
    names = module_functions() if t else []
    devs = [n for n in names if (n in SPEC or n in WHITE) and allowed(n)]
    hows = ("init/keyword", "init/positional", "set/keyword", "set/positional")
    for j, n in enumerate(devs):
        for k, (how, dt, kind, tk) in enumerate(itertools.product(hows, ("phase", "freq"), ("nd", "list"), ("nd", "none", "octave", "all", "list"))):
            if tier == "quick" and (k + j) % 7 and not (n == "oadev" and kind == "nd"):
                continue
            obs.append(Ob("compute/%s/%s/%s/%s/%s" % (n, how, dt, kind, tk), run_ob, n, how, dt, kind, tk))
    bad = [n for n in names if not allowed(n)] + ["np", "ci", "nosuchdev", "nosuch", "", "dev", "DEV", "oadev ", "Oadev", "mtie2", "xtheo1", "__name__", "__doc__", "os"]
    for n in bad:
        for before in (False, True):
            if tier == "quick" and before and n in names and names.index(n) % 3:
                continue
            obs.append(Ob("refuse/%s/%s" % (n, before), refused_ob, n, before))
    for n in devs if tier == "thorough" else devs[:1] + [x for x in ("mtie", "theo1", "gradev") if x in devs]:
        for before in (None, "mdev"):
            obs.append(Ob("raise/%s/%s" % (n, before), failing_ob, n, before))
    for h in ([("init", 0), ("run", "adev"), ("set", 1), ("run", "mdev")],
              [("init", 0), ("run", "adev"), ("set", 1), ("run", "adev")],
              [("init", 0), ("run", "adev"), ("run", "mdev"), ("run", "adev")],
              [("set", 1), ("run", "theo1"), ("set", 2), ("run", "theo1"), ("run", "mtie")],
              [("set", 3), ("run", "oadev"), ("run", "oadev"), ("set", 0), ("run", "oadev")],
              [("set", 3), ("run", "oadev"), ("run", "nosuch"), ("run", "hdev")],
              [("set", 1), ("set", 3), ("run", "tierms")],
              [("init", 3), ("run", "tdev"), ("set", 3), ("run", "totdev")]):
        obs.append(Ob("history/" + " ".join("%s(%s)" % x for x in h), history_ob, h))
    return obs
