"""C16: containers and number types of the data do not matter."""
import ast
from variants import *

EXPLANATION = ("each estimator and conversion is analysed with its data as float array, integer array, list of floats and list of "
               "integers (symbolic contents and length; the interpreter tracks container kind and dtype, truncates stores into "
               "integer arrays and treats list operators as list operators); the value numbers of all outputs must be the same, "
               "and an operation on a list that Python answers with an exception is a violation.")

KINDS = [("nd", "i"), ("list", "f"), ("list", "i")]
NAMES = {("nd", "i"): "integer array", ("list", "f"): "list of floats", ("list", "i"): "list of integers"}


def ob(name, par, dt, kind, dtype):
    rule = "%s gives the float-array result" % NAMES[(kind, dtype)]
    a = run_dev(name, par, dt)
    b = run_dev(name, par, dt, kind=kind, dtype=dtype)
    cov = coverage_of(a.case.I, b.case.I)
    if a.rows is not None and b.rows is None and b.raises and b.out.value is None:
        ev = events(b, "list-arith", "attr-missing", "none-arith")
        if ev:
            return [finding(VIOLATED, rule, event_site(b.case.I, ev[0]), "%s %s: %s, raising %s" % (
                name, dt, ev[0].kind, sorted({x[1] for x in b.raises})))], cov
    return relate(name, par, dt, rule, lambda: a, lambda: b, ONE)


CONV = [("frequency2phase", "y", ["rate"]), ("phase2frequency", "x", ["rate"]), ("phase2radians", "x", ["v0"]),
        ("frequency2fractional", "nu", []), ("frequency2fractional", "nu", ["mean"])]


def plain_scalar(e, f):
    """is the other operand of a list made of the function's own scalar arguments and literals"""
    if not isinstance(e.node, ast.BinOp) or e.func != f.name:
        return False
    pars = [x.arg for x in f.node.args.args[1:]]
    stores = {x.id for x in ast.walk(f.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}

    def ok(x):
        if isinstance(x, ast.BinOp):
            return ok(x.left) and ok(x.right)
        if isinstance(x, ast.UnaryOp):
            return ok(x.operand)
        if isinstance(x, ast.Attribute):
            return x.attr == "pi"
        return isinstance(x, ast.Constant) or isinstance(x, ast.Name) and x.id in pars and x.id not in stores
    return ok(e.node.left) or ok(e.node.right)


def conv(fname, extra, kind, dtype):
    rule = "%s gives the float-array result" % NAMES[(kind, dtype)]
    where = def_site(AT, fname)
    N = sym("N", int=True, pos=True, w=1000)
    s = sym("s", int=True, nonneg=True, w=1)
    ex = [sym(x, pos=True, w=3) for x in extra]
    res = []
    for k, d in (("nd", "f"), (kind, dtype)):
        c = Case({N: 3 + s})
        kw = {}
        args = [c.I.alloc(c.st, Arr(k, N, lambda i: el("x", i), d))]
        if extra == ["mean"]:
            kw["mean_frequency"] = ex[0]
        else:
            args += ex
        o = c.call(AT, fname, args, kw)
        res.append((c, o))
    (c0, o0), (c1, o1) = res
    cov = coverage_of(c0.I, c1.I)
    if o1.value is None:
        ev = [e for e in c1.I.events if e.kind in ("list-arith", "attr-missing", "none-arith")]
        if ev and o0.value is not None:
            return [finding(VIOLATED, rule, event_site(c1.I, ev[0]), "%s on this container raises" % ev[0].kind)], cov
        return [finding(UNDECIDED, rule, where, "no value")], cov
    for e in c1.I.events:
        if e.kind == "list-arith" and plain_scalar(e, c1.I.function(AT, fname)):
            return [finding(VIOLATED, rule, event_site(c1.I, e), "a list is combined with a plain number, which raises TypeError")], cov
    a, b = c0.I.arr(o0.st, o0.value), c1.I.arr(o1.st, o1.value)
    if a is None or b is None:
        return [finding(UNDECIDED, rule, where, "not a sequence")], cov
    free = {s: [0, 1, 2, 5]}
    for e in ex:
        free[e] = [F(5, 2), F(3), F(1, 4)]
    P = c1.points(free)
    out = []
    v, why = same(b.n, a.n, P, 1)
    out.append(finding(v, rule + ": length", where, "%s: %s" % (fname, why)))
    for idx, lab in ((ZERO, "first"), (ONE, "second"), (a.n - 1, "last")):
        v, why = same(b.at(idx), a.at(idx), P, 1)
        out.append(finding(v, rule + ": %s value" % lab, where, "%s: %s" % (fname, why)))
    return out, cov


def obligations(tier):
    obs = []
    for n in SPEC:
        for par in quick_pars(n, tier):
            for dt in ("phase", "freq"):
                for k, d in KINDS:
                    if light(n, par, dt, tier) or par in ("one", "two"):
                        obs.append(Ob("%s/%s/%s/%s-%s" % (n, par, dt, k, d), ob, n, par, dt, k, d))
    for f, _, ex in CONV:
        for k, d in KINDS:
            obs.append(Ob("%s/%s/%s-%s" % (f, ",".join(ex), k, d), conv, f, ex, k, d))
    return obs
