"""Obligations, verdicts, contexts and the comparison of value numbers."""
import ast
import itertools
import json
import math
import os
import random
import sys
import time
import traceback
from fractions import Fraction as F

sys.setrecursionlimit(20000)

import alg
import interp as ip
import values as V
import alg_eval
from alg import sym, num, el, ZERO, ONE, the_atom, E, Cond, lift
from values import Const, NONE, Tup, Ref, Arr, Dct, Obj, Func, Cls, Ext, Fmt, is_opaque, opaque_atoms, opq

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)

PROVED, AGREED, VIOLATED, UNDECIDED = "proved", "agreed", "violated", "undecided"

_pk = {}


def package(root=None):
    root = root or REPO
    if root not in _pk:
        _pk[root] = ip.Package(root)
    return _pk[root]


def ref_package():
    return package(os.path.join(HERE, "ref"))


class Finding(dict):
    pass


def finding(verdict, rule, where="", detail=""):
    return {"verdict": verdict, "rule": rule, "where": where, "detail": str(detail)[:4000]}


def def_site(modname, fname, pkg=None):
    """file:line of a function or method definition"""
    pkg = pkg or package()
    t = pkg.trees.get(modname)
    if t is None:
        return "%s (module missing)" % modname
    parts = fname.split(".")
    body = t.body
    node = None
    for p in parts:
        node = None
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)) and s.name == p:
                node = s
        if node is None:
            return "%s:%s" % (pkg.files[modname], fname)
        body = node.body
    return "%s:%d %s" % (pkg.files[modname], node.lineno, fname)


def event_site(I, ev):
    f = I.pkg.files.get(ev.mod, ev.mod)
    return "%s:%s %s" % (f, getattr(ev.node, "lineno", "?"), ev.func)


class Case(object):
    """one analysis context: an interpreter over the package under analysis and
    one over the reference definitions, sharing the same assumptions"""

    def __init__(self, slack=None, facts=(), stubs=None, gaps=False, budget=400000):
        self.ctx = ip.Ctx({the_atom(k).id: v for k, v in (slack or {}).items()}, gaps, facts)
        self.slack = slack or {}
        self.stubs = stubs or {}
        self.I = ip.Interp(package(), self.ctx, self.stubs, budget)
        self.R = ip.Interp(ref_package(), self.ctx, {}, budget)
        self.R.nextcid = 1000000
        self.st = self.I.new_state()
        self.rst = self.R.new_state()

    # data ------------------------------------------------------------------
    def array(self, n, name, kind="nd", dtype="f", I=None, st=None):
        I, st = I or self.I, st or self.st
        return I.alloc(st, Arr(kind, lift(n), (lambda i: el(name, i)), dtype))

    def refarray(self, n, name):
        return self.array(n, name, I=self.R, st=self.rst)

    def call(self, mod, fname, args=(), kw=None):
        f = self.I.function(mod, fname)
        if f is None:
            raise Missing("%s.%s" % (mod, fname))
        o = self.I.run_value(f, list(args), kw or {}, self.st)
        return o

    def ref(self, fname, args=(), kw=None):
        f = self.R.function("allantools.ref", fname)
        o = self.R.run_value(f, list(args), kw or {}, self.rst)
        if o.value is None:
            raise RuntimeError("reference %s raises: %s" % (fname, o.raises))
        return o

    # points ----------------------------------------------------------------
    def points(self, free, count=6, extra=None, wide=()):
        """free: {symbol expr: list of candidate values}; dependent symbols are
        computed from the slack map; wide: the symbols with no upper bound"""
        rnd = random.Random(SEED * 7919 + 13)
        out = []
        for k in range(count):
            syms = {}
            for s, cand in free.items():
                syms[the_atom(s).id] = cand[k % len(cand)] if k < len(cand) and len(free) == 1 else rnd.choice(cand)
            p = alg_eval.Point(seed=SEED * 100 + k, syms=syms)
            p.arrays = ArrayData(p.seed)
            p.indep = dict(syms)
            p.slackmap = self.slack
            p.wide = [the_atom(s).id for s in wide]
            for s, v in self.slack.items():
                p.syms[the_atom(s).id] = p.ev(v)
            out.append(p)
        return out


def respawn(p, changes=None, arrays=None, budget=600000):
    """the same point with some independent symbols or the data changed"""
    ind = dict(p.indep)
    ind.update(changes or {})
    q = alg_eval.Point(seed=p.seed, syms=ind, budget=budget)
    q.arrays = arrays or p.arrays
    q.indep, q.slackmap, q.wide = ind, p.slackmap, p.wide
    if budget > 600000:
        q.longest = 2 * HUGE
    for s, v in p.slackmap.items():
        q.syms[the_atom(s).id] = q.ev(v)
    return q


def conditions(x, acc, seen):
    """comparison conditions inside a value number"""
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                if aid not in seen:
                    seen.add(aid)
                    for y in alg.atom(aid).args:
                        conditions(y, acc, seen)
    elif isinstance(x, Cond):
        if x.op in ("lt", "le", "eq"):
            acc.append(x.args[0])
        for y in x.args:
            conditions(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            conditions(y, acc, seen)
    elif isinstance(x, alg.PWKey):
        conditions(x.pieces, acc, seen)
    return acc


LARGEST = 2600          # evaluated with every kind of data
HUGE = 140000           # evaluated once on each side, with a larger budget
REALS = ("rate", "rate2", "fs", "tau0", "c")     # positive quantities without an upper bound


def divisors(x, acc, seen):
    """constant divisors of mod and integer division inside conditions and indices"""
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                if aid not in seen:
                    seen.add(aid)
                    a = alg.atom(aid)
                    if a.kind == "fn" and a.args[0] in ("mod", "floor", "floordiv", "ceildiv") and isinstance(a.args[-1], E):
                        for k in ([a.args[-1].const()] if a.args[0] in ("mod", "floordiv", "ceildiv") else
                                  [1 / abs(F(v)) for mm, v in a.args[1].t.items() if mm and v]):
                            if k is not None and 4 <= k <= HUGE and F(k).denominator == 1:
                                acc.add(int(k))
                    for y in a.args:
                        divisors(y, acc, seen)
    elif isinstance(x, Cond):
        for y in x.args:
            divisors(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            divisors(y, acc, seen)
    elif isinstance(x, alg.PWKey):
        divisors(x.pieces, acc, seen)
    return acc


def crossing(p, aid, e, a, b, g):
    """where the expression changes its sign, if it is linear in g(symbol)"""
    try:
        f = [F(respawn(p, {aid: v}).ev(e)) for v in (a, b)]
        if f[1] != f[0]:
            return g(a) - f[0] * (g(b) - g(a)) / (f[1] - f[0])
    except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError, RecursionError):
        pass
    return None


def boundaries(points, exprs):
    """points on both sides of the thresholds that occur in conditions"""
    cs = []
    seen = set()
    for e in exprs:
        conditions(e, cs, seen)
    seen = set()
    div = set()
    for e in exprs:
        divisors(e, div, seen)
    if not cs and not div:
        return []
    out = []
    far = []
    done = set()
    reals = []
    for p in points[:1]:
        for aid in getattr(p, "wide", ()):
            vals = set()
            for d in sorted(div)[:6]:
                # the values at which a symbol that depends on this one is a multiple of the divisor
                vals |= {k * d - j for k in (1, 2) for j in range(4)} if d <= LARGEST else {d + 3}
            for e in cs[:40]:
                for c in [abs(x) for x in e.t.values()]:
                    if 6 <= c <= LARGEST and F(c).denominator == 1:
                        vals.add(int(c) + 2)
                z = crossing(p, aid, e, 3, 4, lambda v: v)
                if z is not None:
                    vals |= {int(z), int(z) + 1, int(z) + 2}
            for v in sorted(vals):
                if v >= 4 and (aid, v) not in done:
                    done.add((aid, v))
                    if v <= LARGEST:
                        out.append((aid, v))
                    elif v <= HUGE:
                        far.append((aid, v))
        for aid in p.indep:
            a = alg.atom(aid)
            if a.kind == "sym" and str(a.args[0]) in REALS and aid not in getattr(p, "wide", ()):
                for e in cs[:40]:
                    for g in (lambda v: F(v), lambda v: 1 / F(v)):
                        z = crossing(p, aid, e, F(2), F(3), g)
                        z3 = crossing(p, aid, e, F(2), F(7), g)
                        if z is not None and z == z3 and z > 0:
                            reals += [(aid, g(z) * 2), (aid, g(z) / 2), (aid, g(z))]
    if len(out) > 8:
        out = sorted(random.Random(SEED).sample(out, 8))
    if len(reals) > 9:
        reals = sorted(random.Random(SEED).sample(reals, 9))
    far = far[-3:]
    return [respawn(points[0], {aid: v}) for aid, v in out + reals] + [
        respawn(points[0], {aid: v}, arrays=ArrayData(points[0].seed, "grow")) for aid, v in out[:4] if v > 100] + [
        respawn(points[0], {aid: v}, budget=12000000) for aid, v in far]


def stress_points(points, exprs):
    """degenerate and extreme data, and lengths beyond thresholds"""
    points = [p for p in points if type(p.arrays) is ArrayData and hasattr(p, "indep")]
    out = []
    for p in points[:1] if len(points) == 1 else points[:1] + points[-1:]:
        for mode in ArrayData.MODES:
            out.append(respawn(p, arrays=ArrayData(p.seed, mode)))
    return out + boundaries(points[::-1], exprs)


def construct(c, mod, cname, args=(), kw=None, st=None):
    """instantiate a class of the package"""
    cls = c.I.function(mod, cname)
    if cls is None:
        raise Missing("%s.%s" % (mod, cname))
    return c.I.run_value(cls, list(args), kw or {}, st or c.st)


def method(c, obj, name, args=(), kw=None, st=None):
    """call a method of an object"""
    st = st or c.st
    fr = ip.Frame(None, c.I)
    f = c.I.getattr_(obj, name, st, fr, None)
    return c.I.run_value(f, list(args), kw or {}, st)


def attr(c, obj, name, st):
    d = c.I.deref(st, obj)
    v = d.attrs.get(name) if isinstance(d, Obj) else None
    return None if v is None else c.I.deref(st, v)


class Missing(Exception):
    pass


class ArrayData(object):
    """integer pseudo-random data, so that sums are exact"""

    # what cancellation under a square root leaves of the data's magnitude
    NOISE = {"sparse": 1e-3, "constant": 1e-4, "ramp": 1e-4, "large": 1e4, "small": 1e-15, "grow": 1e-3, "decay": 1e-4, "tiny": 1e-52, "huge": 1e22}
    MODES = ("sparse", "constant", "ramp", "large", "small", "grow", "decay", "tiny", "huge")

    def __init__(self, seed, mode=None):
        self.seed = seed
        self.mode = mode

    def get(self, name):
        if name in alg.POS_ARRAYS and self.mode in ("tiny", "huge") and str(name).startswith("dev"):
            scale = F(1, 10 ** 45) if self.mode == "tiny" else 10 ** 25
            return lambda i: scale * (int(alg_eval.hrand(self.seed, name, i) * 200) + 1)
        if name in alg.POS_ARRAYS:
            return lambda i: int(alg_eval.hrand(self.seed, name, i) * 200) + 1
        f = lambda i: int(alg_eval.hrand(self.seed, name, i) * 401) - 200
        if self.mode == "sparse":
            return lambda i: 0 if alg_eval.hrand(self.seed, name, i, 1) < 0.6 else f(i)
        if self.mode == "constant":
            return lambda i: 7
        if self.mode == "ramp":
            return lambda i: 3 * i + 2
        if self.mode == "grow":
            return lambda i: f(i) + 5 * i * i
        if self.mode == "decay":
            return lambda i: f(i) + 40000 // (2 * i + 1)
        if self.mode == "large":
            return lambda i: f(i) * 10 ** 7 + 1
        if self.mode == "tiny":
            return lambda i: F(f(i), 10 ** 45)
        if self.mode == "huge":
            return lambda i: f(i) * 10 ** 25
        if self.mode == "small":
            return lambda i: F(f(i), 10 ** 12)
        return f


def lazy_stress(points, *exprs):
    if points:
        for p in stress_points(list(points), exprs):
            yield p


def same(got, want, points=(), need=2, quick_equal=True):
    """compare two value numbers: (verdict, explanation)"""
    if got == want:
        return PROVED, "equal value numbers"
    if got is None or want is None:
        return UNDECIDED, "no value number"
    oa = opaque_atoms(got)
    if oa:
        return UNDECIDED, "unmodelled construct in the value: %s" % ", ".join(sorted(str(x)[:120] for x in oa.values())[:3])
    if opaque_atoms(want):
        return UNDECIDED, "unmodelled construct in the reference"
    try:
        d = alg.zero_by_normal_form(got - want)
        if d is True or (isinstance(d, E) and not d.t):
            return PROVED, "difference normalises to zero"
    except Exception:
        pass
    ok = 0
    why = []
    extra = V.fn_names(got) ^ V.fn_names(want)
    for p in itertools.chain(points, lazy_stress(points, got, want)):
        try:
            a, b = p.ev(got), p.ev(want)
            mode = getattr(p.arrays, "mode", None)
            small = mode in ("small", "tiny")
            hashed = extra & p.used
            if hashed:
                why.append("uninterpreted function %s" % ", ".join(sorted(map(str, hashed))))
                continue
        except (alg_eval.Undefined, ZeroDivisionError) as ex:
            w = undefined(p, got, want)
            if w:
                return VIOLATED, w
            why.append(str(ex))
            continue
        except alg_eval.NoValue as ex:
            why.append(str(ex))
            continue
        except (OverflowError, RecursionError, ValueError, TypeError) as ex:
            why.append("%s %s" % (type(ex).__name__, ex))
            continue
        tol = 0.0
        if not (isinstance(a, (int, F)) and isinstance(b, (int, F))):
            try:
                tol = 1e-10 * max(alg_eval.cond_number(p, got), alg_eval.cond_number(p, want))
            except Exception:
                tol = {"small": 1e-18, "tiny": 1e-52}.get(mode, 1e-6)
        if alg_eval.close_to(a, b, 1e-7, max(tol, ArrayData.NOISE.get(mode, 1e-12))):
            ok += 1
        else:
            sy = {alg.atom(k).args[0]: (str(v) if not isinstance(v, float) else v) for k, v in p.syms.items()
                  if alg.atom(k).kind == "sym" and not str(alg.atom(k).args[0]).startswith(("pi", "1j"))}
            return VIOLATED, "value numbers differ: code has %s, definition has %s; separated at %s: %s against %s" % (
                alg.estr(got)[:600], alg.estr(want)[:600], {k: v for k, v in sorted(sy.items(), key=str) if "~" not in k and "#" not in k},
                fmt(a), fmt(b))
    if ok >= need:
        return AGREED, "normal forms differ in shape but agree under random interpretation at %d points" % ok
    return UNDECIDED, "not separable (%s)" % "; ".join(why[:3])


def undefined(p, got, want):
    """the definition has a finite value where the code divides by zero or
    takes the logarithm of zero"""
    try:
        b = p.ev(want)
        if set(p.used) or not math.isfinite(abs(complex(b))):
            return None
    except Exception:
        return None
    try:
        p.ev(got)
    except (alg_eval.Undefined, ZeroDivisionError) as ex:
        if set(p.used):
            return None
        sy = {alg.atom(k).args[0]: str(v) for k, v in p.syms.items() if alg.atom(k).kind == "sym" and not str(alg.atom(k).args[0]).startswith(("pi", "1j"))}
        return "no finite value (%s) where the definition gives %s: code has %s; at %s" % (
            ex, fmt(b), alg.estr(got)[:400], {k: v for k, v in sorted(sy.items(), key=str) if "~" not in k and "#" not in k})
    except Exception:
        pass
    return None


def fmt(a):
    if isinstance(a, complex):
        return "%.12g%+.12gj" % (a.real, a.imag)
    return "%.12g" % float(a)


def same_bool(got, want, points=(), need=2):
    """compare two conditions"""
    return same(alg.ite(got, ONE, ZERO) if isinstance(got, Cond) else got,
                alg.ite(want, ONE, ZERO) if isinstance(want, Cond) else want, points, need)


# --------------------------------------------------------------------------
# running obligations


class Ob(object):
    def __init__(self, name, fn, *args, **kw):
        self.name = name
        self.fn = fn
        self.args = args
        self.kw = kw
        self.timeout = kw.pop("timeout", 300)


def run_ob(ob):
    t = time.time()
    try:
        r = ob.fn(*ob.args, **ob.kw)
    except Missing as ex:
        r = ([finding(UNDECIDED, "anchor", "", "not found in the sources: %s" % ex)], {})
    except (ip.Unmodelled, ip.Budget, alg.Limit, RecursionError, MemoryError) as ex:
        r = ([finding(UNDECIDED, "outside the analysed subset", "", "%s: %s" % (type(ex).__name__, ex))], {})
    except Exception as ex:
        r = ([finding(UNDECIDED, "analysis failure", "", traceback.format_exc()[-1500:])], {})
    if isinstance(r, tuple):
        fs, cov = r
    else:
        fs, cov = r, {}
    return {"name": ob.name, "findings": fs, "cov": cov, "wall": round(time.time() - t, 2)}


def coverage_of(*interps):
    funcs = set()
    steps = 0
    for I in interps:
        if I.pkg is package():
            for m, f in I.visited_funcs:
                funcs.add(m + "." + f)
            steps += I.steps
    return {"functions": sorted(funcs), "statements": steps}


def source_constants(I, lo, hi):
    """integer constants between lo and hi that the interpreted functions mention, also by the name of a module constant"""
    import ast
    out = set()

    def add(x):
        if isinstance(x, ast.Constant) and isinstance(x.value, (int, float)) and not isinstance(x.value, bool) and lo < x.value <= hi and x.value == int(x.value):
            out.add(int(x.value))
    for m, f in I.visited_funcs:
        t = I.pkg.trees.get(m)
        if t is None:
            continue
        names = {}
        for x in t.body:
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                names[x.targets[0].id] = x.value
        for d in ast.walk(t):
            if isinstance(d, ast.FunctionDef) and d.name == f.split(".")[-1]:
                for x in ast.walk(d):
                    add(x)
                    if isinstance(x, ast.Name) and x.id in names:
                        for y in ast.walk(names[x.id]):
                            add(y)
    return sorted(out)


def run_all(obs, jobs=None, timeout=300, total=0):
    """each obligation in its own process (value numbers are process-global)"""
    jobs = jobs or max(1, min(8, os.cpu_count() or 1))
    pending = list(obs)
    running = {}
    results = {}
    start = time.time()
    while pending or running:
        if total and time.time() - start > total:
            for ob in pending:
                results[ob.name] = {"name": ob.name, "findings": [finding(UNDECIDED, "time limit", "", "total")], "cov": {}, "wall": 0}
            pending = []
        while pending and len(running) < jobs:
            ob = pending.pop(0)
            rfd, wfd = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                try:
                    import resource
                    lim = 4 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    res = run_ob(ob)
                    data = json.dumps(res).encode()
                except BaseException as ex:
                    data = json.dumps({"name": ob.name, "findings": [finding(UNDECIDED, "analysis failure", "", repr(ex))],
                                       "cov": {}, "wall": 0}).encode()
                try:
                    with os.fdopen(wfd, "wb") as w:
                        w.write(data)
                finally:
                    os._exit(0)
            os.close(wfd)
            running[pid] = (ob, rfd, time.time(), bytearray())
            os.set_blocking(rfd, False)
        import select
        fds = {v[1]: p for p, v in running.items()}
        rd, _, _ = select.select(list(fds), [], [], 0.5)
        for fd in rd:
            pid = fds[fd]
            ob, _, t0, buf = running[pid]
            try:
                chunk = os.read(fd, 1 << 16)
            except BlockingIOError:
                continue
            if chunk:
                buf.extend(chunk)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del running[pid]
            try:
                results[ob.name] = json.loads(bytes(buf).decode())
            except ValueError:
                results[ob.name] = {"name": ob.name, "findings": [finding(UNDECIDED, "analysis failure", "", "no result")], "cov": {}, "wall": 0}
        now = time.time()
        for pid in list(running):
            ob, fd, t0, buf = running[pid]
            lim = min(ob.timeout, timeout) if timeout else ob.timeout
            if now - t0 > lim or (total and now - start > total):
                try:
                    os.kill(pid, 9)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                os.close(fd)
                del running[pid]
                results[ob.name] = {"name": ob.name, "findings": [finding(UNDECIDED, "time limit", "", "%ds" % lim)], "cov": {}, "wall": lim}
    return [results[o.name] for o in obs]
