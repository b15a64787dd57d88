"""Abstract semantics of the numpy / scipy / math / builtin functions the
analysed package uses, in terms of value numbers.  Anything not listed becomes
an opaque value: the analysis then abstains on results that depend on it."""
import ast
import math
import alg
from alg import (E, Cond, num, lift, ZERO, ONE, TRUE, FALSE, c_not, c_and, c_or, c_cmp, F, fn)
from values import (Const, NONE, Tup, Ref, Arr, Dct, Obj, Func, Cls, Bound, Meth, Mod, Ext, Super,
                    Fmt, opq, vsubst, is_opaque)

NUMPY = ("numpy",)

CONSTS = {
    "numpy.pi": alg.PI, "math.pi": alg.PI, "numpy.inf": alg.INF, "math.inf": alg.INF,
    "numpy.nan": alg.NAN, "math.nan": alg.NAN, "numpy.Inf": alg.INF, "numpy.NaN": alg.NAN,
    "numpy.e": fn("exp", ONE), "math.e": fn("exp", ONE),
}


def ext_attr(I, v, attr):
    p = v.path + "." + attr
    if p in CONSTS:
        return CONSTS[p]
    if p == "numpy.newaxis":
        return NONE
    return Ext(p)


# --------------------------------------------------------------------------


DTYPES = {"f": ("f", "float64", "d", 8), "i": ("i", "int64", "l", 8), "b": ("b", "bool", "?", 1), "c": ("c", "complex128", "D", 16)}
ND_ONLY = ("size", "shape", "ndim", "T", "real", "imag", "dtype", "strides", "itemsize", "flat", "nbytes", "mean", "sum", "std", "min", "max",
           "astype", "reshape", "cumsum", "flatten", "ravel", "tolist", "dot", "any", "all", "argmax", "argmin", "var")


def dtype_attr(d, attr):
    """attribute of a dtype object"""
    a = [alg.atom(aid) for m in d.t for aid, _ in m]
    if len(a) == 1 and a[0].kind == "opq" and a[0].args[0] == "dtype" and a[0].args[1] in DTYPES:
        k, nm_, ch, sz = DTYPES[a[0].args[1]]
        return {"kind": Const(k), "name": Const(nm_), "char": Const(ch), "itemsize": num(sz), "type": Ext("numpy." + nm_)}.get(attr)
    return None


def value_attr(I, v, d, attr, st, fr, node):
    if isinstance(d, Arr):
        if d.kind in ("list", "tuple", "range") and attr in ND_ONLY and not (attr == "strides"):
            I.event("attr-missing", (d.kind, attr), node, st)
            I.raise_("AttributeError", st, fr, node, explicit=False)
        if attr == "size":
            if d.is2d:
                r = row0(I, st, d)
                return d.n * r.n if r is not None else None
            return d.n
        if attr == "shape":
            if d.is2d:
                r = row0(I, st, d)
                return Tup([d.n, r.n]) if r is not None else opq("shape")
            return Tup([d.n])
        if attr == "ndim":
            return num(2 if d.is2d else 1)
        if attr == "T" and not d.is2d:
            return v
        if attr == "real":
            return I.alloc(st, I.mapa(lambda x: real_(I.to_e(st, x)), d, "f"))
        if attr == "imag":
            return I.alloc(st, I.mapa(lambda x: imag_(I.to_e(st, x)), d, "f"))
        if attr == "dtype":
            return opq("dtype", d.dtype)
        if attr == "strides":
            return Tup([alg.sym("itemsize", pos=True, int=True)] * (2 if d.is2d else 1))
        if attr == "itemsize":
            return alg.sym("itemsize", pos=True, int=True)
        return None
    if isinstance(v, E):
        r = dtype_attr(v, attr)
        if r is not None:
            return r
        if attr == "real":
            return real_(v)
        if attr == "imag":
            return imag_(v)
        if attr == "size":
            return ONE if not is_opaque(v) else None
        if attr == "ndim" and not is_opaque(v):
            return ZERO
        if attr == "shape" and not is_opaque(v):
            return Tup([])
        if attr == "dtype":
            return opq("dtype", "e")
    return None


def real_(e):
    if not isinstance(e, E):
        return e
    if not alg.depends(e, alg.IMAG) and not has_fn(e, ("fft", "ifft", "rfft")):
        return e
    out = ZERO
    iid = alg.the_atom(alg.IMAG).id
    for m, c in e.t.items():
        p = [x for a, x in m if a == iid]
        if not p and not has_fn(E({m: c}), ("fft", "ifft", "rfft")):
            out = out + E({m: c})
        elif p and p[0] == 1 and not has_fn(E({m: c}), ("fft", "ifft", "rfft")):
            continue
        else:
            out = out + fn("real", E({m: c}))
    return out


def imag_(e):
    if not alg.depends(e, alg.IMAG) and not has_fn(e, ("fft", "ifft", "rfft")):
        return ZERO
    return fn("imag", e)


def has_fn(e, names):
    for m in e.t:
        for aid, _ in m:
            a = alg.atom(aid)
            if a.kind == "fn" and a.args[0] in names:
                return True
            if a.kind == "el" and isinstance(a.args[0], tuple) and a.args[0][0] in names:
                return True
    return False


def row0(I, st, d):
    s = alg.fresh("r", int=True, nonneg=True)
    r = I.deref(st, d.at(s))
    return r if isinstance(r, Arr) else None


# --------------------------------------------------------------------------
# reductions


def pieces_of(a):
    return a.pieces if a.pieces is not None else [(ZERO, a.n, a._get)]


def nan_mask(I, c_elem, st):
    """condition that a value is NaN, derived from the data it is built of"""
    if not I.ctx.gaps:
        return FALSE
    if isinstance(c_elem, Cond):
        return FALSE
    conds = []
    seen = set()
    for m in c_elem.t:
        for aid, _ in m:
            nan_walk(alg.atom(aid), conds, seen)
    return c_or(*conds) if conds else FALSE


def nan_walk(a, conds, seen):
    if a.id in seen:
        return
    seen.add(a.id)
    if a.kind == "el" and isinstance(a.args[0], str) and a.args[0].startswith("nan~"):
        conds.append(TRUE)
        return
    if a.kind == "el" and isinstance(a.args[0], str) and not a.args[0].startswith(("ms", "fin~")):
        conds.append(Cond("isnan", alg.lift(a)))
        return
    if a.kind == "sym" and a.args[0] == "nan":
        conds.append(TRUE)
        return
    if a.kind in ("base", "fn"):
        for x in a.args:
            if isinstance(x, E):
                for m in x.t:
                    for aid, _ in m:
                        nan_walk(alg.atom(aid), conds, seen)
    if a.kind in ("ps", "sum", "mx", "mn", "ite", "opq") or (a.kind == "el" and not isinstance(a.args[0], str)):
        conds.append(Cond("opq", "isnan", alg.lift(a)))


def sum_arr(I, st, a, f=None, skipnan=False):
    """sum over a sequence of f(element)"""
    view = a.view
    if view is not None and view[0] == "filter":
        base, mask = view[1], view[2]
        s = alg.fresh("s", int=True, nonneg=True)
        c = mask.at(s)
        if not isinstance(c, Cond):
            c = I.truth(c, st)
        # a may be element-wise derived from the filter: only direct filters
        # carry the view tag
        e = I.to_e(st, base.at(s))
        e = f(e) if f else e
        if skipnan:
            c = c_and(c, c_not(nan_mask(I, e, st)))
        return alg.summation(alg.ite(c, e, ZERO), s, ZERO, base.n)
    c = a.n.const()
    if c is not None and c <= 256:
        out = ZERO
        for x in a.items():
            e = I.to_e(st, x)
            e = f(e) if f else e
            if skipnan:
                e = alg.ite(nan_mask(I, e, st), ZERO, e)
            out = out + e
        return out
    out = ZERO
    for s0, ln, g in pieces_of(a):
        s = alg.fresh("s", int=True, nonneg=True)
        old = I.ctx.facts
        I.ctx.facts = old + (c_cmp("lt", s - ln),)
        try:
            v = g(s)
        finally:
            I.ctx.facts = old
        if isinstance(v, Arr):
            return None
        e = I.to_e(st, v)
        e = f(e) if f else e
        if skipnan:
            e = alg.ite(nan_mask(I, e, st), ZERO, e)
        out = out + alg.summation(e, s, ZERO, ln)
    return out


def ext_arr(I, st, kind, a):
    c = a.n.const()
    if a.view is not None and a.view[0] == "filter":
        return fn("ext" + kind, I.arrkey(st, a))
    if c == 0:
        return opq("max of empty")
    if c is not None and c <= 64:
        items = [I.to_e(st, x) for x in a.items()]
        if all(x.const() is not None for x in items):
            return num((max if kind == "mx" else min)(x.const() for x in items))
        if all(x == items[0] for x in items):
            return items[0]
        if len(items) == 2:
            return alg.max2(*items) if kind == "mx" else alg.min2(*items)
    pcs = pieces_of(a)
    s = alg.fresh("s", int=True, nonneg=True)
    if len(pcs) == 1:
        e = I.to_e(st, pcs[0][2](s))
        # extremum is reached on the element order: reversed index is the same
        return alg.extremum(kind, e, s, a.n)
    vals = []
    for s0, ln, g in pcs:
        vals.append(alg.extremum(kind, I.to_e(st, g(s)), s, ln))
    out = vals[0]
    for v in vals[1:]:
        out = alg.max2(out, v) if kind == "mx" else alg.min2(out, v)
    return out


def axis_of(I, st, kw, args, pos):
    ax = kw.get("axis")
    if ax is None and len(args) > pos:
        ax = args[pos]
    if ax is None or (isinstance(ax, Const) and ax.v is None):
        return None
    return I.to_e(st, ax).const()


def reduce_(I, st, args, kw, node, fr, f1):
    """apply a 1-d reduction along an axis; f1(arr) -> E"""
    a = I.arr(st, args[0])
    if a is None:
        if isinstance(args[0], (E, Cond)) and not is_opaque(I.to_e(st, args[0])):
            a = I.list_arr([I.to_e(st, args[0])], "nd")
        else:
            return opq("reduce", *[I.key(st, x) for x in args])
    ax = axis_of(I, st, kw, args, 1)
    if not a.is2d:
        s = alg.fresh("r", int=True, nonneg=True)
        if a.dtype == "o" or isinstance(I.deref(st, a.at(s)) if a.n.const() is None else None, Arr):
            r = row0(I, st, a) if a.n.const() is None else None
            if r is not None:
                a = a.with_(is2d=True)
    if a.is2d:
        if ax == 1 or ax == -1:
            def get(i):
                r = I.deref(st, a.at(i))
                if not isinstance(r, Arr):
                    return opq("row")
                return f1(r)
            return I.alloc(st, Arr("nd", a.n, get, a.dtype))
        if ax == 0:
            r = row0(I, st, a)
            if r is None:
                return opq("axis0")

            def getc(j):
                col = Arr("nd", a.n, lambda i: I.deref(st, a.at(i)).at(j), a.dtype)
                return f1(col)
            return I.alloc(st, Arr("nd", r.n, getc, a.dtype))
        return opq("reduce2d", I.key(st, a))
    return f1(a)


def mean1(I, st, a):
    s = sum_arr(I, st, a)
    n = a.n
    if not n.t:
        return alg.NAN
    return s / n


def var1(I, st, a, ddof):
    n = a.n
    m = mean1(I, st, a)
    q = sum_arr(I, st, a, lambda e: (e - m) * (e - m))
    return q / (n - ddof)


# --------------------------------------------------------------------------
# constructors


def dtype_of(I, st, v):
    if v is None:
        return None
    if isinstance(v, Ext):
        p = v.path.split(".")[-1]
        if p in ("float", "float64", "double", "float_", "longdouble", "float32"):
            return "f"
        if p in ("int", "int64", "int32", "intp", "int_", "long"):
            return "i"
        if p in ("bool", "bool_"):
            return "b"
        if p in ("complex", "complex128"):
            return "c"
        return "?"
    d = I.deref(st, v)
    if isinstance(d, Const) and isinstance(d.v, str):
        s = d.v
        return {"f": "f", "i": "i", "b": "b", "c": "c", "d": "f"}.get(s[:1], "?")
    if isinstance(d, E):
        a = [alg.atom(aid) for m in d.t for aid, _ in m]
        if len(a) == 1 and a[0].kind == "opq" and a[0].args[0] == "dtype":
            return a[0].args[1] if a[0].args[1] in "fibc" else "?"
    return "?"


def guess_dtype(I, st, a):
    if a.dtype in ("f", "i", "b", "c"):
        return a.dtype
    if a.n.const() is not None and a.n.const() <= 16 and a.n.const() > 0:
        its = [I.deref(st, x) for x in a.items()]
        if all(isinstance(x, E) for x in its):
            if any(alg.depends(x, alg.IMAG) for x in its):
                return "c"
            return "i" if all(alg.is_int(x) for x in its) else "f"
        if all(isinstance(x, Cond) for x in its):
            return "b"
    return a.dtype


def to_nd(I, st, v, dt=None, copy=True):
    d = I.deref(st, v)
    if isinstance(d, Arr) and d.kind == "nd" and not copy and (dt is None or dt == d.dtype):
        return v
    a = I.arr(st, v)
    if a is None:
        if isinstance(v, (E, Cond)):
            e = I.to_e(st, v)
            if is_opaque(e):
                return opq("asarray", e)
            # zero-dimensional array: behaves as the scalar
            return e
        return opq("asarray", I.key(st, v))
    is2d = a.is2d
    g = guess_dtype(I, st, a)
    if a.dtype == "o" or (isinstance(a.n.const(), F) and a.n.const() > 0):
        # nested sequences
        c = a.n.const()
        if c is not None and c > 0:
            its = [I.deref(st, x) for x in a.items()] if c <= 64 else []
            if its and all(isinstance(x, (Arr, Tup)) for x in its):
                rows = [I.arr(st, x) for x in its]
                a = Arr("nd", a.n, None, "f", [(num(k), ONE, (lambda i, r=r: r)) for k, r in enumerate(rows)], None, True)
                is2d = True
                g = "f"
    if a.dtype == "o" and a.n.const() is None and not is2d:
        r = row0(I, st, a)
        if r is not None:
            is2d = True
    na = a.with_(kind="nd", dtype=g, view=a.view if a.view and a.view[0] == "filter" else None, is2d=is2d)
    if dt is not None and dt != "?" and not is2d:
        na = I.cast(na, dt, st).with_(dtype=dt)
    return I.alloc(st, na)


def copy_arr(I, st, v):
    d = I.deref(st, v)
    if isinstance(d, Arr):
        return I.alloc(st, d.with_(view=d.view if d.view and d.view[0] == "filter" else None))
    if isinstance(d, Dct):
        return I.alloc(st, Dct(dict(d.d)))
    return v


def const_arr(I, st, shape, val, dt):
    d = I.deref(st, shape)
    if isinstance(d, Tup) or (isinstance(d, Arr) and d.kind in ("list", "tuple")):
        its = d.items if isinstance(d, Tup) else d.items()
        if its is not None and len(its) == 1:
            return const_arr(I, st, its[0], val, dt)
        if its is not None and len(its) == 2:
            n0, n1 = I.to_e(st, its[0]), I.to_e(st, its[1])
            return I.alloc(st, Arr("nd", n0, lambda i: Arr("nd", n1, lambda j: val, dt), dt, None, None, True))
        return opq("shape")
    n = I.to_e(st, shape)
    return I.alloc(st, Arr("nd", n, lambda i: val, dt))


def arange(I, st, args, kw, node, fr):
    vals = [I.to_e(st, x) for x in args]
    for k in ("start", "stop", "step"):
        pass
    start, stop, step = ZERO, None, ONE
    if len(vals) == 1:
        stop = vals[0]
    elif len(vals) >= 2:
        start, stop = vals[0], vals[1]
        if len(vals) > 2:
            step = vals[2]
    if "start" in kw:
        start = I.to_e(st, kw["start"])
    if "stop" in kw:
        stop = I.to_e(st, kw["stop"])
    if "step" in kw:
        step = I.to_e(st, kw["step"])
    if stop is None:
        stop, start = start, ZERO
    q = alg.div(stop - start, step)
    n = alg.ceil_(q)
    if n.const() is not None and n.const() < 0:
        n = ZERO
    elif n.const() is None and I.decide(c_cmp("le", -n), st) is not True:
        n = alg.max0_(n)
    dt = "i" if all(alg.is_int(x) for x in (start, stop, step)) else "f"
    if "dtype" in kw:
        dt = dtype_of(I, st, kw["dtype"]) or dt
    return I.alloc(st, Arr("nd", n, lambda i: start + step * i, dt))


def linspace(I, st, args, kw, node, fr, log=None):
    names = ["start", "stop", "num", "endpoint"]
    b = dict(zip(names, args))
    b.update({k: v for k, v in kw.items() if k in names})
    start, stop = I.to_e(st, b["start"]), I.to_e(st, b["stop"])
    n = I.to_e(st, b["num"]) if "num" in b else num(50)
    endp = TRUE
    if "endpoint" in b:
        endp = I.truth(b["endpoint"], st)
    den = n - ONE if I.decide(endp, st) is not False else n
    if I.decide(c_cmp("eq", den), st) is True:
        den = ONE
    step = alg.div(stop - start, den)
    if log is not None:
        return I.alloc(st, Arr("nd", n, lambda i: pow_base(log, start + step * i), "f"))
    return I.alloc(st, Arr("nd", n, lambda i: start + step * i, "f"))


def pow_base(b, e):
    b = lift(b)
    c = e.const()
    if c is not None and c.denominator == 1 and abs(c) < 60 and b.const() is not None:
        return alg.power(b, c)
    return alg.gpow_(b, e)


# --------------------------------------------------------------------------
# element-wise functions


def ew1(I, st, v, f, dt="f"):
    a = I.arr(st, v)
    if a is not None:
        return I.alloc(st, I.mapa(lambda x: f(I.to_e(st, x)), a, dt if dt else a.dtype))
    return f(I.to_e(st, v))


def sqrt_(e):
    return alg.power(e, F(1, 2))


def exp_(e):
    if not e.t:
        return ONE
    return fn("exp", e)


def logb(b):
    def f(e):
        c = e.const()
        if c is not None and c > 0:
            # exact powers
            k = round(math.log(float(c), b))
            if F(b) ** k == c:
                return num(k)
        if len(e.t) == 1:
            (m, cc), = e.t.items()
            if len(m) == 1 and cc == 1:
                a = alg.atom(m[0][0])
                if a.kind == "fn" and a.args[0] == "gpow" and a.args[1] == num(b) and m[0][1] == 1:
                    return a.args[2]
                if b == 2 and a.kind == "fn" and a.args[0] == "exp2" and m[0][1] == 1:
                    return a.args[1]
        return alg.div(alg.log_(e), alg.log_(num(b)))
    return f


def sign_(e):
    c = e.const()
    if c is not None:
        return num((c > 0) - (c < 0))
    return fn("sign", e)


def isnan_val(I, st, x):
    if isinstance(x, Cond):
        return FALSE
    e = I.to_e(st, x)
    if e == alg.NAN:
        return TRUE
    return nan_mask(I, e, st)


def known_items(I, st, v):
    """the items of a container of known length"""
    d = I.deref(st, v)
    if isinstance(d, Tup):
        return list(d.items)
    if isinstance(d, Dct):
        if any(isinstance(k, tuple) for k in d.d):
            return None
        return [Const(k) if isinstance(k, (str, int, float, bool, type(None))) else k for k in d.d]
    if isinstance(d, Const) and isinstance(d.v, str):
        return [Const(x) for x in d.v]
    a = iter_arr(I, st, v) if isinstance(d, Arr) else None
    return a.items() if a is not None and a.n.const() is not None and a.n.const() <= 256 else None


def pairs_of(I, st, v):
    its = known_items(I, st, v)
    if its is None:
        return None
    prs = [known_items(I, st, x) for x in its]
    return prs if all(p is not None and len(p) == 2 for p in prs) else None


def isinf_val(I, st, x, signs=(1, -1)):
    if isinstance(x, Cond):
        return FALSE
    e = I.to_e(st, x)
    return alg.c_or(*[I.compare("Eq", e, alg.INF if s > 0 else -alg.INF, st) for s in signs])


EW = {
    "sqrt": sqrt_, "abs": alg.absval, "absolute": alg.absval, "fabs": alg.absval, "exp": exp_,
    "log": alg.log_, "log10": logb(10), "log2": logb(2), "sin": alg.sin_, "cos": alg.cos_,
    "floor": alg.floor_, "ceil": alg.ceil_, "rint": alg.round_, "trunc": alg.trunc_, "fix": alg.trunc_,
    "square": lambda e: e * e, "sign": sign_, "negative": lambda e: -e, "positive": lambda e: e,
    "reciprocal": lambda e: ONE / e, "tan": lambda e: fn("tan", e), "arctan": lambda e: fn("arctan", e),
    "log1p": lambda e: alg.log_(e + ONE), "exp2": alg.exp2_,
    "isfinite": None,
}

EW2 = {
    "add": "Add", "subtract": "Sub", "multiply": "Mult", "divide": "Div", "true_divide": "Div",
    "floor_divide": "FloorDiv", "power": "Pow", "mod": "Mod", "remainder": "Mod", "float_power": "Pow",
}

CMP2 = {"greater": "Gt", "greater_equal": "GtE", "less": "Lt", "less_equal": "LtE", "equal": "Eq",
        "not_equal": "NotEq"}


def call_numpy(I, name, st, args, kw, node, fr):
    n = name
    if n in ("array", "asarray", "asanyarray", "ascontiguousarray", "atleast_1d"):
        dt = dtype_of(I, st, kw.get("dtype", args[1] if len(args) > 1 else None))
        cp = n == "array" and I.decide(I.truth(kw.get("copy", TRUE), st), st) is not False
        if n == "atleast_1d" and isinstance(args[0], E) and not is_opaque(args[0]):
            return I.alloc(st, I.list_arr([args[0]], "nd"))
        return to_nd(I, st, args[0], dt, copy=cp)
    if n == "copy":
        return to_nd(I, st, args[0], None, True)
    if n in ("zeros", "ones", "empty", "full"):
        dt = dtype_of(I, st, kw.get("dtype", (args[2] if len(args) > 2 else None) if n == "full" else
                                    (args[1] if len(args) > 1 else None))) or "f"
        val = {"zeros": ZERO, "ones": ONE, "empty": None}.get(n)
        if n == "full":
            val = I.to_e(st, args[1] if len(args) > 1 else kw["fill_value"])
        if n == "empty":
            t = alg._symcount[0]
            alg._symcount[0] += 1
            a = args[0] if args else kw.get("shape")
            return const_arr(I, st, a, opq("uninit", t), dt)
        return const_arr(I, st, args[0] if args else kw.get("shape"), val, dt)
    if n in ("zeros_like", "ones_like", "empty_like", "full_like"):
        a = I.arr(st, args[0])
        if a is None:
            return opq(n, I.key(st, args[0]))
        dt = dtype_of(I, st, kw.get("dtype", args[1] if len(args) > 1 and n != "full_like" else None))
        if dt is None:
            dt = guess_dtype(I, st, a)
        val = {"zeros_like": ZERO, "ones_like": ONE}.get(n)
        if n == "empty_like":
            val = opq("uninit", alg._symcount[0])
            alg._symcount[0] += 1
        if n == "full_like":
            val = I.to_e(st, args[1] if len(args) > 1 else kw["fill_value"])
        if a.is2d:
            r = row0(I, st, a)
            return I.alloc(st, Arr("nd", a.n, lambda i: Arr("nd", r.n, lambda j: val, dt), dt, None, None, True))
        return I.alloc(st, Arr("nd", a.n, lambda i: val, dt))
    if n == "arange":
        return arange(I, st, args, kw, node, fr)
    if n == "linspace":
        return linspace(I, st, args, kw, node, fr)
    if n == "logspace":
        b = I.to_e(st, kw["base"] if "base" in kw else args[4]) if "base" in kw or len(args) > 4 else num(10)
        return linspace(I, st, args, kw, node, fr, log=b)
    if n == "geomspace" and set(kw) <= {"num"} and 2 <= len(args) <= 3:
        lo, hi = I.to_e(st, args[0]), I.to_e(st, args[1])
        k = I.to_e(st, args[2] if len(args) > 2 else kw.get("num", num(50)))
        return I.alloc(st, Arr("nd", k, lambda i: lo * alg.gpow_(hi / lo, i / (k - 1)), "f"))
    if n == "isnan":
        a = I.arr(st, args[0])
        if a is not None:
            return I.alloc(st, I.mapa(lambda x: isnan_val(I, st, x), a, "b"))
        return isnan_val(I, st, args[0])
    if n in ("isfinite", "isinf", "isposinf", "isneginf"):
        a = I.arr(st, args[0])
        f = {"isfinite": lambda x: alg.c_and(c_not(isnan_val(I, st, x)), c_not(isinf_val(I, st, x))),
             "isinf": lambda x: isinf_val(I, st, x),
             "isposinf": lambda x: isinf_val(I, st, x, (1,)), "isneginf": lambda x: isinf_val(I, st, x, (-1,))}[n]
        if a is not None:
            return I.alloc(st, I.mapa(f, a, "b"))
        return f(args[0])
    if n in ("logical_not", "invert"):
        a = I.arr(st, args[0])
        f = lambda x: c_not(x if isinstance(x, Cond) else I.truth(x, st))
        return I.alloc(st, I.mapa(f, a, "b")) if a is not None else f(args[0])
    if n in ("logical_and", "logical_or"):
        return I.binop("BitAnd" if n == "logical_and" else "BitOr", args[0], args[1], st, node, fr)
    if n in EW and EW[n] is not None:
        if n in ("floor", "ceil", "rint", "trunc"):
            return ew1(I, st, args[0], EW[n], "f")
        if n in ("abs", "absolute", "fabs"):
            a = I.arr(st, args[0])
            return ew1(I, st, args[0], EW[n], a.dtype if a is not None and a.dtype in "fi" else "f")
        return ew1(I, st, args[0], EW[n])
    if n in ("round", "around", "round_"):
        dec = args[1] if len(args) > 1 else kw.get("decimals")
        if dec is not None and I.to_e(st, dec) != ZERO:
            k = I.to_e(st, dec)
            return ew1(I, st, args[0], lambda e: fn("rounddec", e, k))
        return ew1(I, st, args[0], alg.round_)
    if n in EW2:
        x, y = args[0], args[1]
        if I.arr(st, x) is not None and I.deref(st, x).__class__ is Arr and I.deref(st, x).kind != "nd":
            x = to_nd(I, st, x)
        if isinstance(I.deref(st, y), Arr) and I.deref(st, y).kind != "nd":
            y = to_nd(I, st, y)
        return I.binop(EW2[n], x, y, st, node, fr)
    if n in CMP2:
        return I.compare(CMP2[n], args[0], args[1], st, node)
    if n in ("maximum", "minimum", "fmax", "fmin"):
        f = alg.max2 if n in ("maximum", "fmax") else alg.min2
        xs = [I.arr(st, x) for x in args[:2]]
        if any(x is not None for x in xs):
            return I.alloc(st, I.elementwise(lambda x, y: f(I.to_e(st, x), I.to_e(st, y)),
                                             [x if x is not None else a for x, a in zip(xs, args)], st, "f", node, fr))
        return f(I.to_e(st, args[0]), I.to_e(st, args[1]))
    if n == "clip":
        lo, hi = I.to_e(st, args[1]), I.to_e(st, args[2])
        return ew1(I, st, args[0], lambda e: alg.min2(alg.max2(e, lo), hi))
    if n == "hypot":
        return ew1(I, st, args[0], lambda e: sqrt_(e * e + I.to_e(st, args[1]) * I.to_e(st, args[1])))
    if n in ("sum", "nansum"):
        sk = n == "nansum"

        def f1(a):
            r = sum_arr(I, st, a, None, sk)
            return r if r is not None else opq("sum2d")
        return reduce_(I, st, args, kw, node, fr, f1)
    if n in ("mean", "average"):
        if "weights" in kw or (n == "average" and len(args) > 2):
            return opq("average", *[I.key(st, x) for x in args])
        return reduce_(I, st, args, kw, node, fr, lambda a: mean1(I, st, a))
    if n == "nanmean":
        if not I.ctx.gaps:
            return reduce_(I, st, args, kw, node, fr, lambda a: mean1(I, st, a))

        def nm(a):
            k = sum_arr(I, st, a, lambda e: alg.ite(nan_mask(I, e, st), ZERO, ONE))
            return sum_arr(I, st, a, None, True) / k
        return reduce_(I, st, args, kw, node, fr, nm)
    if n in ("var", "std"):
        dd = I.to_e(st, kw.get("ddof", ZERO))
        return reduce_(I, st, args, kw, node, fr,
                       lambda a: var1(I, st, a, dd) if n == "var" else sqrt_(var1(I, st, a, dd)))
    if n in ("max", "amax", "nanmax"):
        return reduce_(I, st, args, kw, node, fr, lambda a: ext_arr(I, st, "mx", a))
    if n in ("min", "amin", "nanmin"):
        return reduce_(I, st, args, kw, node, fr, lambda a: ext_arr(I, st, "mn", a))
    if n == "ptp":
        return reduce_(I, st, args, kw, node, fr, lambda a: ext_arr(I, st, "mx", a) - ext_arr(I, st, "mn", a))
    if n == "count_nonzero":
        def cnt(a):
            return sum_arr(I, st, a, None) if a.dtype != "b" else count_true(I, st, a)
        return reduce_(I, st, args, kw, node, fr, cnt)
    if n in ("any", "all"):
        a = I.arr(st, args[0])
        if a is None:
            return I.truth(args[0], st)
        its = a.items() if a.n.const() is not None and a.n.const() < 64 else None
        if its is not None:
            cs = [x if isinstance(x, Cond) else I.truth(x, st) for x in its]
            return c_or(*cs) if n == "any" else c_and(*cs)
        s = alg.fresh("s", int=True, nonneg=True)
        c = a.at(s)
        c = c if isinstance(c, Cond) else I.truth(c, st)
        d = I._decide(c, st.facts + I.ctx.facts)
        if d is not None:
            if d is (n == "all"):
                return TRUE if n == "all" else FALSE
            if c == TRUE or c == FALSE:
                return c
        h = alg.close(alg.ite(c, ONE, ZERO), s)
        return Cond("quant", n, a.n, h)
    if n == "cumsum":
        a = I.arr(st, args[0])
        if a is None:
            return opq("cumsum", I.key(st, args[0]))
        return I.alloc(st, cumsum(I, st, a))
    if n == "diff":
        a = I.arr(st, args[0])
        k = I.to_e(st, args[1] if len(args) > 1 else kw.get("n", ONE)).const()
        if a is None or k is None:
            return opq("diff", I.key(st, args[0]))
        r = I.alloc(st, a.with_(kind="nd"))
        for _ in range(int(k)):
            d = I.deref(st, r)
            hi = I.deref(st, I.alloc(st, shift(I, st, d, ONE, d.n - ONE)))
            lo = shift(I, st, d, ZERO, d.n - ONE)
            r = I.alloc(st, I.elementwise(lambda x, y: I.to_e(st, x) - I.to_e(st, y), [hi, lo], st, d.dtype))
        return r
    if n == "insert":
        a = I.arr(st, args[0])
        if a is not None and not a.is2d and len(args) >= 3 and "axis" not in kw:
            pos = I.to_e(st, args[1]) if isinstance(args[1], E) else None
            va = I.arr(st, args[2])
            if va is None:
                v = I.to_e(st, args[2])
                va = Arr("nd", ONE, lambda i: v, "i" if alg.is_int(v) else "f")
            if pos is not None:
                va = I.cast(va, a.dtype, st)
                if pos == ZERO:
                    return I.alloc(st, I.concat([va, a], "nd", st).with_(dtype=a.dtype))
                l = shift(I, st, a, ZERO, pos)
                r = shift(I, st, a, pos, a.n - pos)
                return I.alloc(st, I.concat([l, va, r], "nd", st).with_(dtype=a.dtype))
        if a is not None and a.is2d and axis_of(I, st, kw, args, 3) == 1 and I.to_e(st, args[1]) == ZERO and isinstance(args[2], E):
            v = args[2]
            return I.alloc(st, Arr("nd", a.n, lambda i: I.concat(
                [Arr("nd", ONE, lambda j: v, "f"), I.deref(st, a.at(i))], "nd", st), a.dtype, None, None, True))
        return opq("insert", *[I.key(st, x) for x in args])
    if n == "append":
        a, b = I.arr(st, args[0]), I.arr(st, args[1])
        if b is None:
            v = I.to_e(st, args[1])
            b = Arr("nd", ONE, lambda i: v, "i" if alg.is_int(v) else "f")
        if a is not None and not a.is2d:
            return I.alloc(st, I.concat([a, b], "nd", st))
        return opq("append", *[I.key(st, x) for x in args])
    if n in ("concatenate", "hstack"):
        seq = I.arr(st, args[0])
        its = seq.items() if seq is not None else None
        if its is not None:
            arrs = [I.arr(st, x) for x in its]
            if all(x is not None and not x.is2d for x in arrs):
                return I.alloc(st, I.concat(arrs, "nd", st))
        return opq("concat", I.key(st, args[0]))
    if n == "column_stack":
        seq = I.arr(st, args[0])
        its = seq.items() if seq is not None else None
        if its is not None:
            arrs = [I.arr(st, x) for x in its]
            if all(x is not None and not x.is2d for x in arrs):
                for x in arrs[1:]:
                    dd = alg.subst(x.n - arrs[0].n, I.ctx.slack).const()
                    if dd is not None and dd != 0:
                        I.event("shape-mismatch", (arrs[0].n, x.n), node, st)
                        I.raise_("ValueError", st, fr, node, explicit=False)
                return I.alloc(st, Arr("nd", arrs[0].n, lambda i: I.list_arr([x.at(i) for x in arrs], "nd"), "f", None, None, True))
        return opq("column_stack", I.key(st, args[0]))
    if n in ("vstack", "stack") and axis_of(I, st, kw, args, 1) in (None, 0):
        return to_nd(I, st, args[0])
    if n in ("flip", "flipud"):
        a = I.arr(st, args[0])
        if a is not None and not a.is2d:
            return I.alloc(st, reverse(a))
        return opq("flip")
    if n == "where":
        if len(args) == 1:
            a = I.arr(st, args[0])
            if a is None:
                return opq("where")
            mk = I.arrkey(st, a)
            cnt = count_true(I, st, a)
            idx = Arr("nd", a.n, lambda i: i, "i")
            r = Arr("nd", cnt, lambda j: fn("sel", mk, j), "i", None, ("filter", idx, a))
            return Tup([I.alloc(st, r)])
        c, x, y = args
        ca = I.arr(st, c)
        xa, ya = I.arr(st, x), I.arr(st, y)

        def f(cc, p, q):
            cc = cc if isinstance(cc, Cond) else I.truth(cc, st)
            return alg.ite(cc, I.to_e(st, p), I.to_e(st, q))
        if ca is None and xa is None and ya is None:
            return f(c, x, y)
        return I.alloc(st, I.elementwise(f, [ca if ca is not None else c, xa if xa is not None else x,
                                             ya if ya is not None else y], st, "f", node, fr))
    if n in ("nonzero", "flatnonzero"):
        t = call_numpy(I, "where", st, [args[0]], {}, node, fr)
        if n == "flatnonzero" and isinstance(t, Tup):
            return t.items[0]
        return t
    if n == "compress":
        return I.alloc(st, I.deref(st, I.fancy(I.arr(st, args[1]), I.arr(st, args[0]), st, node)))
    if n == "delete":
        return opq("delete", *[I.key(st, x) for x in args])
    if n == "unique":
        a = I.arr(st, args[0])
        if a is None or kw or len(args) > 1:
            return opq("unique", I.key(st, args[0]))
        its = a.items() if a.n.const() is not None and a.n.const() <= 256 else None
        if its is not None and all(isinstance(x, E) and x.const() is not None for x in its):
            return I.alloc(st, I.list_arr([num(c) for c in sorted({x.const() for x in its})], "nd", a.dtype))
        k = I.arrkey(st, a)
        return I.alloc(st, Arr("nd", fn("len", fn("uniq", k)), lambda j: a.at(fn("uix", k, j)), a.dtype, None, ("unique", a)))
    if n == "sort":
        a = I.arr(st, args[0])
        if a is not None:
            return sort_arr(I, st, a)
        return opq("sort")
    if n == "issubdtype" and len(args) == 2:
        g = dtype_of(I, st, args[0])
        k = args[1].path.split(".")[-1] if isinstance(args[1], Ext) else None
        sub = {"floating": "f", "integer": "i", "signedinteger": "i", "inexact": "fc", "complexfloating": "c", "number": "fic", "bool_": "b",
               "float64": "f", "float": "f", "int": "i", "int64": "i", "generic": "fibc"}
        if g in ("f", "i", "b", "c") and k in sub:
            return TRUE if g in sub[k] else FALSE
    if n == "isscalar":
        d = I.deref(st, args[0])
        if isinstance(d, (Arr, Tup, Dct, Obj)):
            return FALSE
        if isinstance(d, E) and not is_opaque(d):
            return TRUE
        if isinstance(d, Const):
            return FALSE if d.v is None else TRUE
        return Cond("opq", "isscalar", I.key(st, args[0]))
    if n in ("int64", "int32", "int_", "float64", "float32", "bool_", "intp"):
        if not args:
            return ZERO
        if n.startswith("int"):
            return ew1(I, st, args[0], alg.trunc_, "i")
        if n == "bool_":
            return I.truth(args[0], st)
        return ew1(I, st, args[0], lambda e: e)
    if n in ("conj", "conjugate"):
        return ew1(I, st, args[0], conj_, "c")
    if n in ("real", "imag"):
        return value_attr(I, args[0], I.deref(st, args[0]), n, st, fr, node)
    if n == "dot" or n == "inner" or n == "vdot" or n == "matmul":
        return dot(I, st, args, kw, node, fr)
    if n == "multiply.accumulate" or n == "cumprod":
        a = I.arr(st, args[0])
        if a is None:
            return opq("cumprod")
        its = a.items() if a.n.const() is not None and a.n.const() <= 64 else None
        if its is not None:
            out, acc = [], ONE
            for x in its:
                acc = acc * I.to_e(st, x)
                out.append(acc)
            return I.alloc(st, I.list_arr(out, "nd", "f"))
        k = I.arrkey(st, a)
        return I.alloc(st, Arr("nd", a.n, lambda i: fn("cumprod", k, i), "f"))
    if n == "add.accumulate":
        return call_numpy(I, "cumsum", st, args, kw, node, fr)
    if n == "add.reduce":
        return call_numpy(I, "sum", st, args, kw, node, fr)
    if n == "prod":
        a = I.arr(st, args[0])
        its = a.items() if a is not None else None
        if its is not None and len(its) <= 64:
            out = ONE
            for x in its:
                out = out * I.to_e(st, x)
            return out
        return opq("prod")
    if n == "lib.stride_tricks.as_strided":
        return as_strided(I, st, args, kw, node, fr)
    if n == "lib.stride_tricks.sliding_window_view":
        a = I.arr(st, args[0])
        w = args[1] if len(args) > 1 else kw.get("window_shape")
        if a is not None and not a.is2d and isinstance(w, E):
            b = a
            return I.alloc(st, Arr("nd", a.n - w + ONE, lambda i: Arr("nd", w, lambda j: b.at(i + j), b.dtype), a.dtype, None, None, True))
        return opq("sliding")
    if n.startswith("random."):
        return call_random(I, n[7:], st, args, kw, node, fr)
    if n.startswith("fft."):
        return call_fft(I, n[4:], st, args, kw, node, fr)
    if n in ("polyfit", "polyval", "interp", "corrcoef", "corrcoeff", "convolve", "correlate", "median", "percentile"):
        return lib_fn("numpy." + n, I, st, args, kw)
    if n in ("seterr", "set_printoptions", "errstate"):
        return NONE
    if n in ("squeeze", "ravel"):
        a = I.arr(st, args[0])
        if a is not None and not a.is2d:
            return args[0]
    if n == "reshape":
        return call_meth(I, args[0], "reshape", st, args[1:], kw, node, fr)
    if n == "split" or n == "array_split":
        return opq("split")
    if n == "size":
        a = I.arr(st, args[0])
        if a is not None and not a.is2d:
            return a.n
    if n in ("isclose", "allclose"):
        return Cond("opq", n, *[I.key(st, x) for x in args])
    if n == "outer":
        a, b = I.arr(st, args[0]), I.arr(st, args[1])
        if a is not None and b is not None:
            return I.alloc(st, Arr("nd", a.n, lambda i: Arr("nd", b.n, lambda j: I.to_e(st, a.at(i)) * I.to_e(st, b.at(j)), "f"), "f", None, None, True))
    return None


def conj_(e):
    if not alg.depends(e, alg.IMAG):
        if has_fn(e, ("fft", "ifft", "rfft")) or e.const() is None and any(
                alg.atom(aid).kind == "el" and isinstance(alg.atom(aid).args[0], str) and alg.atom(aid).args[0].startswith("cell")
                for m in e.t for aid, _ in m):
            return fn("conj", e)
        return e
    iid = alg.the_atom(alg.IMAG).id
    return alg.subst(e, {iid: -alg.IMAG})


def count_true(I, st, a):
    if a.view is not None and a.view[0] == "filter":
        pass
    c = a.n.const()
    if c is not None and c <= 64:
        out = ZERO
        for x in a.items():
            out = out + alg.ite(x if isinstance(x, Cond) else I.truth(x, st), ONE, ZERO)
        return out
    out = ZERO
    for s0, ln, g in pieces_of(a):
        s = alg.fresh("s", int=True, nonneg=True)
        x = g(s)
        out = out + alg.summation(alg.ite(x if isinstance(x, Cond) else I.truth(x, st), ONE, ZERO), s, ZERO, ln)
    return out


def shift(I, st, d, lo, n):
    """d[lo:lo+n]"""
    facts = st.facts + I.ctx.facts
    dec = lambda q: I._decide(q, facts)
    if lo == ZERO and n == d.n:
        return d.with_(view=None)
    if d.pieces is not None:
        p = I.slice_pieces(d, lo, n, dec)
        if p is not None:
            if len(p) == 1:
                return Arr(d.kind, n, p[0][2], d.dtype, None, None, d.is2d)
            return Arr(d.kind, n, None, d.dtype, p, None, d.is2d)
    return Arr(d.kind, n, lambda i: d.at(lo + i, dec), d.dtype, None, None, d.is2d)


def reverse(a):
    if a.pieces is not None:
        pcs = [(a.n - s0 - l0, l0, (lambda i, g=g, l0=l0: g(l0 - ONE - i))) for s0, l0, g in reversed(a.pieces)]
        return Arr("nd", a.n, None, a.dtype, pcs)
    g = a._get
    return Arr("nd", a.n, lambda i: g(a.n - ONE - i), a.dtype)


def cumsum(I, st, a):
    pcs = []
    off = ZERO
    for s0, ln, g in pieces_of(a):
        s = alg.fresh("s", int=True, nonneg=True)
        body = I.to_e(st, g(s))

        def get(i, body=body, s=s, off=off):
            return off + alg.summation(body, s, ZERO, i + ONE)
        pcs.append((s0, ln, get))
        off = off + alg.summation(body, s, ZERO, ln)
    if len(pcs) == 1:
        return Arr("nd", a.n, pcs[0][2], a.dtype if a.dtype in "fc" else "f" if a.dtype != "i" else "i")
    return Arr("nd", a.n, None, a.dtype, I.join_pieces(pcs, st))


def sort_arr(I, st, a):
    its = a.items() if a.n.const() is not None and a.n.const() <= 256 else None
    if its is not None and all(isinstance(x, E) and x.const() is not None for x in its):
        return I.alloc(st, I.list_arr([num(c) for c in sorted(x.const() for x in its)], a.kind, a.dtype))
    k = I.arrkey(st, a)
    return I.alloc(st, Arr(a.kind, a.n, lambda j: fn("sorted", k, j), a.dtype, None, ("sorted", a)))


def dot(I, st, args, kw, node, fr):
    a, b = I.arr(st, args[0]), I.arr(st, args[1])
    if a is None or b is None or a.is2d or b.is2d:
        return opq("dot", *[I.key(st, x) for x in args])
    p = I.elementwise(lambda x, y: I.to_e(st, x) * I.to_e(st, y), [a, b], st, "f", node, fr)
    r = sum_arr(I, st, p)
    return r if r is not None else opq("dot")


def as_strided(I, st, args, kw, node, fr):
    a = I.arr(st, args[0])
    shape = I.deref(st, kw.get("shape", args[1] if len(args) > 1 else None))
    strides = I.deref(st, kw.get("strides", args[2] if len(args) > 2 else None))
    item = alg.sym("itemsize", pos=True, int=True)
    shape, strides = I.tup_items(shape), I.tup_items(strides)
    if a is not None and not a.is2d and shape is not None and strides is not None:
        shape, strides = Tup(shape), Tup(strides)
    if a is None or a.is2d or not isinstance(shape, Tup) or not isinstance(strides, Tup) or len(shape.items) != len(strides.items):
        return opq("as_strided")
    import os
    cs = []
    for x in strides.items:
        q = alg.div(I.to_e(st, x), item)
        if q.const() is None and alg.depends(q, item):
            return opq("as_strided")
        cs.append(q)
    facts = st.facts + I.ctx.facts
    dec = lambda q: I._decide(q, facts)
    ns = [I.to_e(st, x) for x in shape.items]
    last = ZERO
    for c, n in zip(cs, ns):
        last = last + c * (n - ONE)
    if I.decide(c_cmp("lt", a.n - ONE - last), st) is True:
        I.event("out-of-bounds", (last, a.n), node, st)
    if len(ns) == 1:
        return I.alloc(st, Arr("nd", ns[0], lambda i: a.at(cs[0] * i, dec), a.dtype))
    if len(ns) == 2:
        return I.alloc(st, Arr("nd", ns[0], lambda i: Arr("nd", ns[1], lambda j: a.at(cs[0] * i + cs[1] * j, dec), a.dtype),
                               a.dtype, None, None, True))
    return opq("as_strided")


def argkey(I, st, x):
    k = I.key(st, x)
    return k


def lib_fn(name, I, st, args, kw):
    """external numerical routine: an uninterpreted function of its arguments"""
    ks = [argkey(I, st, x) for x in args]
    kk = [(k, argkey(I, st, v)) for k, v in sorted(kw.items())]
    bad = any(isinstance(x, (Func,)) for x in args)
    return fn(name, *(ks + [("kw", k, v) for k, v in kk]))


_rng = [0]


def call_random(I, name, st, args, kw, node, fr):
    if name == "seed":
        I.event("rng-seed", [I.key(st, a) for a in args], node, st)
        return NONE
    if name in ("RandomState", "default_rng", "Generator"):
        I.event("rng-new", (name, [I.key(st, a) for a in args]), node, st)
        return opq("rng", name, *[I.key(st, a) for a in args])
    I.event("rng", (name, args, kw), node, st)
    k = _rng[0]
    _rng[0] += 1
    nm = "rnd~%s~%d" % (name, k)
    size = None
    scale, loc = ONE, ZERO
    if name in ("randn", "standard_normal", "random_sample", "random", "rand"):
        if args:
            size = args
        elif "size" in kw:
            size = [kw["size"]]
        base = "randn" if name in ("randn", "standard_normal") else "rand"
    elif name in ("normal", "uniform"):
        b = dict(zip(["loc", "scale", "size"] if name == "normal" else ["low", "high", "size"], args))
        b.update(kw)
        if name == "normal":
            loc = I.to_e(st, b.get("loc", ZERO))
            scale = I.to_e(st, b.get("scale", ONE))
            base = "randn"
        else:
            lo, hi = I.to_e(st, b.get("low", ZERO)), I.to_e(st, b.get("high", ONE))
            loc, scale = lo, hi - lo
            base = "rand"
        if "size" in b:
            size = [b["size"]]
    else:
        return opq("rng", name, k)
    nm = "%s~%d" % (base, k)
    if size is None or (isinstance(size[0], Const) and size[0].v is None):
        return loc + scale * alg.el(nm, ZERO)
    if len(size) == 1:
        d = I.deref(st, size[0])
        if isinstance(d, Tup):
            size = d.items
        elif isinstance(d, Arr):
            size = d.items()
    if len(size) == 1:
        n = I.to_e(st, size[0])
        if not alg.is_int(n) and not is_opaque(n):
            I.event("noninteger-size", n, node, st)
        return I.alloc(st, Arr("nd", n, lambda i: loc + scale * alg.el(nm, i), "f"))
    if len(size) == 2:
        n0, n1 = I.to_e(st, size[0]), I.to_e(st, size[1])
        return I.alloc(st, Arr("nd", n0, lambda i: Arr("nd", n1, lambda j: loc + scale * alg.el(nm, i * n1 + j), "f"), "f", None, None, True))
    return opq("rng", name, k)


def call_fft(I, name, st, args, kw, node, fr):
    a = I.arr(st, args[0])
    if a is None:
        return opq("fft." + name, I.key(st, args[0]))
    narg = args[1] if len(args) > 1 else kw.get("n")
    if isinstance(narg, Const) and narg.v is None:
        narg = None
    n = I.to_e(st, narg) if narg is not None else None
    if n is not None:
        # zero padded / cropped input of length n
        dd = alg.subst(n - a.n, I.ctx.slack)
        if dd.t:
            dn = I.decide(c_cmp("le", -dd), st)
            if name == "irfft":
                pass
            elif dn is True:
                a = I.concat([a, Arr("nd", n - a.n, lambda i: ZERO, a.dtype)], "nd", st)
            elif I.decide(c_cmp("le", dd), st) is True:
                a = shift(I, st, a, ZERO, n)
            else:
                a = Arr("nd", n, lambda i: fn("fftpad", I.arrkey(st, I.arr(st, args[0])), n, i), "c")
    k = I.arrkey(st, a)
    if name in ("fft", "ifft"):
        return I.alloc(st, Arr("nd", a.n, lambda i: fn(name, k, i), "c"))
    if name == "rfft":
        return I.alloc(st, Arr("nd", alg.floor_(a.n / num(2)) + ONE, lambda i: fn("rfft", k, i), "c"))
    if name == "irfft":
        m = n if n is not None else (a.n - ONE) * num(2)
        if n is not None:
            return I.alloc(st, Arr("nd", m, lambda i: fn("irfft", k, m, i), "f"))
        return I.alloc(st, Arr("nd", m, lambda i: fn("irfft", k, m, i), "f"))
    if name in ("fftfreq", "rfftfreq"):
        return opq("fft." + name)
    return opq("fft." + name, k)


# --------------------------------------------------------------------------
# builtins


def isinstance_(I, st, v, t):
    """True / False / None"""
    if isinstance(t, Tup):
        rs = [isinstance_(I, st, v, x) for x in t.items]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    d = I.deref(st, v)
    if isinstance(t, Cls):
        if isinstance(d, Obj):
            return t in I.mro(d.cls)
        return False
    if not isinstance(t, Ext):
        return None
    p = t.path.split(".")[-1]
    if isinstance(d, Const):
        if d.v is None:
            return False
        return {"str": isinstance(d.v, str), "object": True}.get(p, False)
    if isinstance(d, Arr):
        k = d.kind
        return {"ndarray": k == "nd", "list": k == "list", "tuple": k == "tuple", "range": k == "range",
                "Iterable": True, "Sequence": k != "nd", "Sized": True}.get(p, False)
    if isinstance(d, Tup):
        return {"tuple": True, "Iterable": True, "Sequence": True}.get(p, False)
    if isinstance(d, Dct):
        return {"dict": True, "Mapping": True, "Iterable": True}.get(p, False)
    if isinstance(d, Cond):
        return p in ("bool", "bool_", "int")
    if isinstance(d, E):
        if is_opaque(d):
            return None
        if p in ("str", "list", "tuple", "dict", "ndarray", "bool", "bool_", "set"):
            return False
        if p in ("int", "integer", "int64", "Integral"):
            return True if alg.is_int(d) and d.const() is not None else (None if alg.is_int(d) else False)
        if p in ("float", "floating", "float64", "Real", "Number", "number"):
            if p in ("Real", "Number", "number"):
                return True
            return False if alg.is_int(d) else True
        return None
    if isinstance(d, Obj):
        return False
    return None


def iter_arr(I, st, v):
    a = I.arr(st, v)
    if a is not None:
        return a
    if hasattr(v, "drain"):
        xs = v.drain(st, v.frame)
        if xs is not None:
            return I.list_arr(xs)
    k = I.key(st, v)
    return Arr("list", fn("len", opq("iter", k)), lambda i: opq("item", k, i), "?")


def call_builtin(I, n, st, args, kw, node, fr):
    if n == "len":
        d = I.deref(st, args[0])
        if isinstance(d, Const) and isinstance(d.v, str):
            return num(len(d.v))
        if isinstance(d, Dct):
            return num(len(d.d))
        a = I.arr(st, args[0])
        if a is not None:
            return a.n
        if isinstance(d, Const) or (isinstance(d, E) and not is_opaque(d)):
            I.event("len-of-scalar", None, node, st)
            I.raise_("TypeError", st, fr, node, explicit=False)
        return opq("len", I.key(st, args[0]))
    if n in ("min", "max"):
        kind = "mn" if n == "min" else "mx"
        if len(args) == 1:
            a = I.arr(st, args[0])
            if a is None:
                return opq(n, I.key(st, args[0]))
            return ext_arr(I, st, kind, a)
        vals = [I.to_e(st, x) for x in args]
        out = vals[0]
        for v in vals[1:]:
            le = I.decide(c_cmp("le", out - v), st)
            if le is True:
                out = out if n == "min" else v
            elif le is False:
                out = v if n == "min" else out
            elif I.decide(c_cmp("le", v - out), st) is True:
                out = v if n == "min" else out
            else:
                out = alg.min2(out, v) if n == "min" else alg.max2(out, v)
        return out
    if n == "abs":
        return call_numpy(I, "abs", st, args, kw, node, fr)
    if n == "sum":
        a = I.arr(st, args[0])
        if a is None:
            return opq("sum", I.key(st, args[0]))
        r = sum_arr(I, st, a)
        s0 = I.to_e(st, args[1]) if len(args) > 1 else ZERO
        return r + s0 if r is not None else opq("sum")
    if n == "pow":
        return I.binop("Pow", args[0], args[1], st, node, fr)
    if n == "divmod":
        return Tup([I.binop("FloorDiv", args[0], args[1], st, node, fr), I.binop("Mod", args[0], args[1], st, node, fr)])
    if n == "round":
        if len(args) > 1:
            return fn("rounddec", I.to_e(st, args[0]), I.to_e(st, args[1]))
        return ew1(I, st, args[0], alg.round_)
    if n == "int":
        if not args:
            return ZERO
        d = I.deref(st, args[0])
        if isinstance(d, Const) and isinstance(d.v, str):
            try:
                return num(int(d.v))
            except ValueError:
                I.raise_("ValueError", st, fr, node, explicit=False)
        return alg.trunc_(I.to_e(st, args[0]))
    if n == "float":
        d = I.deref(st, args[0]) if args else None
        if d is None:
            return ZERO
        if isinstance(d, Const) and isinstance(d.v, str):
            s = d.v.lower().strip("+")
            if s in ("inf", "infinity"):
                return alg.INF
            if s == "nan":
                return alg.NAN
            try:
                return num(float(d.v))
            except ValueError:
                I.raise_("ValueError", st, fr, node, explicit=False)
        if isinstance(d, Const):
            I.event("float-of-none", None, node, st)
            I.raise_("TypeError", st, fr, node, explicit=False)
        return I.to_e(st, args[0])
    if n == "bool":
        return I.truth(args[0], st) if args else FALSE
    if n == "complex":
        return I.to_e(st, args[0]) + (alg.IMAG * I.to_e(st, args[1]) if len(args) > 1 else ZERO)
    if n == "range":
        v = [I.to_e(st, x) for x in args]
        for x in v:
            if not alg.is_int(x) and not is_opaque(x):
                I.event("noninteger-range", x, node, st)
        start, stop, step = ZERO, v[0], ONE
        if len(v) > 1:
            start, stop = v[0], v[1]
        if len(v) > 2:
            step = v[2]
        cs = step.const()
        if cs is not None and cs < 0:
            L = alg.ceildiv_(start - stop, -step)
        else:
            L = alg.ceildiv_(stop - start, step)
        c = L.const()
        if c is not None and c < 0:
            L = ZERO
        elif c is None and I.decide(c_cmp("lt", L), st) is not False and I.decide(c_cmp("le", -L), st) is not True:
            if I.decide(c_cmp("le", L), st) is True:
                L = ZERO
            else:
                L = alg.max0_(L)
        return I.alloc(st, Arr("range", L, lambda i: start + step * i, "i"))
    if n == "enumerate":
        a = iter_arr(I, st, args[0])
        s0 = I.to_e(st, args[1] if len(args) > 1 else kw.get("start", ZERO))
        pcs = None
        if a.pieces is not None:
            pcs = [(p, l, (lambda i, g=g, p=p: Tup([p + i + s0, g(i)]))) for p, l, g in a.pieces]
            return I.alloc(st, Arr("list", a.n, None, "o", pcs))
        g = a._get
        return I.alloc(st, Arr("list", a.n, lambda i: Tup([i + s0, g(i)]), "o"))
    if n == "zip":
        arrs = [iter_arr(I, st, x) for x in args]
        if not arrs:
            return I.alloc(st, I.list_arr([]))
        L = arrs[0].n
        for x in arrs[1:]:
            if x.n != L:
                if I.decide(c_cmp("le", x.n - L), st) is True:
                    L = x.n
                elif I.decide(c_cmp("le", L - x.n), st) is True:
                    pass
                else:
                    L = alg.min2(L, x.n)
        c = L.const()
        if c is not None and c <= 64:
            return I.alloc(st, I.list_arr([Tup([x.at(num(k)) for x in arrs]) for k in range(int(c))]))
        facts = st.facts + I.ctx.facts
        return I.alloc(st, Arr("list", L, lambda i: Tup([x.at(i, lambda q: I._decide(q, facts)) for x in arrs]), "o"))
    if n in ("list", "tuple"):
        if not args:
            return I.alloc(st, I.list_arr([])) if n == "list" else Tup([])
        a = iter_arr(I, st, args[0])
        its = a.items() if a.n.const() is not None and a.n.const() <= 256 else None
        if its is not None:
            return I.alloc(st, I.list_arr(its, "list", a.dtype)) if n == "list" else Tup(its)
        return I.alloc(st, a.with_(kind=n, view=None))
    if n in ("set", "frozenset"):
        a = iter_arr(I, st, args[0]) if args else I.list_arr([])
        return call_numpy(I, "unique", st, [I.alloc(st, a)], {}, node, fr)
    if n == "dict":
        d = {}
        if args:
            d0 = I.deref(st, args[0])
            if isinstance(d0, Dct):
                d.update(d0.d)
            else:
                prs = pairs_of(I, st, args[0])
                if prs is None:
                    return opq("dict")
                for a, b in prs:
                    d[I.dkey(st, a)[0]] = b
        d.update(kw)
        return I.alloc(st, Dct(d))
    if n == "dict.fromkeys":
        its = known_items(I, st, args[0])
        if its is None:
            return opq("dict")
        return I.alloc(st, Dct({I.dkey(st, k)[0]: args[1] if len(args) > 1 else NONE for k in its}))
    if n == "sorted":
        a = I.arr(st, args[0])
        if a is not None and not kw:
            return I.alloc(st, I.deref(st, sort_arr(I, st, a)).with_(kind="list"))
        return opq("sorted")
    if n == "reversed":
        a = iter_arr(I, st, args[0])
        return I.alloc(st, reverse(a).with_(kind="list"))
    if n == "map":
        a = iter_arr(I, st, args[1])
        f = args[0]
        its = a.items() if a.n.const() is not None and a.n.const() <= 64 else None
        if its is not None:
            return I.alloc(st, I.list_arr([I.call(f, [x], {}, st, fr, node) for x in its]))
        i = alg.fresh("c", int=True, nonneg=True)
        iid = alg.the_atom(i).id
        v = I.call(f, [a.at(i)], {}, st, fr, node)
        dv = I.deref(st, v)
        v = dv if isinstance(dv, Arr) else v
        return I.alloc(st, Arr("list", a.n, lambda j: vsubst(v, {iid: j}), "f" if isinstance(v, E) else "o", None, None, isinstance(v, Arr)))
    if n in ("any", "all"):
        return call_numpy(I, n, st, args, kw, node, fr)
    if n == "isinstance":
        r = isinstance_(I, st, args[0], args[1])
        if r is None:
            return Cond("opq", "isinstance", I.key(st, args[0]), I.key(st, args[1]))
        return TRUE if r else FALSE
    if n == "callable":
        return TRUE if isinstance(args[0], (Func, Bound, Cls, Ext, Meth)) else FALSE
    if n == "hasattr":
        d = I.deref(st, args[0])
        if isinstance(d, Obj) and isinstance(args[1], Const):
            ok = args[1].v in d.attrs or (d.cls and I.class_lookup(d.cls, args[1].v, st=st) is not None)
            return TRUE if ok else FALSE
        if isinstance(d, Arr) and isinstance(args[1], Const):
            nda = args[1].v in ("shape", "size", "dtype", "ndim", "astype", "__len__", "__iter__", "strides")
            if args[1].v in ("__len__", "__iter__"):
                return TRUE
            return TRUE if nda and d.kind == "nd" else FALSE
        if isinstance(args[0], Mod):
            return TRUE if I.mod_attr(args[0].name, args[1].v) is not None else FALSE
        if hasattr(args[0], "func") and hasattr(args[0], "mod") or isinstance(args[0], (Func, Bound)):
            f = args[0].func if hasattr(args[0], "func") else args[0]
            hit, v = I.glob_read(f, "attr." + str(args[1].v), st)
            c = st.heap.get(I.globcells[(id(f), "attr." + args[1].v)][0]) if hit else None
            return TRUE if hit and v is not None else FALSE
        if isinstance(args[0], Cls) and isinstance(args[1], Const):
            return TRUE if I.class_lookup(args[0], args[1].v, st=st) is not None else FALSE
        if isinstance(d, E) and not is_opaque(d) and isinstance(args[1], Const) and args[1].v in ("__len__", "__iter__"):
            return FALSE
        return Cond("opq", "hasattr", I.key(st, args[0]), I.key(st, args[1]))
    if n == "getattr":
        if isinstance(args[1], Const) and isinstance(args[1].v, str):
            try:
                k0 = len(fr.raises)
                return I.getattr_(args[0], args[1].v, st, fr, node)
            except Exception:
                if len(args) > 2:
                    del fr.raises[k0:]
                    return args[2]
                raise
        I.event("getattr-dynamic", (args[0], args[1]), node, st)
        return opq("getattr", I.key(st, args[0]), I.key(st, args[1]))
    if n == "setattr":
        d = I.deref(st, args[0])
        if isinstance(d, Obj) and isinstance(args[1], Const):
            at = dict(d.attrs)
            at[args[1].v] = args[2]
            st.heap[args[0].cid] = Obj(d.cls, at)
            I.event("attr-store", (args[0], args[1].v, args[2]), node, st)
            return NONE
        I.event("opaque-store", None, node, st)
        return NONE
    if n in ("str", "repr", "format"):
        d = I.deref(st, args[0]) if args else Const("")
        if isinstance(d, Const):
            return Const(str(d.v))
        if isinstance(d, E) and d.const() is not None:
            c = d.const()
            if c.denominator == 1 and n != "format":
                return Const(str(int(c))) if alg.is_int(d) else Const(str(float(c)))
        spec = args[1].v if len(args) > 1 and isinstance(args[1], Const) else ""
        return Fmt("{:%s}" % spec if spec else "{}", [args[0]], {})
    if n == "super":
        if args:
            return Super(args[0], args[1])
        f = I.curfunc[-1]
        if f.owner is not None:
            nm = f.node.args.args[0].arg
            return Super(f.owner, st.scope.lookup(nm))
        return opq("super")
    if n == "print":
        f = I.deref(st, kw["file"]) if "file" in kw else None
        if isinstance(f, FileVal):
            sep, end = kw.get("sep", Const(" ")), kw.get("end", Const("\n"))
            if isinstance(sep, Const) and isinstance(end, Const):
                q = (" " if sep.v is None else sep.v).replace("{", "{{").replace("}", "}}")
                t = "\n" if end.v is None else end.v
                I.event("file.write", (f, [Fmt(q.join(["{}"] * len(args)) + t.replace("{", "{{").replace("}", "}}"), list(args), {})]), node, st)
            else:
                I.event("file.print", (f, args, kw), node, st)
            return NONE
        I.event("print", args, node, st)
        return NONE
    if n == "open":
        I.event("open", (args, kw), node, st)
        return FileVal(args, kw)
    if n == "type":
        d = I.deref(st, args[0])
        if isinstance(d, Obj):
            return d.cls
        if isinstance(d, Arr):
            return Ext({"nd": "numpy.ndarray", "list": "builtins.list", "tuple": "builtins.tuple",
                        "range": "builtins.range"}.get(d.kind, "builtins.object"))
        if isinstance(d, Tup):
            return Ext("builtins.tuple")
        if isinstance(d, Const) and isinstance(d.v, str):
            return Ext("builtins.str")
        if isinstance(d, Dct):
            return Ext("builtins.dict")
        return opq("type", I.key(st, args[0]))
    if n == "next" or n == "iter":
        if n == "iter":
            return args[0]
        if hasattr(args[0], "drain"):
            k, v = args[0].next(st, fr)
            if k == "value" or k == "opaque":
                return v
            if k == "end" and len(args) > 1:
                return args[1]
            if k == "end":
                I.raise_("StopIteration", st, fr, node, explicit=False)
            import interp
            raise interp.PathEnd()
        a = I.arr(st, args[0])
        if a is not None and a.n.const() is not None and a.n.const() >= 1:
            return a.at(ZERO)
        return opq("next", I.key(st, args[0]))
    if n == "slice":
        v = args + [NONE] * (3 - len(args)) if len(args) > 1 else [NONE, args[0], NONE]
        return Tup([Const("slice")] + v)
    if n == "vars" or n == "globals" or n == "locals" or n == "dir":
        return opq(n)
    if n == "id" or n == "hash":
        return opq(n, I.key(st, args[0]))
    if n == "chr" or n == "ord" or n == "input":
        return opq(n)
    if n.endswith("Warning") or n.endswith("Error") or n in ("Exception", "BaseException", "StopIteration", "KeyboardInterrupt"):
        return opq("exc", n)
    if n == "object.__init__":
        return NONE
    if n == "object":
        return opq("object")
    if n in ("property", "staticmethod", "classmethod"):
        return args[0]
    return None


class FileVal(object):
    def __init__(self, args, kw):
        self.args = args
        self.kw = kw


MATH = {
    "sqrt": sqrt_, "fabs": alg.absval, "exp": exp_, "log10": logb(10), "log2": logb(2),
    "sin": alg.sin_, "cos": alg.cos_, "tan": lambda e: fn("tan", e), "floor": alg.floor_, "ceil": alg.ceil_,
    "trunc": alg.trunc_, "erf": lambda e: fn("scipy.special.erf", e),
}


def call_math(I, n, st, args, kw, node, fr):
    if n in MATH:
        return MATH[n](I.to_e(st, args[0]))
    if n == "log":
        if len(args) > 1:
            return alg.div(alg.log_(I.to_e(st, args[0])), alg.log_(I.to_e(st, args[1])))
        return alg.log_(I.to_e(st, args[0]))
    if n == "pow":
        return I.binop("Pow", args[0], args[1], st, node, fr)
    if n == "isnan":
        return isnan_val(I, st, args[0])
    if n == "isinf":
        return isinf_val(I, st, args[0])
    if n == "isfinite":
        return alg.c_and(c_not(isnan_val(I, st, args[0])), c_not(isinf_val(I, st, args[0])))
    if n == "fsum":
        return call_builtin(I, "sum", st, args, kw, node, fr)
    if n == "hypot":
        x, y = I.to_e(st, args[0]), I.to_e(st, args[1])
        return sqrt_(x * x + y * y)
    if n == "copysign":
        return fn("copysign", I.to_e(st, args[0]), I.to_e(st, args[1]))
    if n == "isclose":
        return Cond("opq", "isclose", *[I.key(st, x) for x in args])
    if n == "comb":
        return binom(I, st, args)
    if n == "factorial":
        c = I.to_e(st, args[0]).const()
        return num(math.factorial(int(c))) if c is not None and c.denominator == 1 and 0 <= c < 200 else fn("factorial", I.key(st, args[0]))
    return None


def binom(I, st, args):
    a, b = I.to_e(st, args[0]).const(), I.to_e(st, args[1]).const()
    if a is not None and b is not None and a.denominator == b.denominator == 1 and 0 <= b and 0 <= a < 500:
        return num(math.comb(int(a), int(b)))
    return fn("scipy.special.binom", *[I.key(st, x) for x in args])


MUTATORS = ("copyto", "put", "place", "putmask", "fill_diagonal", "put_along_axis", "random.shuffle")


def mutating_numpy(I, n, st, args, kw, node, fr):
    """numpy functions that write into one of their arguments"""
    kw = dict(kw)
    out = kw.pop("out", None)
    if out is not None:
        r = call_ext(I, "numpy." + n, st, args, kw, node, fr)
        d, a = I.deref(st, out), I.arr(st, r)
        if isinstance(d, Arr) and a is not None and "where" not in kw:
            I.store_whole(out, I.cast(a, d.dtype, st).with_(kind=d.kind), st, node)
            return out
        havoc_ref(I, st, out, node)
        return out
    if n == "nan_to_num":
        c = kw.pop("copy")
        r = call_ext(I, "numpy." + n, st, args, kw, node, fr)
        if isinstance(c, Const) and c.v is True or c == TRUE:
            return r
        a, d = I.arr(st, r), I.deref(st, args[0])
        if isinstance(d, Arr) and d.kind == "nd" and a is not None:
            I.store_whole(args[0], I.cast(a, d.dtype, st), st, node)
            return args[0]
        if isinstance(d, Arr) and d.kind == "nd":
            havoc_ref(I, st, args[0], node)
        return r
    if n == "copyto" and len(args) == 2 and "where" not in kw:
        d, a = I.deref(st, args[0]), I.arr(st, args[1])
        if isinstance(d, Arr) and a is not None and same_len(I, d.n, a.n):
            I.store_whole(args[0], I.cast(a, d.dtype, st).with_(kind=d.kind), st, node)
            return NONE
        v = I.deref(st, args[1])
        if isinstance(d, Arr) and isinstance(v, E):
            I.store_whole(args[0], I.cast(Arr("nd", d.n, lambda i: v, d.dtype), d.dtype, st), st, node)
            return NONE
    if n == "random.shuffle":
        I.event("rng", (n, args), node, st)
    havoc_ref(I, st, args[0], node)
    return NONE


def same_len(I, a, b):
    return (a - b).const() == 0


def havoc_ref(I, st, ref, node):
    """an unknown content is written through a reference"""
    d = I.deref(st, ref)
    I.event("opaque-store", (ref, None), node, st)
    if isinstance(ref, Ref) and isinstance(d, Arr):
        I.store_whole(ref, I.havoc_content(d, alg._symcount[0]), st, node)


def call_ext(I, path, st, args, kw, node, fr):
    r = None
    hook = I.stubs.get("ext:" + path)
    if hook is not None:
        r = hook(I, args, kw, st, node, fr)
        if r is not None:
            return r
    try:
        if path.startswith("builtins."):
            r = call_builtin(I, path[9:], st, args, kw, node, fr)
        elif path.startswith("numpy.") and (path[6:] in MUTATORS or isinstance(kw.get("out"), Ref) or
                                            path == "numpy.nan_to_num" and "copy" in kw):
            r = mutating_numpy(I, path[6:], st, args, kw, node, fr)
        elif path.startswith("numpy."):
            import lib2
            r = lib2.pre_numpy(I, path[6:], st, args, kw, node, fr)
            if r is None:
                r = call_numpy(I, path[6:], st, args, kw, node, fr)
            if r is None:
                r = lib2.post_numpy(I, path[6:], st, args, kw, node, fr)
        elif path.startswith("math."):
            r = call_math(I, path[5:], st, args, kw, node, fr)
        elif path.startswith("scipy."):
            r = call_scipy(I, path[6:], st, args, kw, node, fr)
        elif path.startswith("warnings."):
            r = NONE
        elif path == "copy.copy" or path == "copy.deepcopy":
            r = copy_arr(I, st, args[0])
        elif path in ("collections.OrderedDict",):
            r = call_builtin(I, "dict", st, args, kw, node, fr)
        else:
            import lib2
            r = lib2.post_ext(I, path, st, args, kw, node, fr)
    except alg.Limit as ex:
        I.note("value number too large: %s" % ex, node)
        r = opq("limit", path, alg._symcount[0])
        alg._symcount[0] += 1
    if r is None:
        I.event("ext-call", (path, args, kw), node, st)
        return opq("ext:" + path, *[I.key(st, a) for a in args])
    return r


def call_scipy(I, n, st, args, kw, node, fr):
    if n in ("special.binom", "special.comb") and len(args) == 2 and not set(kw) - {"exact"}:
        return binom(I, st, args)
    if n == "special.factorial" and len(args) == 1:
        return call_math(I, "factorial", st, args, {}, node, fr)
    if n in ("stats.chi2.ppf", "special.erf", "special.binom", "signal.welch", "signal.resample",
             "signal.decimate", "signal.lfilter", "stats.norm.ppf", "stats.norm.cdf", "stats.chi2.cdf"):
        if n == "signal.welch":
            return Tup([lib_arr(I, st, "welch_f", args, kw), lib_arr(I, st, "welch_p", args, kw)])
        if n in ("signal.resample", "signal.decimate", "signal.lfilter"):
            return lib_arr(I, st, n, args, kw)
        if n.startswith("special.erf") and I.arr(st, args[0]) is not None:
            return ew1(I, st, args[0], lambda e: fn("scipy.special.erf", e))
        return lib_fn("scipy." + n, I, st, args, kw)
    if n in ("stats.chi2.isf", "special.chdtri"):
        pq, df = (args[0], args[1]) if n == "stats.chi2.isf" else (args[1], args[0])
        return lib_fn("scipy.stats.chi2.ppf", I, st, [ONE - I.to_e(st, pq), df], kw)
    if n == "stats.chi2.interval":
        q = (ONE - I.to_e(st, args[0])) * F(1, 2)
        return Tup([lib_fn("scipy.stats.chi2.ppf", I, st, [x, args[1]], {}) for x in (q, ONE - q)])
    if n == "interpolate.interp1d":
        k = [I.key(st, x) for x in args] + [(a, I.key(st, b)) for a, b in sorted(kw.items())]
        return Interp1(k)
    if n == "integrate.simpson":
        y = args[0]
        x = kw.get("x", args[1] if len(args) > 1 else None)
        ya = I.arr(st, y)
        xk = I.key(st, x) if x is not None else None
        if ya is None:
            return opq("simpson", I.key(st, y))
        if ya.is2d:
            return I.alloc(st, Arr("nd", ya.n, lambda i: fn("simpson", I.arrkey(st, I.deref(st, ya.at(i))), xk), "f"))
        return fn("simpson", I.arrkey(st, ya), xk)
    if n == "integrate.quad":
        f = args[0]
        extra = kw.get("args", args[3] if len(args) > 3 else None)
        ex = []
        if extra is not None:
            d = I.deref(st, extra)
            ex = list(d.items) if isinstance(d, Tup) else [extra]
        z = alg.fresh("z", pos=True)
        v = I.to_e(st, I.call(f, [z] + ex, {}, st, fr, node))
        a, b = I.to_e(st, args[1]), I.to_e(st, args[2])
        return Tup([quad_(v, z, a, b), opq("quaderr")])
    if n == "integrate.IntegrationWarning":
        return opq("exc", n)
    return None


def quad_(v, z, a, b):
    """integral of v dz over [a,b]; constant factors pulled out, linear"""
    out = ZERO
    zid = alg.the_atom(z).id
    for m, c in v.t.items():
        dep, ind = alg.split_dep(m, zid)
        out = out + alg.mul(E({ind: c}), fn("quad", alg.close(E({dep: 1}), z), a, b))
    return out


class Interp1(object):
    def __init__(self, k):
        self.k = k

    def pycall(self, I, st, args, kw, node, fr):
        a = I.arr(st, args[0])
        if a is not None:
            return I.alloc(st, I.mapa(lambda x: fn("interp1d", tuple(self.k), I.to_e(st, x)), a, "f"))
        return fn("interp1d", tuple(self.k), I.to_e(st, args[0]))


def lib_arr(I, st, name, args, kw):
    e = lib_fn("scipy." + name, I, st, args, kw)
    return I.alloc(st, Arr("nd", fn("len", e), lambda i: fn("item", e, i), "f"))


def call_value(I, f, st, args, kw, node, fr):
    return None


# --------------------------------------------------------------------------
# methods


def call_meth(I, recv, name, st, args, kw, node, fr):
    d = I.deref(st, recv)
    if isinstance(d, Const) and isinstance(d.v, str):
        return str_meth(I, d.v, name, st, args, kw, node, fr)
    if isinstance(d, Fmt):
        if name == "encode":
            return d
        return opq("fmtmeth", name)
    if isinstance(recv, FileVal):
        I.event("file." + name, (recv, args), node, st)
        return NONE if name in ("write", "close", "writelines", "flush") else opq("file", name)
    if isinstance(d, Dct):
        return dict_meth(I, recv, d, name, st, args, kw, node, fr)
    if isinstance(d, (Arr, Tup)):
        if isinstance(d, Tup):
            d = I.list_arr(d.items, "tuple")
        if d.kind in ("list", "tuple", "range"):
            r = list_meth(I, recv, d, name, st, args, kw, node, fr)
        else:
            r = nd_meth(I, recv, d, name, st, args, kw, node, fr)
        if r is not None:
            return r
        I.event("meth", (recv, name, args), node, st)
        return opq("meth", name, I.key(st, recv), *[I.key(st, a) for a in args])
    if isinstance(d, Cond):
        return opq("condmeth", name)
    if isinstance(d, E):
        if name in ("conj", "conjugate"):
            return conj_(d)
        if name == "copy" and not is_opaque(d):
            return d
        if name in ("astype",):
            dt = dtype_of(I, st, args[0])
            return alg.trunc_(d) if dt == "i" else d
        if name in ("item", "tolist", "mean", "sum", "max", "min") and not is_opaque(d):
            return d
        if name == "is_integer":
            return c_cmp("eq", d - alg.floor_(d))
    I.event("opaque-meth", (recv, name, args, kw), node, st)
    return opq("m:" + name, I.key(st, recv), *[I.key(st, a) for a in args])


def str_meth(I, s, name, st, args, kw, node, fr):
    if name in ("lower", "upper", "strip", "title", "capitalize", "rstrip", "lstrip", "splitlines", "isdigit"):
        try:
            a = [x.v for x in args]
            r = getattr(s, name)(*a)
            if isinstance(r, bool):
                return TRUE if r else FALSE
            if isinstance(r, list):
                return I.alloc(st, I.list_arr([Const(x) for x in r]))
            return Const(r)
        except Exception:
            return opq("strmeth")
    if name in ("startswith", "endswith"):
        if isinstance(args[0], Const):
            return TRUE if getattr(s, name)(args[0].v) else FALSE
    if name == "format":
        return Fmt(s, list(args), dict(kw))
    if name == "join":
        a = I.arr(st, args[0])
        its = a.items() if a is not None else None
        if its is not None:
            if all(isinstance(x, Const) for x in its):
                return Const(s.join(x.v for x in its))
            return Fmt(s.replace("{", "{{").join(["{}"] * len(its)), its, {})
        return opq("join")
    if name in ("split", "replace"):
        try:
            r = getattr(s, name)(*[x.v for x in args])
            return Const(r) if isinstance(r, str) else I.alloc(st, I.list_arr([Const(x) for x in r]))
        except Exception:
            return opq("strmeth")
    return opq("strmeth", name)


def dict_meth(I, recv, d, name, st, args, kw, node, fr):
    k2v = I.unkey
    if name == "items":
        return I.alloc(st, I.list_arr([Tup([k2v(k), v]) for k, v in d.d.items()]))
    if name == "keys":
        return I.alloc(st, I.list_arr([k2v(k) for k in d.d]))
    if name == "values":
        return I.alloc(st, I.list_arr(list(d.d.values())))
    if name == "get":
        return I.dict_get(d, args[0], st, fr, node, default=args[1] if len(args) > 1 else NONE)
    if name == "copy":
        return I.alloc(st, Dct(dict(d.d)))
    if name == "update":
        dd = dict(d.d)
        if args:
            o = I.deref(st, args[0])
            if not isinstance(o, Dct):
                return opq("update")
            dd.update(o.d)
        dd.update(kw)
        st.heap[recv.cid] = Dct(dd)
        I.event("dict-store", (recv, None, None), node, st)
        return NONE
    if name == "setdefault":
        k = I.dkey(st, args[0])[0]
        if k in d.d:
            return d.d[k]
        dd = dict(d.d)
        dd[k] = args[1]
        st.heap[recv.cid] = Dct(dd)
        I.event("dict-store", (recv, args[0], args[1]), node, st)
        return args[1]
    if name == "pop":
        k = I.dkey(st, args[0])[0]
        dd = dict(d.d)
        v = dd.pop(k, args[1] if len(args) > 1 else opq("pop"))
        st.heap[recv.cid] = Dct(dd)
        I.event("dict-store", (recv, args[0], None), node, st)
        return v
    return opq("dictmeth", name)


def list_meth(I, recv, d, name, st, args, kw, node, fr):
    if name == "append":
        if not isinstance(recv, Ref):
            return opq("append")
        v = args[0]
        its = d.items() if d.n.const() is not None and d.n.const() <= 256 and (d.pieces is None or all(p[1] == ONE for p in d.pieces)) else None
        I.event("array-store", (recv, "append", v), node, st)
        if its is not None:
            I.write_cell(recv, I.list_arr(its + [v], "list"), st, node)
        else:
            dv = I.deref(st, v)
            one = Arr("list", ONE, lambda i: v, "f" if isinstance(v, E) else "o")
            pcs = list(pieces_of(d)) + [(d.n, ONE, lambda i: v)]
            I.write_cell(recv, Arr("list", d.n + ONE, None, d.dtype if isinstance(v, E) else "o", pcs), st, node)
        return NONE
    if name == "extend":
        o = iter_arr(I, st, args[0])
        I.event("array-store", (recv, "extend", None), node, st)
        I.write_cell(recv, I.concat([d, o], "list", st), st, node)
        return NONE
    if name == "insert":
        c = I.to_e(st, args[0]).const()
        its = d.items() if d.n.const() is not None else None
        I.event("array-store", (recv, "insert", None), node, st)
        if its is not None and c is not None:
            its.insert(int(c), args[1])
            I.write_cell(recv, I.list_arr(its, "list"), st, node)
        elif c == 0:
            v = args[1]
            I.write_cell(recv, I.concat([Arr("list", ONE, lambda i: v, d.dtype), d], "list", st), st, node)
        else:
            I.write_cell(recv, I.havoc_content(d, alg._symcount[0]), st, node)
        return NONE
    if name == "pop":
        its = d.items() if d.n.const() is not None and d.n.const() <= 256 else None
        I.event("array-store", (recv, "pop", None), node, st)
        if its:
            c = I.to_e(st, args[0]).const() if args else -1
            if c is not None:
                v = its.pop(int(c))
                I.write_cell(recv, I.list_arr(its, "list"), st, node)
                return v
        c = I.to_e(st, args[0]).const() if args else -1
        if c == 0:
            v = d.at(ZERO)
            I.write_cell(recv, shift(I, st, d, ONE, d.n - ONE), st, node)
            return v
        I.write_cell(recv, I.havoc_content(d, alg._symcount[0]), st, node)
        return opq("pop")
    if name in ("sort", "reverse", "clear", "remove"):
        I.event("array-store", (recv, name, None), node, st)
        if name == "reverse":
            I.write_cell(recv, reverse(d).with_(kind="list"), st, node)
        elif name == "sort" and not kw:
            I.write_cell(recv, I.deref(st, sort_arr(I, st, d)), st, node)
        elif name == "clear":
            I.write_cell(recv, I.list_arr([]), st, node)
        else:
            I.write_cell(recv, I.havoc_content(d, alg._symcount[0]), st, node)
        return NONE
    if name == "copy":
        return I.alloc(st, d.with_(view=None))
    if name == "index":
        its = d.items()
        if its is not None:
            for k, x in enumerate(its):
                r = I.decide(I.compare("Eq", args[0], x, st), st)
                if r is True:
                    return num(k)
                if r is None:
                    break
            else:
                I.raise_("ValueError", st, fr, node, explicit=False)
        return opq("index", I.key(st, d), I.key(st, args[0]))
    if name == "count":
        return opq("count")
    if name in ("mean", "sum", "max", "min", "astype", "size", "copy", "reshape", "flatten", "tolist", "std", "var"):
        I.event("attr-missing", (d.kind, name), node, st)
        I.raise_("AttributeError", st, fr, node, explicit=False)
    return None


def nd_meth(I, recv, d, name, st, args, kw, node, fr):
    if name == "copy":
        return I.alloc(st, d.with_(view=d.view if d.view and d.view[0] == "filter" else None))
    if name == "astype":
        dt = dtype_of(I, st, args[0])
        return I.alloc(st, I.cast(d, dt, st).with_(dtype=dt, view=None))
    if name == "tolist":
        return I.alloc(st, d.with_(kind="list", view=None))
    if name in ("sum", "mean", "max", "min", "var", "std", "cumsum", "any", "all", "ptp", "prod", "round", "clip", "dot",
                "nonzero", "conj", "conjugate"):
        if name == "clip":
            import lib2
            return lib2.pre_numpy(I, name, st, [recv] + list(args), kw, node, fr)
        return call_numpy(I, name, st, [recv] + list(args), kw, node, fr)
    if name in ("flatten", "ravel") and not d.is2d:
        return I.alloc(st, d.with_(view=None)) if name == "flatten" else recv
    if name == "item" and d.n == ONE:
        return d.at(ZERO)
    if name == "fill":
        v = I.to_e(st, args[0])
        I.store_whole(recv, Arr("nd", d.n, lambda i: v, d.dtype), st, node)
        return NONE
    if name == "sort":
        I.event("array-store", (recv, name, None), node, st)
        I.write_cell(recv, I.deref(st, sort_arr(I, st, d)), st, node)
        return NONE
    if name == "reshape":
        sh = args
        if len(args) == 1:
            x = I.deref(st, args[0])
            if isinstance(x, Tup):
                sh = x.items
            elif isinstance(x, Arr) and x.items() is not None:
                sh = x.items()
        if len(sh) == 1:
            return recv
        if len(sh) == 2 and not d.is2d:
            r, c = I.to_e(st, sh[0]), I.to_e(st, sh[1])
            if r == -ONE:
                r = alg.div(d.n, c)
            elif c == -ONE:
                c = alg.div(d.n, r)
            dd = alg.subst(r * c - d.n, I.ctx.slack)
            if dd.const() not in (None, 0):
                I.event("shape-mismatch", (r * c, d.n), node, st)
            facts = st.facts + I.ctx.facts
            dec = lambda q: I._decide(q, facts)
            return I.alloc(st, Arr("nd", r, lambda i: Arr("nd", c, lambda j: d.at(i * c + j, dec), d.dtype), d.dtype, None, None, True))
        return None
    if name in ("put", "resize", "itemset", "partition"):
        I.event("array-store", (recv, name, None), node, st)
        I.write_cell(recv, I.havoc_content(d, alg._symcount[0]), st, node)
        return NONE
    import lib2
    return lib2.post_meth(I, recv, d, name, st, args, kw, node, fr)
