"""Further numpy / functools / operator functions (called when sa/lib.py has no
model).  Returning None leaves the call opaque."""
import alg
from alg import E, Cond, num, ZERO, ONE, TRUE, FALSE, F, fn, c_not, c_cmp
from values import Const, NONE, Tup, Ref, Arr, Func, Ext, opq, is_opaque


def _none(v):
    return v is None or (isinstance(v, Const) and v.v is None)


def _dec(I, st):
    facts = st.facts + I.ctx.facts
    return lambda q: I._decide(q, facts)


def vec(I, st, v):
    a = I.arr(st, v)
    return a if a is not None and not a.is2d else None


def pre_numpy(I, n, st, args, kw, node, fr):
    """models that take precedence over those of sa/lib.py"""
    import lib
    if n == "clip":
        lo = args[1] if len(args) > 1 else kw.get("a_min", kw.get("min"))
        hi = args[2] if len(args) > 2 else kw.get("a_max", kw.get("max"))
        v = args[0] if args else kw.get("a")
        for b, f in ((lo, "maximum"), (hi, "minimum")):
            if not _none(b):
                v = lib.call_numpy(I, f, st, [v, b], {}, node, fr)
        if "out" in kw and not _none(kw["out"]):
            I.store_whole(kw["out"], I.arr(st, v), st, node)
        return v
    if n == "hypot":
        sq = [lib.call_numpy(I, "square", st, [x], {}, node, fr) for x in args[:2]]
        return lib.ew1(I, st, I.binop("Add", sq[0], sq[1], st, node, fr), lib.sqrt_)
    if n == "polyfit" and len(args) >= 3 and not kw:
        t, x = vec(I, st, args[0]), vec(I, st, args[1])
        d = I.to_e(st, args[2]).const()
        if t is None or x is None or d is None or d > 6:
            return None
        kt, kx = I.arrkey(st, t), I.arrkey(st, x)
        return I.alloc(st, I.list_arr([fn("polyfit", kt, kx, num(d), num(j)) for j in range(int(d) + 1)], "nd", "f"))
    if n == "polyfit" and len(args) == 2 and list(kw) == ["deg"]:
        return pre_numpy(I, n, st, list(args) + [kw["deg"]], {}, node, fr)
    if n == "polyval" and len(args) == 2 and not kw:
        p = vec(I, st, args[0])
        its = p.items() if p is not None else None
        if its is None:
            return None

        def horner(e):
            r = ZERO
            for c in its:
                r = r * e + I.to_e(st, c)
            return r
        a = I.arr(st, args[1])
        if a is None and isinstance(args[1], E):
            return horner(args[1])
        if a is None or a.is2d:
            return None
        return I.alloc(st, I.mapa(lambda e: horner(I.to_e(st, e)), a, "f").with_(kind="nd"))
    if n in ("convolve", "correlate"):
        return convolve(I, n, st, args, kw, node, fr)
    return None


def convolve(I, n, st, args, kw, node, fr):
    if len(args) < 2:
        return None
    mode = args[2] if len(args) > 2 else kw.get("mode")
    mode = mode.v if isinstance(mode, Const) else ("full" if n == "convolve" else "valid")
    a, k = vec(I, st, args[0]), vec(I, st, args[1])
    if a is None or k is None or mode not in ("valid", "full"):
        return opq("convolve")
    import lib
    dec = _dec(I, st)
    # numpy swaps the operands of convolve so that the kernel is the shorter
    if I.decide(c_cmp("lt", a.n - k.n), st) is True:
        if n == "correlate":
            return opq("correlate")
        a, k = k, a
    elif I.decide(c_cmp("le", k.n - a.n), st) is not True:
        if n == "correlate" or k.n.const() is None:
            return opq("convolve")
    kc = k.n.const()
    if mode == "valid":
        ln = a.n - k.n + ONE
        if kc is not None and kc <= 16:
            ws = [I.to_e(st, w) for w in k.items()]
            if n == "convolve":
                ws = ws[::-1]

            def get(i):
                t = ZERO
                for j, w in enumerate(ws):
                    t = t + w * I.to_e(st, a.at(i + num(j), dec))
                return t
            return I.alloc(st, Arr("nd", ln, get, "f"))

        def get2(i):
            s = alg.fresh("s", int=True, nonneg=True)
            w = I.to_e(st, k.at(k.n - ONE - s if n == "convolve" else s, dec))
            return alg.summation(w * I.to_e(st, a.at(i + s, dec)), s, ZERO, k.n)
        return I.alloc(st, Arr("nd", ln, get2, "f"))
    return opq("convolve")


NPMETH = ("take", "cumprod", "argmax", "argmin", "repeat", "searchsorted", "squeeze", "argsort", "trace", "flat")


def post_numpy(I, n, st, args, kw, node, fr):
    import lib
    if not args:
        return None
    dec = _dec(I, st)
    if n == "roll" and len(args) == 2 and not kw:
        a = vec(I, st, args[0])
        s = args[1]
        if a is None or not isinstance(s, E) or is_opaque(s):
            return None
        if I.decide(c_cmp("le", s), st) is True:
            s = s + a.n
            if I.decide(c_cmp("lt", s), st) is not False:
                return None
        elif I.decide(c_cmp("le", -s), st) is not True or I.decide(c_cmp("le", s - a.n), st) is not True:
            return None
        pcs = [(ZERO, s, lambda i: a.at(a.n - s + i, dec)), (s, a.n - s, lambda i: a.at(i, dec))]
        return I.alloc(st, Arr("nd", a.n, None, a.dtype, pcs))
    if n == "take" and len(args) == 2 and not kw:
        a, ix = vec(I, st, args[0]), I.arr(st, args[1])
        if a is None:
            return None
        if ix is None:
            return a.at(args[1], dec) if isinstance(args[1], E) else None
        return I.alloc(st, I.mapa(lambda j: a.at(I.to_e(st, j), dec), ix, a.dtype).with_(kind="nd")) if not ix.is2d else None
    if n == "ediff1d" and len(args) == 1 and not kw:
        return lib.call_numpy(I, "diff", st, args, {}, node, fr)
    if n == "einsum" and isinstance(args[0], Const) and isinstance(args[0].v, str):
        s = args[0].v.replace(" ", "")
        if s in ("i,i->", "i,i") and len(args) == 3:
            return lib.dot(I, st, args[1:], {}, node, fr)
        if s in ("i->",) and len(args) == 2:
            return lib.call_numpy(I, "sum", st, args[1:], {}, node, fr)
        return None
    if n == "linalg.norm" and len(args) == 1 and not kw:
        if vec(I, st, args[0]) is None:
            return None
        return lib.sqrt_(lib.dot(I, st, [args[0], args[0]], {}, node, fr))
    if n == "pad" and len(args) >= 2:
        a = vec(I, st, args[0])
        mode = args[2] if len(args) > 2 else kw.get("mode")
        if mode is not None and not (isinstance(mode, Const) and mode.v == "constant"):
            return None
        v = I.to_e(st, kw.get("constant_values", ZERO))
        w = args[1]
        w = I.tup_items(I.deref(st, w)) if not isinstance(w, E) else [w, w]
        if a is None or w is None or len(w) != 2 or not all(isinstance(x, E) for x in w):
            return None
        parts = [I.alloc(st, Arr("nd", w[0], lambda i: v, a.dtype)), args[0], I.alloc(st, Arr("nd", w[1], lambda i: v, a.dtype))]
        parts = [p for p, k in zip(parts, (w[0], None, w[1])) if k is None or k != ZERO]
        return lib.call_numpy(I, "concatenate", st, [Tup(parts)], {}, node, fr)
    if n == "expm1":
        return lib.ew1(I, st, args[0], lambda e: lib.exp_(e) - ONE)
    if n == "sinc":
        return lib.ew1(I, st, args[0], lambda e: fn("sin", alg.PI * e) / (alg.PI * e))
    if n == "ndim":
        a = I.arr(st, args[0])
        if a is not None:
            return num(2 if a.is2d else 1)
        return ZERO if isinstance(args[0], E) and not is_opaque(args[0]) else None
    if n == "fromiter":
        return lib.to_nd(I, st, args[0], "f")
    if n in ("asfarray",):
        return lib.to_nd(I, st, args[0], "f", copy=False)
    if n in ("maximum.reduce", "minimum.reduce") and len(args) == 1 and not kw:
        return lib.call_numpy(I, "max" if n[:3] == "max" else "min", st, args, {}, node, fr)
    if n in ("maximum.accumulate", "minimum.accumulate"):
        return None
    if n in ("trapz", "trapezoid") and not vec(I, st, args[0]) is None:
        return None
    if n == "squeeze":
        a = I.arr(st, args[0])
        return args[0] if a is not None and not a.is2d else None
    if n == "cumprod":
        return lib.call_numpy(I, "cumprod", st, args, kw, node, fr)
    if n == "repeat" and len(args) == 2 and not kw:
        a = I.arr(st, args[0])
        if a is None and isinstance(args[0], E) and isinstance(args[1], E):
            return I.alloc(st, Arr("nd", args[1], lambda i: args[0], "f"))
        if a is not None and not a.is2d and a.n == ONE and isinstance(args[1], E):
            return I.alloc(st, Arr("nd", args[1], lambda i: a.at(ZERO), a.dtype))
        return None
    if n == "tile" and len(args) == 2 and not kw:
        a = vec(I, st, args[0])
        if a is None and isinstance(args[0], E) and isinstance(args[1], E):
            return I.alloc(st, Arr("nd", args[1], lambda i: args[0], "f"))
        k = args[1].const() if isinstance(args[1], E) else None
        if a is not None and k is not None and 1 <= k <= 8:
            return lib.call_numpy(I, "concatenate", st, [Tup([args[0]] * int(k))], {}, node, fr)
        return None
    if n == "broadcast_to" and len(args) == 2 and isinstance(args[0], E):
        s = args[1]
        d = I.deref(st, s)
        if isinstance(d, Tup) and len(d.items) == 1:
            s = d.items[0]
        return I.alloc(st, Arr("nd", s, lambda i: args[0], "f")) if isinstance(s, E) else None
    if n == "extract" and len(args) == 2:
        return lib.call_numpy(I, "compress", st, args, kw, node, fr)
    if n == "nan_to_num" and not I.ctx.gaps and len(args) == 1 and not kw:
        return lib.to_nd(I, st, args[0], None, True) if I.arr(st, args[0]) is not None else args[0]
    if n == "iscomplexobj":
        a = I.arr(st, args[0])
        return None if a is None or a.dtype == "?" else (TRUE if a.dtype == "c" else FALSE)
    if n == "iterable":
        return TRUE if I.arr(st, args[0]) is not None else (FALSE if isinstance(args[0], E) else None)
    if n.startswith("ndarray.") and I.arr(st, args[0]) is not None:
        return lib.call_meth(I, args[0], n[8:], st, args[1:], kw, node, fr)
    return None


def post_ext(I, path, st, args, kw, node, fr):
    import lib
    if path.startswith("operator."):
        o = path[9:]
        m = {"add": "Add", "sub": "Sub", "mul": "Mult", "truediv": "Div", "floordiv": "FloorDiv", "mod": "Mod", "pow": "Pow"}.get(o)
        if m and len(args) == 2:
            return I.binop(m, args[0], args[1], st, node, fr)
        if o == "neg" and len(args) == 1:
            return I.binop("Sub", ZERO, args[0], st, node, fr)
    if path == "functools.reduce" and len(args) in (2, 3):
        a = I.arr(st, args[1])
        its = a.items() if a is not None and a.n.const() is not None and a.n.const() <= 64 else None
        if its is None or (not its and len(args) == 2):
            return None
        acc = args[2] if len(args) == 3 else its.pop(0)
        for x in its:
            acc = I.call(args[0], [acc, x], {}, st, fr, node)
        return acc
    if path == "itertools.accumulate" and len(args) == 1 and not kw:
        return lib.call_numpy(I, "cumsum", st, args, {}, node, fr)
    if path in ("scipy.signal.detrend",):
        return None
    return None


def post_meth(I, recv, d, name, st, args, kw, node, fr):
    import lib
    if name in NPMETH:
        return post_numpy(I, name, st, [recv] + list(args), kw, node, fr)
    if name == "__len__":
        return d.n
    if name == "item" and len(args) == 1 and isinstance(args[0], E) and not d.is2d:
        return d.at(args[0], _dec(I, st))
    if name == "view" and not args and not kw:
        return recv
    return None
