"""Abstract values of the interpreter."""
import alg
from alg import E, Cond, num, lift, ZERO, ONE


class Const(object):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Const) and type(self.v) is type(o.v) and self.v == o.v

    def __hash__(self):
        return hash(("const", self.v))

    def __repr__(self):
        return repr(self.v)


NONE = Const(None)


class Tup(object):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Ref(object):
    __slots__ = ("cid",)

    def __init__(self, cid):
        self.cid = cid

    def __eq__(self, o):
        return isinstance(o, Ref) and o.cid == self.cid

    def __hash__(self):
        return hash(("ref", self.cid))

    def __repr__(self):
        return "&%d" % self.cid


class Arr(object):
    """sequence of symbolic (or constant) length.  kind: nd | list | range.
    pieces: list of (start, length, get) partitions, or None for one piece."""
    __slots__ = ("kind", "n", "_get", "dtype", "pieces", "_key", "view", "is2d")

    def __init__(self, kind, n, get, dtype="f", pieces=None, view=None, is2d=False):
        self.kind = kind
        self.n = n
        self._get = get
        self.dtype = dtype
        self.pieces = pieces
        self._key = None
        self.view = view
        self.is2d = is2d

    def with_(self, **kw):
        a = Arr(self.kind, self.n, self._get, self.dtype, self.pieces, self.view, self.is2d)
        for k, v in kw.items():
            setattr(a, k, v)
        return a

    def items(self):
        """explicit list of values when the length is a small constant"""
        c = self.n.const()
        if c is None or c > 4096:
            return None
        return [self.at(num(i)) for i in range(int(c))]

    def at(self, i, decide=None):
        if self.pieces is None:
            return self._get(i)
        for st, ln, g in self.pieces:
            if st == i and ln == ONE:
                return g(ZERO)
        c = i.const()
        if c is not None:
            for st, ln, g in self.pieces:
                s0, l0 = st.const(), ln.const()
                if s0 is None:
                    break
                if c < s0:
                    break
                if l0 is not None and s0 <= c < s0 + l0:
                    return g(num(c - s0))
                if l0 is None:
                    break
        if decide is not None:
            hits = []
            for st, ln, g in self.pieces:
                lo = decide(alg.c_cmp("le", st - i))
                hi = decide(alg.c_cmp("lt", i - st - ln))
                if lo is True and hi is True:
                    return g(i - st)
                if lo is False or hi is False:
                    continue
                hits.append((st, ln, g))
            if len(hits) == 1:
                return hits[0][2](i - hits[0][0])
        return self.pw_at(i)

    def pw_at(self, i):
        # try numeric pieces -> interned piecewise array element
        ps = []
        conds = 0
        for st, ln, g in self.pieces:
            s = alg.fresh("k", int=True)
            v = g(s)
            if isinstance(v, Cond):
                conds += 1
                v = alg.ite(v, ONE, ZERO)
            if not isinstance(v, E):
                return None
            ps.append((st, ln, alg.close(v, s)))
        if conds and conds < len(ps):
            return None
        r = alg.el(alg.PWKey(tuple(ps)), i)
        return alg.c_cmp("eq", r - ONE) if conds else r

    def __repr__(self):
        try:
            s = alg.sym("_i")
            return "<%s[%r] n=%r dt=%s: %r>" % (self.kind, "_i", self.n, self.dtype, self.at(s))
        except Exception as e:
            return "<arr n=%r>" % (self.n,)


class Dct(object):
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d


class Obj(object):
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class Func(object):
    __slots__ = ("node", "env", "mod", "name", "defaults", "kwdefaults", "owner")

    def __init__(self, node, env, mod, name, defaults, kwdefaults, owner=None):
        self.node = node
        self.env = env
        self.mod = mod
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.owner = owner

    def __repr__(self):
        return "<func %s.%s>" % (self.mod, self.name)


class Cls(object):
    __slots__ = ("name", "mod", "bases", "ns", "node")

    def __init__(self, name, mod, bases, ns, node):
        self.name = name
        self.mod = mod
        self.bases = bases
        self.ns = ns
        self.node = node

    def __repr__(self):
        return "<class %s.%s>" % (self.mod, self.name)


class Bound(object):
    __slots__ = ("self_", "func")

    def __init__(self, self_, func):
        self.self_ = self_
        self.func = func


class Meth(object):
    """method of a builtin value, e.g. list.append"""
    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name


class Mod(object):
    """module of the analysed package"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Ext(object):
    """name of an external module, function or constant"""
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(("ext", self.path))

    def __repr__(self):
        return "<ext %s>" % self.path


class Super(object):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


class Fmt(object):
    """result of a string formatting operation: fmt and the formatted values"""
    __slots__ = ("fmt", "args", "kwargs")

    def __init__(self, fmt, args, kwargs):
        self.fmt = fmt
        self.args = args
        self.kwargs = kwargs

    def __repr__(self):
        return "Fmt(%r, %r, %r)" % (self.fmt, self.args, self.kwargs)


_opq_serial = [0]


def opq(label, *args):
    """an unknown value.  Every unknown is distinct, so that unknowns never
    cancel against one another."""
    if label == "dtype":
        return alg.A("opq", label, *args)
    _opq_serial[0] += 1
    return alg.A("opq", label, *(args + (("serial", _opq_serial[0]),)))


def is_opaque(x, seen=None):
    """does the value number mention anything the analysis could not model"""
    return bool(opaque_atoms(x))


def opaque_atoms(x, acc=None, seen=None):
    if acc is None:
        acc, seen = {}, set()
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                if aid in seen:
                    continue
                seen.add(aid)
                a = alg.atom(aid)
                if a.kind == "opq":
                    acc[aid] = a
                for y in a.args:
                    opaque_atoms(y, acc, seen)
    elif isinstance(x, Cond):
        if x.op == "opq":
            acc[("c", x)] = x
        for y in x.args:
            opaque_atoms(y, acc, seen)
    elif isinstance(x, tuple):
        for y in x:
            opaque_atoms(y, acc, seen)
    elif isinstance(x, alg.PWKey):
        opaque_atoms(x.pieces, acc, seen)
    elif isinstance(x, Arr):
        opaque_atoms(x.n, acc, seen)
        s = alg.fresh("k", int=True)
        opaque_atoms(x.at(s), acc, seen)
    elif isinstance(x, Tup):
        for y in x.items:
            opaque_atoms(y, acc, seen)
    return acc


def fn_names(x, acc=None, seen=None):
    """names of the functions applied in a value number"""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                if aid in seen:
                    continue
                seen.add(aid)
                a = alg.atom(aid)
                if a.kind == "fn":
                    acc.add(a.args[0])
                for y in a.args:
                    fn_names(y, acc, seen)
    elif isinstance(x, Cond):
        for y in x.args:
            fn_names(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            fn_names(y, acc, seen)
    elif isinstance(x, alg.PWKey):
        fn_names(x.pieces, acc, seen)
    return acc


def vsubst(v, mp):
    """substitute atoms in a value"""
    if isinstance(v, E):
        return alg.subst(v, mp)
    if isinstance(v, Cond):
        return alg.subst_cond(v, mp)
    if isinstance(v, Tup):
        return Tup([vsubst(x, mp) for x in v.items])
    if isinstance(v, Arr):
        g = v._get
        pieces = None
        if v.pieces is not None:
            pieces = [(alg.subst(s, mp), alg.subst(l, mp), _wrapget(gg, mp)) for s, l, gg in v.pieces]
        return v.with_(n=alg.subst(v.n, mp), _get=_wrapget(g, mp) if g else None, pieces=pieces, _key=None)
    return v


def _wrapget(g, mp):
    def get(i):
        # the index itself must not be rewritten: use a fresh index symbol
        s = alg.fresh("q", int=True)
        v = vsubst(g(s), mp)
        return vsubst(v, {alg.the_atom(s).id: i})
    return get
