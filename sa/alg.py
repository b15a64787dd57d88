"""Value numbers: hash-consed generalized polynomials.

An E is a finite sum  sum_j c_j * prod_i atom_i ** e_ij  with rational c_j and
rational exponents.  Atoms are interned (hash-consed), so that two program
expressions get the same number exactly when their normal forms agree.  Sums
over index ranges of data elements are rewritten to differences of prefix sums
in a shift-invariant normal form, polynomial sums are closed by Faulhaber's
formula; this is the classical scalar-evolution treatment of induction
variables and reductions, not an execution of anything.
"""
from fractions import Fraction
import hashlib
import math

F = Fraction


class Limit(Exception):
    """Normal form grew beyond the budget; the caller falls back to an opaque
    value."""


MAXTERMS = 6000
MAXPROD = 200000
MAXPOW = 40000

# --------------------------------------------------------------------------
# atoms
_atoms = []
_atom_ix = {}


class Atom(object):
    __slots__ = ("id", "kind", "args", "props", "_h", "_fs", "_hb", "_d")

    def __repr__(self):
        return atom_str(self)


def mk_atom(kind, args, props=None):
    key = (kind, args)
    a = _atom_ix.get(key)
    if a is None:
        a = Atom()
        a.id = len(_atoms)
        a.kind = kind
        a.args = args
        a.props = props or {}
        a._h = None
        a._fs = None
        a._hb = None
        a._d = None
        _atoms.append(a)
        _atom_ix[key] = a
    elif props:
        a.props.update(props)
    return a


def atom(i):
    return _atoms[i]


# --------------------------------------------------------------------------
# expressions


def _ex(x):
    """canonical exponent/coefficient: int when integral"""
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


class E(object):
    __slots__ = ("t", "_hash", "_h", "_fs", "_d", "__weakref__")

    def __init__(self, terms):
        self.t = terms
        self._hash = None
        self._h = None
        self._fs = None
        self._d = None

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(frozenset(self.t.items()))
        return self._hash

    def __eq__(self, o):
        return isinstance(o, E) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def is_zero(self):
        return not self.t

    def const(self):
        """the rational value if this is a rational constant, else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return F(self.t[()])
        return None

    def __add__(self, o):
        o = lift(o)
        if len(self.t) < len(o.t):
            a, b = o.t, self.t
        else:
            a, b = self.t, o.t
        if not b:
            return E(a)
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v == 0:
                del r[m]
            else:
                r[m] = _ex(v)
        return E(r)

    __radd__ = __add__

    def __neg__(self):
        return E({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) + (-self)

    def __mul__(self, o):
        return mul(self, lift(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return div(self, lift(o))

    def __rtruediv__(self, o):
        return div(lift(o), self)

    def __pow__(self, r):
        return power(self, r)

    def __repr__(self):
        return estr(self)


ZERO = E({})
ONE = E({(): 1})


def num(c):
    if isinstance(c, float):
        if c != c:
            return NAN
        if c in (float("inf"), float("-inf")):
            return INF if c > 0 else -INF
        c = F(repr(c))
    c = _ex(F(c))
    return E({(): c}) if c != 0 else ZERO


def lift(x):
    if isinstance(x, E):
        return x
    if isinstance(x, Atom):
        return E({((x.id, 1),): 1})
    if isinstance(x, (int, float, Fraction)):
        return num(x)
    raise TypeError("lift %r" % (x,))


def A(kind, *args, **props):
    return lift(mk_atom(kind, args, props or None))


_symcount = [0]


def sym(name, **props):
    """named symbol; props: int, pos, nonneg"""
    return A("sym", name, **props)


def fresh(base, **props):
    _symcount[0] += 1
    return A("sym", "%s~%d" % (base, _symcount[0]), **props)


def the_atom(e):
    """the atom if e is exactly one atom"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return _atoms[m[0][0]]
    return None


PI = sym("pi", pos=True)
IMAG = sym("1j")
INF = sym("inf", pos=True)
NAN = sym("nan")


def fn(name, *args):
    return A("fn", name, *args)


def el(arr, idx):
    return A("el", arr, idx)


# --------------------------------------------------------------------------
# properties of atoms


def atom_pos(a):
    """known strictly positive / nonnegative"""
    k = a.kind
    if k == "sym":
        return bool(a.props.get("pos") or a.props.get("nonneg"))
    if k == "prime":
        return True
    if k == "el":
        n = a.args[0]
        return isinstance(n, str) and n in POS_ARRAYS
    if k == "fn":
        if a.args[0] in ("abs", "exp", "ceildiv", "sllen", "len", "max0", "exp2", "posres"):
            return True
        if a.args[0] == "floor" or a.args[0] == "round":
            return e_nonneg(a.args[1])
        return False
    if k == "base":
        return a.props.get("pos", False)
    if k in ("mx", "mn"):
        h, b = a.args[1]
        return e_nonneg(b)
    if k == "ite":
        return e_nonneg(a.args[1]) and e_nonneg(a.args[2])
    if k == "sum":
        h, b = a.args[1]
        return e_nonneg(b)
    return False


POS_ARRAYS = set()
INT_ARRAYS = set()


def e_nonneg(e):
    for m, c in e.t.items():
        if c < 0:
            return False
        for aid, x in m:
            a = _atoms[aid]
            if not atom_pos(a):
                if isinstance(x, int) and x % 2 == 0:
                    continue
                return False
    return True


def atom_int(a):
    k = a.kind
    if k == "sym":
        return bool(a.props.get("int"))
    if k == "bv":
        return True
    if k == "el":
        n = a.args[0]
        return isinstance(n, str) and n in INT_ARRAYS
    if k == "fn":
        return a.args[0] in ("floor", "round", "ceildiv", "sllen", "len", "trunc", "sel", "uix",
                             "minidx", "count", "intof") or (
            a.args[0] in ("mod", "max0", "abs") and all(is_int(x) for x in a.args[1:] if isinstance(x, E))) or (
            a.args[0] == "exp2" and is_int(a.args[1]))
    if k == "ite":
        return is_int(a.args[1]) and is_int(a.args[2])
    if k == "ps":
        return is_int(a.args[0][1])
    return False


def is_int(e):
    """value certainly an integer (given int atoms)"""
    for m, c in e.t.items():
        if isinstance(c, Fraction) and c.denominator != 1:
            return _intpoly(e)
        for aid, x in m:
            if not (isinstance(x, int) and x >= 0 and atom_int(_atoms[aid])):
                return False
    return True


def _intpoly(e):
    """integer-valued polynomial test (such as n(n-1)/2) by finite differences
    over one residue system"""
    den = 1
    vars_ = set()
    for m, c in e.t.items():
        den = den * F(c).denominator // math.gcd(den, F(c).denominator)
        for aid, x in m:
            if not (isinstance(x, int) and x >= 0 and atom_int(_atoms[aid])):
                return False
            vars_.add(aid)
    vars_ = sorted(vars_)
    if den ** len(vars_) > 5000:
        return False
    import itertools
    for pt in itertools.product(range(den), repeat=len(vars_)):
        v = dict(zip(vars_, pt))
        s = F(0)
        for m, c in e.t.items():
            p = F(c)
            for aid, x in m:
                p *= v[aid] ** x
            s += p
        if s.denominator != 1:
            return False
    return True


# --------------------------------------------------------------------------
# multiplication


def _primes(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
        if d > 100000:
            break
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def _needs_norm(a, x):
    k = a.kind
    if k == "base":
        return x >= 1
    if k == "prime":
        return x >= 1 or x < 0
    if k == "fn" and a.args[0] == "abs":
        return isinstance(x, int) and (x % 2 == 0 or x > 2 and len(a.args[1].t) == 1)
    if k == "sym" and a.args[0] == "1j":
        return True if x != 1 else False
    return False


def _mulmono(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    d = dict(m1)
    need = False
    for aid, x in m2:
        y = d.get(aid)
        if y is None:
            d[aid] = x
        else:
            z = _ex(y + x)
            if z == 0:
                del d[aid]
            else:
                d[aid] = z
                if _needs_norm(_atoms[aid], z):
                    need = True
    return tuple(sorted(d.items())), need


def _expand_mono(m, c):
    """expand integral powers of base atoms etc. inside a monomial"""
    r = num(1)
    rest = []
    coef = F(c)
    extra = []
    for aid, x in m:
        a = _atoms[aid]
        if a.kind == "base" and x >= 1:
            k = int(math.floor(x))
            fr = _ex(F(x) - k)
            if fr != 0:
                rest.append((aid, fr))
            extra.append(power(a.args[0], k))
        elif a.kind == "prime" and (x >= 1 or x < 0):
            k = int(math.floor(x))
            coef *= F(a.args[0]) ** k
            fr = _ex(F(x) - k)
            if fr != 0:
                rest.append((aid, fr))
        elif a.kind == "fn" and a.args[0] == "abs" and isinstance(x, int) and x % 2 == 0:
            extra.append(power(a.args[1], x))
        elif a.kind == "fn" and a.args[0] == "abs" and isinstance(x, int) and x > 2 and len(a.args[1].t) == 1:
            extra.append(power(a.args[1], x - 1))
            rest.append((aid, 1))
        elif a.kind == "sym" and a.args[0] == "1j" and isinstance(x, int) and x != 1:
            x = x % 4
            if x in (2, 3):
                coef = -coef
            if x in (1, 3):
                rest.append((aid, 1))
        else:
            rest.append((aid, x))
    r = E({tuple(sorted(rest)): _ex(coef)})
    for f in extra:
        r = mul(r, f)
    return r


def mul(a, b):
    if not a.t or not b.t:
        return ZERO
    if len(a.t) * len(b.t) > MAXPROD:
        raise Limit("product too large")
    r = {}
    later = []
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m, need = _mulmono(m1, m2)
            c = c1 * c2
            if need:
                later.append((m, c))
                continue
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = _ex(v)
    res = E(r)
    for m, c in later:
        res = res + _expand_mono(m, c)
    if len(res.t) > MAXTERMS:
        raise Limit("too many terms")
    return res


def split_coef_mono(e):
    (m, c), = e.t.items()
    return c, m


def content(e, allow_any=True):
    """common factor (coef gcd, monomial) of all terms"""
    it = iter(e.t.items())
    m0, c0 = next(it)
    common = dict(m0)
    g_n, g_d = abs(F(c0).numerator), F(c0).denominator
    for m, c in it:
        d = dict(m)
        for aid in list(common):
            x = d.get(aid)
            y = common[aid]
            if x is None:
                if y > 0:
                    del common[aid]
                # a negative exponent: 0 is larger, the minimum stays y
            else:
                common[aid] = min(x, y)
        for aid, x in m:
            if x < 0 and aid not in common:
                common[aid] = x
        c = F(c)
        g_n = math.gcd(g_n, abs(c.numerator))
        g_d = g_d * c.denominator // math.gcd(g_d, c.denominator)
    # atoms absent from the first term but negative in others were added; fix
    # that the minimum is taken over all terms (absent = 0)
    for aid in list(common):
        mn = None
        for m, c in e.t.items():
            x = dict(m).get(aid, 0)
            mn = x if mn is None or x < mn else mn
        if mn == 0:
            del common[aid]
        else:
            common[aid] = mn
    return F(g_n, g_d), tuple(sorted(common.items()))


def mono_pow_inv(m):
    return tuple((aid, -x) for aid, x in m)


def strip(e, coef, m):
    inv = tuple(sorted((aid, _ex(-x)) for aid, x in m))
    r = {}
    for mm, c in e.t.items():
        d = dict(mm)
        for aid, x in inv:
            z = _ex(d.get(aid, 0) + x)
            if z == 0:
                d.pop(aid, None)
            else:
                d[aid] = z
        r[tuple(sorted(d.items()))] = _ex(F(c) / coef)
    res = E(r)
    # positive powers of base atoms may have appeared
    for mm in r:
        for aid, x in mm:
            if _needs_norm(_atoms[aid], x):
                out = ZERO
                for m2, c2 in r.items():
                    out = out + _expand_mono(m2, c2)
                return out
    return res


def _numpow(c, r):
    """rational c>0 to rational r as E with prime surds"""
    c = F(c)
    if isinstance(r, int) or F(r).denominator == 1:
        return num(c ** int(r))
    res = {}
    coef = F(1)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in _primes(n).items():
            x = F(r) * k * s
            res[p] = res.get(p, F(0)) + x
    mono = []
    for p, x in res.items():
        k = math.floor(x)
        coef *= F(p) ** k
        x = _ex(x - k)
        if x != 0:
            mono.append((mk_atom("prime", (p,)).id, x))
    return E({tuple(sorted(mono)): _ex(coef)})


def power(e, r):
    r = _ex(F(r))
    if r == 0:
        return ONE
    if r == 1:
        return e
    if not e.t:
        if r > 0:
            return ZERO
        return fn("div0")
    if isinstance(r, int) and r > 0:
        if len(e.t) == 1:
            (m, c), = e.t.items()
            mm = tuple((aid, _ex(x * r)) for aid, x in m)
            if any(_needs_norm(_atoms[aid], x) for aid, x in mm):
                return _expand_mono(mm, F(c) ** r)
            return E({mm: _ex(F(c) ** r)})
        if r > 8 or len(e.t) ** min(r, 3) > MAXPOW:
            raise Limit("power too large")
        res = e
        for _ in range(r - 1):
            res = mul(res, e)
        return res
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if isinstance(r, int):
            mm = tuple((aid, _ex(x * r)) for aid, x in m)
            if any(_needs_norm(_atoms[aid], x) for aid, x in mm):
                return _expand_mono(mm, F(c) ** r)
            return E({mm: _ex(F(c) ** r)})
        # fractional exponent
        out = {}
        resid = []
        neg = c < 0
        extra = ONE
        for aid, x in m:
            a = _atoms[aid]
            if atom_pos(a) or (a.kind == "base"):
                out[aid] = _ex(F(x) * r)
            elif isinstance(x, int) and x % 2 == 0:
                z = _ex(F(x) * r)
                if isinstance(z, int) and z % 2 == 0:
                    out[aid] = z
                else:
                    ab = absval(lift(a))
                    extra = mul(extra, power(ab, z))
            else:
                resid.append((aid, x))
        k = _numpow(abs(F(c)), r)
        mm = tuple(sorted(out.items()))
        if any(_needs_norm(_atoms[aid], x) for aid, x in mm):
            res = mul(k, _expand_mono(mm, 1))
        else:
            res = mul(k, E({mm: 1}))
        res = mul(res, extra)
        if neg or resid:
            base = E({tuple(sorted(resid)): -1 if neg else 1})
            b = mk_atom("base", (base,))
            res = mul(res, E({((b.id, r),): 1}))
        return res
    # several terms
    g, m = content(e)
    if not isinstance(r, int):
        keep = []
        for aid, x in m:
            a = _atoms[aid]
            if atom_pos(a) or a.kind == "base":
                keep.append((aid, x))
            elif isinstance(x, int) and x % 2 == 0:
                keep.append((aid, x))
        m = tuple(keep)
    p = strip(e, g, m)
    pre = power(E({m: _ex(g)}), r)
    if isinstance(r, int):
        if sign_hint(p) < 0:
            p = -p
            if r % 2:
                pre = -pre
    if len(p.t) == 1:
        return mul(pre, power(p, r))
    if isinstance(r, int) and len(p.t) == 1:
        return mul(pre, power(p, r))
    b = mk_atom("base", (p,))
    rr = {((b.id, r),): 1}
    return mul(pre, E(rr))


def sign_hint(p):
    """orientation of a polynomial used as a base: its sign at the nominal
    weights of its symbols (record lengths weigh most)"""
    s = 0.0
    for m, c in p.t.items():
        v = float(c)
        for aid, x in m:
            a = _atoms[aid]
            w = a.props.get("w") if a.props else None
            if w is None:
                if a.kind == "el" and isinstance(a.args[0], str):
                    w = ARR_WEIGHT.get(a.args[0])
            if w is None:
                s = None
                break
            v *= float(w) ** float(x)
        if s is None:
            break
        s += v
    if s:
        return s
    lead = max(p.t)
    return p.t[lead]


ARR_WEIGHT = {}


def absval(e):
    c = e.const()
    if c is not None:
        return num(abs(c))
    iid = the_atom(IMAG).id
    if iid in free_syms(e):
        re, im = {}, {}
        for m, c in e.t.items():
            k = tuple(q for q in m if q[0] != iid)
            x = sum(q[1] for q in m if q[0] == iid)
            if x not in (0, 1):
                return fn("cabs", e)
            (im if x else re)[k] = c
        re, im = E(re), E(im)
        if iid in free_syms(re) or iid in free_syms(im):
            return fn("cabs", e)
        return power(mul(re, re) + mul(im, im), F(1, 2))
    if e_nonneg(e):
        return e
    if e_nonneg(-e):
        return -e
    if len(e.t) == 1:
        (m, c), = e.t.items()
        out = ONE
        rest = []
        for aid, x in m:
            a = _atoms[aid]
            if atom_pos(a) or a.kind == "base" and False:
                out = mul(out, E({((aid, x),): 1}))
            elif isinstance(x, int) and x > 1:
                out = mul(out, E({((aid, x - x % 2),): 1}))
                if x % 2:
                    rest.append((aid, 1))
            else:
                rest.append((aid, x))
        if not rest:
            return mul(out, num(abs(c)))
        return mul(mul(out, num(abs(c))), fn("abs", E({tuple(rest): 1})))
    g, m = content(e)
    keep = tuple((aid, x) for aid, x in m if atom_pos(_atoms[aid]))
    p = strip(e, g, keep)
    lead = max(p.t)
    if p.t[lead] < 0:
        p = -p
    if 4 <= len(p.t) <= 150:
        for k in (7, 5, 3, 2):
            q = polyroot(p, k)
            if q is not None:
                return mul(E({keep: _ex(g)}), power(absval(q), k))
    return mul(E({keep: _ex(g)}), fn("abs", p))


def polyroot(p, k):
    """q with q^k = p for a polynomial with nonnegative integer exponents, or None"""
    ids = sorted({aid for m in p.t for aid, _ in m})
    pos = {a: n for n, a in enumerate(ids)}

    def key(m):
        v = [0] * len(ids)
        for aid, x in m:
            v[pos[aid]] = x
        return tuple(v)
    ks = {}
    for m, c in p.t.items():
        v = key(m)
        if any(not isinstance(x, int) or x < 0 for x in v):
            return None
        ks[v] = F(c)
    lo, hi = min(ks), max(ks)
    if any(x % k for x in lo) or any(x % k for x in hi):
        return None

    def rt(c):
        if c < 0:
            return None if k % 2 == 0 else (lambda z: None if z is None else -z)(rt(-c))
        a, b = (_iroot(c.numerator, k), _iroot(c.denominator, k))
        return None if a is None or b is None else F(a, b)
    c0 = rt(ks[hi])
    if c0 is None or rt(ks[lo]) is None:
        return None

    def mono(v):
        return tuple((ids[j], x) for j, x in enumerate(v) if x)
    h = tuple(x // k for x in hi)
    q = E({mono(h): _ex(c0)})
    for _ in range(12):
        try:
            d = p - power(q, k)
        except Limit:
            return None
        if not d.t:
            return q
        v = max(key(m) for m in d.t)
        c = F(d.t[mono(v)])
        w = tuple(x - (k - 1) * y for x, y in zip(v, h))
        if any(x < 0 for x in w) or w >= h:
            return None
        q = q + E({mono(w): _ex(c / (k * c0 ** (k - 1)))})
    return None


def _iroot(n, k):
    r = int(round(n ** (1.0 / k))) if n < 1 << 1000 else None
    if r is None:
        return None
    for z in (r - 1, r, r + 1):
        if z >= 0 and z ** k == n:
            return z
    return None


def polydiv(a, b, steps=400):
    """exact quotient a/b or None"""
    lb = max(b.t)
    cb = b.t[lb]
    dlb = dict(lb)
    q = {}
    r = dict(a.t)
    n = 0
    while r:
        n += 1
        if n > steps or len(r) > 4000:
            return None
        lr = None
        # choose a remainder term divisible by the leading term
        for m in sorted(r, reverse=True):
            d = dict(m)
            if all(d.get(aid, 0) - x >= 0 if x > 0 else True for aid, x in dlb.items()):
                lr = m
                break
            else:
                return None
        d = dict(lr)
        for aid, x in dlb.items():
            z = _ex(d.get(aid, 0) - x)
            if z == 0:
                d.pop(aid, None)
            else:
                d[aid] = z
        qm = tuple(sorted(d.items()))
        qc = _ex(F(r[lr]) / F(cb))
        if qm in q:
            return None
        q[qm] = qc
        for m2, c2 in b.t.items():
            mm, need = _mulmono(qm, m2)
            if need:
                return None
            v = r.get(mm, 0) - qc * c2
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = _ex(v)
    return E(q)


def div(a, b):
    if not b.t:
        if not a.t:
            return NAN
        return fn("div0")
    if not a.t:
        return ZERO
    if len(b.t) == 1:
        return mul(a, power(b, -1))
    g, m = content(b)
    p = strip(b, g, m)
    if len(p.t) > 1:
        q = polydiv(a, p)
        if q is not None:
            return mul(q, power(E({m: _ex(g)}), -1))
    return mul(a, power(b, -1))


def equal(a, b):
    """True if the normal forms certainly denote the same value"""
    d = a - b
    return zero_by_normal_form(d)


def unroll_ps(d):
    """prefix sums whose bounds differ by small integers: PS(b+k) = PS(b) +
    g(b) + ... + g(b+k-1)"""
    for _ in range(12):
        mp = {}
        for m in d.t:
            for aid, x in m:
                a = _atoms[aid]
                if a.kind == "ps" and aid not in mp:
                    cl, b = a.args
                    k = F(b.t.get((), 0))
                    if k != 0 and k.denominator == 1 and abs(k) <= 8:
                        k = int(k)
                        b0 = b - num(k)
                        r = _ps(cl, b0)
                        if k > 0:
                            for j in range(k):
                                r = r + open_(cl, b0 + num(j))
                        else:
                            for j in range(-k):
                                r = r - open_(cl, b0 - num(j + 1))
                        mp[aid] = r
        if not mp:
            return d
        d = subst_top(d, mp)
    return d


def zero_by_normal_form(d, rounds=4):
    try:
        d = unroll_ps(d)
    except Limit:
        return False
    for _ in range(rounds):
        if not d.t:
            return True
        neg = {}
        for m in d.t:
            for aid, x in m:
                if x < 0:
                    neg[aid] = min(neg.get(aid, 0), x)
        negb = {aid: x for aid, x in neg.items()}
        if not negb:
            return False
        try:
            f = ONE
            for aid, x in negb.items():
                k = math.ceil(-x)
                a = _atoms[aid]
                f = mul(f, E({((aid, k),): 1}) if a.kind != "base" else ONE)
            nd = ZERO
            # multiply term by term so that negative powers cancel first
            for m, c in d.t.items():
                mm = dict(m)
                ex = ONE
                for aid, x in negb.items():
                    k = math.ceil(-x)
                    z = _ex(mm.get(aid, 0) + k)
                    if z == 0:
                        mm.pop(aid, None)
                    else:
                        mm[aid] = z
                nd = nd + _expand_mono(tuple(sorted(mm.items())), c)
            d = nd
        except Limit:
            return False
    return not d.t


# --------------------------------------------------------------------------
# binders


def height(e):
    """largest bound-variable level occurring anywhere inside"""
    if e._h is None:
        h = 0
        for m in e.t:
            for aid, x in m:
                h = max(h, atom_height(_atoms[aid]))
        e._h = h
    return e._h


def _arg_height(x):
    if isinstance(x, E):
        return height(x)
    if isinstance(x, Cond):
        return x.height()
    if isinstance(x, tuple):
        return max([_arg_height(y) for y in x] or [0])
    if isinstance(x, PWKey):
        return _arg_height(x.pieces)
    return 0


def atom_height(a):
    if a._h is None:
        if a.kind == "bv":
            a._h = a.args[0]
        else:
            h = 0
            for x in a.args:
                if isinstance(x, (E, Cond, tuple, PWKey)):
                    h = max(h, _arg_height(x))
            # a binder's own level is (level, body)
            a._h = h
    return a._h


def bv(level):
    return A("bv", level)


def close(e, s):
    """abstract the symbol s: (level, body)"""
    h = height(e) + 1
    return (h, subst(e, {the_atom(s).id: bv(h)}))


def open_(cl, idx):
    h, b = cl
    a = _atom_ix.get(("bv", (h,)))
    if a is None:
        return b
    return subst(b, {a.id: lift(idx)})


def free_syms(e):
    """set of atom ids of symbols occurring anywhere"""
    if e._fs is None:
        s = set()
        for m in e.t:
            for aid, x in m:
                s |= atom_syms(_atoms[aid])
        e._fs = frozenset(s)
    return e._fs


def _arg_syms(x):
    if isinstance(x, E):
        return free_syms(x)
    if isinstance(x, Cond):
        return x.syms()
    if isinstance(x, tuple):
        s = frozenset()
        for y in x:
            s |= _arg_syms(y)
        return s
    if isinstance(x, PWKey):
        return _arg_syms(x.pieces)
    return frozenset()


def atom_syms(a):
    if a._fs is None:
        if a.kind in ("sym", "bv"):
            a._fs = frozenset([a.id])
        else:
            s = frozenset()
            for x in a.args:
                s |= _arg_syms(x)
            a._fs = s
    return a._fs


def depends(e, s):
    return the_atom(s).id in free_syms(e)


class PWKey(object):
    """interned content of a piecewise array: tuple of (start, length, (level, body))"""
    _ix = {}
    __slots__ = ("pieces", "_hash", "uid")

    def __new__(cls, pieces):
        k = cls._ix.get(pieces)
        if k is None:
            k = object.__new__(cls)
            k.pieces = pieces
            k._hash = hash(("pw", pieces))
            k.uid = len(cls._ix)
            cls._ix[pieces] = k
        return k

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "pw%d" % self.uid


# --------------------------------------------------------------------------
# conditions


class Cond(object):
    """op: lt, le, eq (E versus 0), and/or (tuple of Cond), not, opq (label, args), const"""
    __slots__ = ("op", "args", "_hash")

    def __init__(self, op, *args):
        self.op = op
        self.args = args
        self._hash = hash((op, args))

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return isinstance(o, Cond) and self._hash == o._hash and self.op == o.op and self.args == o.args

    def __ne__(self, o):
        return not self == o

    def height(self):
        return max([_arg_height(x) for x in self.args if isinstance(x, (E, Cond, tuple, PWKey))] or [0])

    def syms(self):
        s = frozenset()
        for x in self.args:
            s |= _arg_syms(x)
        return s

    def __repr__(self):
        if self.op == "const":
            return str(self.args[0])
        if self.op in ("lt", "le", "eq"):
            return "%r %s 0" % (self.args[0], {"lt": "<", "le": "<=", "eq": "=="}[self.op])
        if self.op == "not":
            return "not(%r)" % (self.args[0],)
        if self.op in ("and", "or"):
            return "(" + (" %s " % self.op).join(map(repr, self.args)) + ")"
        return "%s%r" % (self.op, self.args)


TRUE = Cond("const", True)
FALSE = Cond("const", False)


def c_not(c):
    if c is TRUE or c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "lt":
        return c_cmp("le", -c.args[0])
    if c.op == "le":
        return c_cmp("lt", -c.args[0])
    if c.op == "and":
        return c_or(*[c_not(x) for x in c.args])
    if c.op == "or":
        return c_and(*[c_not(x) for x in c.args])
    return Cond("not", c)


def c_and(*cs):
    out = []
    for c in cs:
        if c == TRUE:
            continue
        if c == FALSE:
            return FALSE
        if c.op == "and":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return Cond("and", *out)


def c_or(*cs):
    out = []
    for c in cs:
        if c == FALSE:
            continue
        if c == TRUE:
            return TRUE
        if c.op == "or":
            out.extend(x for x in c.args if x not in out)
        elif c not in out:
            out.append(c)
    for c in out:
        if c_not(c) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return Cond("or", *out)


def _has_inf(a):
    iid = the_atom(INF).id
    return any(isinstance(x, E) and iid in free_syms(x) for x in a.args[1:])


def c_cmp(op, e):
    """e op 0 with normalisation; op in lt le eq"""
    c = e.const()
    if c is not None:
        return TRUE if {"lt": c < 0, "le": c <= 0, "eq": c == 0}[op] else FALSE
    v = numeric(e)
    if v is not None:
        return TRUE if {"lt": v < 0, "le": v <= 0, "eq": False}[op] else FALSE
    # infinities
    for m in e.t:
        for aid, x in m:
            a = _atoms[aid]
            if a.kind == "ite" and x == 1 and len(e.t) <= 8 and _has_inf(a):
                return c_or(c_and(a.args[0], c_cmp(op, subst(e, {aid: a.args[1]}))),
                            c_and(c_not(a.args[0]), c_cmp(op, subst(e, {aid: a.args[2]}))))
    for m, cc in e.t.items():
        for aid, x in m:
            if _atoms[aid].kind == "sym" and _atoms[aid].args[0] == "inf" and x == 1 and len(m) == 1:
                if op == "eq":
                    return FALSE
                return TRUE if cc < 0 else FALSE
    g, m = content(e)
    keep = tuple((aid, x) for aid, x in m
                 if atom_pos(_atoms[aid]) and _atoms[aid].props.get("pos"))
    e = strip(e, g, keep)
    if op == "eq":
        lead = max(e.t)
        if e.t[lead] < 0:
            e = -e
    return Cond(op, e)


def ite(c, a, b):
    if c == TRUE:
        return a
    if c == FALSE:
        return b
    if a == b:
        return a
    # canonical polarity
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op == "lt":
        n = c_not(c)
        if repr_key(n) < repr_key(c):
            c, a, b = n, b, a
    elif c.op == "le":
        n = c_not(c)
        if repr_key(n) < repr_key(c):
            c, a, b = n, b, a
    # prune: same condition nested
    a = _under(a, c, True)
    b = _under(b, c, False)
    if a == b:
        return a
    # distribute common additive part is not attempted
    return A("ite", c, a, b)


def _under(e, c, val):
    """simplify top-level ite atoms with the same condition"""
    hit = False
    for m in e.t:
        for aid, x in m:
            a = _atoms[aid]
            if a.kind == "ite" and a.args[0] == c:
                hit = True
    if not hit:
        return e
    mp = {}
    for m in e.t:
        for aid, x in m:
            a = _atoms[aid]
            if a.kind == "ite" and a.args[0] == c:
                mp[aid] = a.args[1] if val else a.args[2]
    return subst_top(e, mp)


def subst_top(e, mp):
    out = ZERO
    for m, c in e.t.items():
        t = num(c)
        for aid, x in m:
            t = mul(t, power(mp[aid], x) if aid in mp else E({((aid, x),): 1}))
        out = out + t
    return out


def digest(x):
    """structural digest: a total order on normal forms that does not depend on
    the order in which atoms were created"""
    if isinstance(x, E):
        if x._d is None:
            parts = sorted((tuple(sorted((adigest(_atoms[a]), str(k)) for a, k in m)), str(c)) for m, c in x.t.items())
            x._d = _h(("E", parts))
        return x._d
    if isinstance(x, Cond):
        return _h((x.op,) + tuple(digest(y) for y in x.args))
    if isinstance(x, tuple):
        return _h(("T",) + tuple(digest(y) for y in x))
    if isinstance(x, PWKey):
        return _h(("PW", digest(x.pieces)))
    return repr(x)


def adigest(a):
    if a._d is None:
        a._d = _h((a.kind,) + tuple(digest(y) for y in a.args))
    return a._d


def _h(x):
    return hashlib.md5(repr(x).encode()).hexdigest()


def repr_key(c):
    return digest(c)


# --------------------------------------------------------------------------
# substitution


def subst(e, mp, memo=None, hook=None):
    """replace atoms (by id) with expressions, rebuilding through the smart
    constructors.  hook(atom) may return a replacement or None."""
    if memo is None:
        memo = {}
    if not mp and hook is None:
        return e
    if hook is None:
        # quick exit on disjoint symbols when only symbols are replaced
        fs = free_syms(e)
        if all(_atoms[k].kind in ("sym", "bv") for k in mp) and not (fs & mp.keys()):
            return e
    out = {}
    acc = None
    changed = False
    for m, c in e.t.items():
        parts = None
        for i, (aid, x) in enumerate(m):
            r = subst_atom(_atoms[aid], mp, memo, hook)
            if r is not None:
                if parts is None:
                    parts = []
                parts.append((i, r, x))
        if parts is None:
            v = out.get(m, 0) + c
            if v == 0:
                out.pop(m, None)
            else:
                out[m] = _ex(v)
            continue
        changed = True
        skip = {i for i, _, _ in parts}
        t = E({tuple(p for i, p in enumerate(m) if i not in skip): c})
        for i, r, x in parts:
            try:
                r = power(r, x)
            except Limit:
                r = fn("bigpow", r, num(x))
            try:
                t = mul(t, r)
            except Limit:
                t = fn("bigMult", t, r)
        acc = t if acc is None else acc + t
    if not changed:
        return e
    res = E(out)
    return res + acc if acc is not None else res


def _subst_any(x, mp, memo, hook):
    if isinstance(x, E):
        return subst(x, mp, memo, hook)
    if isinstance(x, Cond):
        return subst_cond(x, mp, memo, hook)
    if isinstance(x, tuple):
        return tuple(_subst_any(y, mp, memo, hook) for y in x)
    if isinstance(x, PWKey):
        return PWKey(tuple(
            (subst(s, mp, memo, hook), subst(l, mp, memo, hook), _subst_closed(b, mp, hook))
            for s, l, b in x.pieces))
    return x


def _subst_closed(cl, mp, hook):
    h, b = cl
    s = fresh("k", int=True)
    body = open_(cl, s)
    nb = subst(body, mp, None, hook)
    return close(nb, s)


def subst_cond(c, mp, memo=None, hook=None):
    if memo is None:
        memo = {}
    if c.op == "const":
        return c
    if hook is None and all(_atoms[k].kind in ("sym", "bv") for k in mp) and not (c.syms() & mp.keys()):
        return c
    if c.op in ("lt", "le", "eq"):
        return c_cmp(c.op, subst(c.args[0], mp, memo, hook))
    if c.op == "and":
        return c_and(*[subst_cond(x, mp, memo, hook) for x in c.args])
    if c.op == "or":
        return c_or(*[subst_cond(x, mp, memo, hook) for x in c.args])
    if c.op == "not":
        return c_not(subst_cond(c.args[0], mp, memo, hook))
    return Cond(c.op, *[_subst_any(x, mp, memo, hook) for x in c.args])


def subst_atom(a, mp, memo, hook):
    """replacement expression or None if unchanged"""
    r = mp.get(a.id)
    if r is not None:
        return r
    if a.id in memo:
        return memo[a.id]
    res = _subst_atom(a, mp, memo, hook)
    memo[a.id] = res
    return res


def _subst_atom(a, mp, memo, hook):
    k = a.kind
    if k in ("sym", "bv", "prime"):
        return None
    if hook is None:
        if all(_atoms[q].kind in ("sym", "bv") for q in mp) and not (atom_syms(a) & mp.keys()):
            return None
    if hook is not None:
        r = hook(a, mp, memo)
        if r is not None:
            return r
    if k == "base":
        n = subst(a.args[0], mp, memo, hook)
        return None if n == a.args[0] else n
    if k == "el":
        arr, idx = a.args
        n = subst(idx, mp, memo, hook)
        if isinstance(arr, PWKey):
            na = _subst_any(arr, mp, memo, hook)
            return pw_get(na, n)
        return el(arr, n)
    if k == "ps":
        cl, b = a.args
        s = fresh("k", int=True)
        body = subst(open_(cl, s), mp, None, hook)
        return prefix(body, s, subst(b, mp, memo, hook))
    if k == "sum":
        n, cl = a.args
        s = fresh("k", int=True)
        body = subst(open_(cl, s), mp, None, hook)
        return summation(body, s, ZERO, subst(n, mp, memo, hook))
    if k in ("mx", "mn"):
        n, cl = a.args
        s = fresh("k", int=True)
        body = subst(open_(cl, s), mp, None, hook)
        return extremum(k, body, s, subst(n, mp, memo, hook))
    if k == "ite":
        c = subst_cond(a.args[0], mp, memo, hook)
        return ite(c, subst(a.args[1], mp, memo, hook), subst(a.args[2], mp, memo, hook))
    if k == "fn":
        nargs = tuple(_subst_any(x, mp, memo, hook) for x in a.args)
        if nargs == a.args:
            return None
        return rebuild_fn(nargs)
    if k == "lam":
        return A("lam", *[_subst_any(x, mp, memo, hook) for x in a.args])
    nargs = tuple(_subst_any(x, mp, memo, hook) for x in a.args)
    return lift(mk_atom(k, nargs))


def rebuild_fn(args):
    name = args[0]
    h = FN_BUILD.get(name)
    if h is not None:
        return h(*args[1:])
    return fn(*args)


# --------------------------------------------------------------------------
# special functions with simplification


_numeric = {}


def numeric(e):
    """floating value of an expression without symbols or data, or None"""
    if not e.t or len(e.t) > 40:
        return None
    r = _numeric.get(e, 0)
    if r != 0:
        return r
    v = None
    if _closed(e):
        import alg_eval
        p = alg_eval.Point(budget=2000)
        try:
            v = p.ev(e)
            t = alg_eval.cond_number(p, e)
            if p.used or isinstance(v, complex):
                v = None
            elif abs(v) < 1e-9 * max(t, 1e-300):
                v = None
            else:
                v = float(v)
                if v != v or abs(v) > 1e12:
                    v = None
        except Exception:
            v = None
    _numeric[e] = v
    return v


def _closed(x):
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                a = _atoms[aid]
                if a.kind == "prime":
                    continue
                if a.kind == "sym" and a.args[0] == "pi":
                    continue
                if a.kind == "base" and all(_closed(y) for y in a.args):
                    continue
                if a.kind == "fn" and a.args[0] in ("exp", "log", "log2", "log10", "sin", "cos", "tan", "floor", "round", "trunc", "abs", "bigpow",
                                                    "bigMult", "bigDiv") and all(_closed(y) for y in a.args[1:]):
                    continue
                return False
        return True
    return isinstance(x, (int, F, float, str))


def floor_(e):
    ip = ZERO
    rest = ZERO
    for m, c in e.t.items():
        t = E({m: c})
        if m == ():
            rest = rest + t
        elif is_int(t):
            ip = ip + t
        else:
            rest = rest + t
    c = rest.const()
    if c is not None:
        return ip + num(math.floor(c))
    if is_int(rest):
        return ip + rest
    v = numeric(rest)
    if v is not None and abs(v - round(v)) > 1e-9 * max(1, abs(v)):
        return ip + num(math.floor(v))
    # move the integer part of the constant out
    c = F(rest.t.get((), 0))
    k = math.floor(c)
    if k:
        rest = rest - num(k)
        ip = ip + num(k)
    return ip + fn("floor", rest)


def ceil_(e):
    return -floor_(-e)


def round_(e):
    if is_int(e):
        return e
    c = e.const()
    if c is not None:
        return num(round(c))
    v = numeric(e)
    if v is not None and abs(v - math.floor(v) - 0.5) > 1e-9 * max(1, abs(v)):
        return num(round(v))
    return fn("round", e)


def trunc_(e):
    if is_int(e):
        return e
    c = e.const()
    if c is not None:
        return num(int(c))
    if e_nonneg(e):
        return floor_(e)
    return fn("trunc", e)


def mod_(a, b):
    c = b.const()
    if c is not None and c != 0:
        r = ZERO
        for m, k in a.t.items():
            t = E({m: k})
            if m and is_int(E({m: _ex(F(k) / c)})):
                continue
            r = r + t
        k = r.const()
        if k is not None:
            return num(k - c * math.floor(k / c))
        if c.denominator == 1 and is_int(r):
            q = ZERO
            for m, k in r.t.items():
                v = _ex(k - c * math.floor(F(k) / c)) if isinstance(k, int) else k
                if v != 0:
                    q = q + E({m: v})
            k = q.const()
            if k is not None:
                return num(k % c)
            return fn("mod", q, b)
        return fn("mod", r, b)
    if a == b:
        return ZERO
    return fn("mod", a, b)


def floordiv_(a, b):
    if b == ONE:
        return floor_(a)
    return floor_(div(a, b))


def ceildiv_(a, b):
    """ceil(a/b), b>0 integer; multiples of b are split off"""
    c = b.const()
    if c == 1:
        return ceil_(a)
    if c is not None:
        return ceil_(a / b)
    # split a = k*b + r with constant k when b is a monomial
    if len(b.t) == 1:
        (mb, cb), = b.t.items()
        k = ZERO
        r = ZERO
        for m, cc in a.t.items():
            if m == mb and is_int(num(F(cc) / F(cb))):
                k = k + num(F(cc) / F(cb))
            else:
                q = polydiv(E({m: cc}), b)
                if q is not None and is_int(q):
                    k = k + q
                else:
                    r = r + E({m: cc})
        if not r.t:
            return k
        return k + fn("ceildiv", r, b)
    q = polydiv(a, b)
    if q is not None and is_int(q):
        return q
    return fn("ceildiv", a, b)


def exp2_(e):
    c = e.const()
    if c is not None and c.denominator == 1:
        return num(F(2) ** int(c))
    return fn("exp2", e)


def log_(e):
    if e == ONE:
        return ZERO
    c = e.const()
    return fn("log", e)


def sin_(e):
    if not e.t:
        return ZERO
    lead = max(e.t)
    if e.t[lead] < 0:
        return -fn("sin", -e)
    return fn("sin", e)


def cos_(e):
    if not e.t:
        return ONE
    lead = max(e.t)
    if e.t[lead] < 0:
        e = -e
    return fn("cos", e)


def gpow_(a, b):
    """general a**b"""
    c = b.const()
    if c is not None:
        return power(a, c)
    if a == ONE:
        return ONE
    ca = a.const()
    if ca is not None and ca == 2:
        return exp2_(b)
    if ca is not None and ca > 0:
        return fn("gpow", a, b)
    # a^(b) with monomial positive a: split symbolic exponents additively
    k = F(b.t.get((), 0))
    if k != 0:
        return mul(power(a, k), gpow_(a, b - num(k)))
    if len(b.t) == 1 and next(iter(b.t.values())) < 0:
        return power(fn("gpow", a, -b), -1)
    return fn("gpow", a, b)


def max2(a, b):
    if a == b:
        return a
    c = (a - b).const()
    if c is not None:
        return a if c > 0 else b
    return (a + b + absval(a - b)) * F(1, 2)


def min2(a, b):
    if a == b:
        return a
    c = (a - b).const()
    if c is not None:
        return b if c > 0 else a
    return (a + b - absval(a - b)) * F(1, 2)


def max0_(e):
    c = e.const()
    if c is not None:
        return num(max(c, 0))
    if e_nonneg(e):
        return e
    return fn("max0", e)


FN_BUILD = {"floor": floor_, "round": round_, "trunc": trunc_, "mod": mod_, "ceildiv": ceildiv_,
            "abs": absval, "exp2": exp2_, "log": log_, "sin": sin_, "cos": cos_, "gpow": gpow_,
            "max0": max0_}


# --------------------------------------------------------------------------
# sums


def _bernoulli(n):
    B = [F(0)] * (n + 1)
    Am = [F(0)] * (n + 1)
    for m in range(n + 1):
        Am[m] = F(1, m + 1)
        for j in range(m, 0, -1):
            Am[j - 1] = j * (Am[j - 1] - Am[j])
        B[m] = Am[0]
    return B


def faulhaber(p, n):
    """sum_{k=0}^{n-1} k^p as polynomial in the expression n"""
    B = _bernoulli(p)
    B[1:2] = [F(-1, 2)] if p >= 1 else []
    out = ZERO
    for j in range(p + 1):
        c = F(math.comb(p + 1, j)) * B[j] / (p + 1)
        if c:
            out = out + power(n, p + 1 - j) * num(c)
    return out


def split_dep(m, sid):
    dep = []
    ind = []
    for aid, x in m:
        if sid in atom_syms(_atoms[aid]):
            dep.append((aid, x))
        else:
            ind.append((aid, x))
    return tuple(dep), tuple(ind)


def _lin_index(e, s):
    """e = c*s + r with constant c: (c, r) or None"""
    sid = the_atom(s).id
    c = F(0)
    r = ZERO
    for m, k in e.t.items():
        if m == ((sid, 1),):
            c += F(k)
        else:
            t = E({m: k})
            if sid in free_syms(t):
                return None
            r = r + t
    return c, r


def _shift_key(r):
    """translation-invariant comparison key is built from differences"""
    return r


def _first_lt(a, b):
    """a < b in the translation-invariant order (sign of leading coefficient of a-b)"""
    d = a - b
    if not d.t:
        return False
    return d.t[max(d.t)] < 0


def _data_index(a, s):
    """index linear form of an el/ps atom depending on s only through its
    index, else None"""
    if a.kind == "el":
        arr, idx = a.args
        if isinstance(arr, PWKey) and the_atom(s).id in _arg_syms(arr):
            return None
        return _lin_index(idx, s)
    if a.kind == "ps":
        cl, b = a.args
        if the_atom(s).id in _arg_syms(cl):
            return None
        return _lin_index(b, s)
    return None


def summation(body, s, lo, hi):
    """sum_{s=lo}^{hi-1} body"""
    lo, hi = lift(lo), lift(hi)
    if lo == hi or not body.t:
        return ZERO
    d = (hi - lo).const()
    if d is not None and d.denominator == 1 and 0 < d <= 4:
        out = ZERO
        sid = the_atom(s).id
        for k in range(int(d)):
            out = out + subst(body, {sid: lo + num(k)})
        return out
    sid = the_atom(s).id
    out = ZERO
    rest = ZERO
    groups = {}
    work = list(body.t.items())
    guard = 0
    while work:
        guard += 1
        if guard > 20000:
            raise Limit("summation")
        m, c = work.pop()
        dep, ind = split_dep(m, sid)
        indE = E({ind: c})
        if not dep:
            out = out + mul(indE, hi - lo)
            continue
        # power of s itself
        p = 0
        others = []
        for aid, x in dep:
            if aid == sid and isinstance(x, int) and x > 0:
                p = x
            else:
                others.append((aid, x))
        if not others:
            out = out + mul(indE, faulhaber(p, hi) - faulhaber(p, lo))
            continue
        infos = []
        ok = True
        for aid, x in others:
            a = _atoms[aid]
            li = _data_index(a, s)
            if li is None or li[0] == 0 or not (isinstance(x, int) and x > 0):
                ok = False
                break
            infos.append((aid, x, li[0], li[1]))
        if not ok or any(abs(i[2]) != 1 for i in infos) or len({i[2] for i in infos}) != 1:
            key = (dep,)
            g = groups.get(dep)
            groups[dep] = (g + indE) if g is not None else indE
            continue
        sgn = infos[0][2]
        # choose the smallest offset (translation invariant) among the
        # factors, ties broken by the array identity
        best = None
        for inf in infos:
            r = inf[3] if sgn > 0 else -inf[3]
            if best is None or _first_lt(inf[3], best):
                best = inf[3]
        # substitute: index = sgn*s + best  =: u ; s = sgn*(u-best)
        u = fresh("u", int=True)
        rep = (u - best) * num(sgn)
        newterm = subst(E({dep: 1}), {sid: rep})
        if sgn > 0:
            ulo, uhi = lo + best, hi + best
        else:
            ulo, uhi = best - hi + 1, best - lo + 1
        uid = the_atom(u).id
        for m2, c2 in newterm.t.items():
            dep2, ind2 = split_dep(m2, uid)
            cl = close(E({dep2: 1}), u)
            coefE = mul(indE, E({ind2: c2}))
            out = out + mul(coefE, _ps(cl, uhi) - _ps(cl, ulo))
    for dep, coef in groups.items():
        # shift to start at zero
        b = subst(E({dep: 1}), {sid: s + lo}) if lo.t else E({dep: 1})
        if lo.t and len(b.t) != 1:
            # expanded; keep together
            out = out + mul(coef, _sumatom(b, s, hi - lo))
        else:
            out = out + mul(coef, _sumatom(b, s, hi - lo))
    return out


def _sumatom(b, s, n):
    """sum_{s=0}^{n-1} b for an irregular body; b may have several terms"""
    out = ZERO
    sid = the_atom(s).id
    for m, c in b.t.items():
        dep, ind = split_dep(m, sid)
        indE = E({ind: c})
        if not dep:
            out = out + mul(indE, n)
            continue
        body = E({dep: 1})
        # reflection normal form: choose between body(s) and body(n-1-s)
        refl = subst(body, {sid: n - 1 - s})
        if len(refl.t) == 1 and digest(close(refl, s)) < digest(close(body, s)):
            (m2, c2), = refl.t.items()
            dep2, ind2 = split_dep(m2, sid)
            indE = mul(indE, E({ind2: c2}))
            body = E({dep2: 1})
        out = out + mul(indE, A("sum", n, close(body, s)))
    return out


def _ps(cl, b):
    if not b.t:
        return ZERO
    return A("ps", cl, b)


def prefix(body, s, b):
    return summation(body, s, ZERO, b)


def extremum(kind, body, s, n):
    """max (mx) / min (mn) over s in [0,n) of body"""
    n = lift(n)
    sid = the_atom(s).id
    c = n.const()
    if c == 1:
        return subst(body, {sid: ZERO})
    if c == 2:
        a, b = subst(body, {sid: ZERO}), subst(body, {sid: ONE})
        return max2(a, b) if kind == "mx" else min2(a, b)
    indep = ZERO
    dep = ZERO
    for m, k in body.t.items():
        t = E({m: k})
        if sid in free_syms(t):
            dep = dep + t
        else:
            indep = indep + t
    if not dep.t:
        return indep
    # pull out a common positive factor
    g, m = content(dep)
    keep = tuple((aid, x) for aid, x in m if atom_pos(_atoms[aid]) and sid not in atom_syms(_atoms[aid]))
    dep = strip(dep, g, keep)
    f = E({keep: _ex(g)})
    lead = sorted(dep.t)[0]
    # min of -f is -max f: orient so that the body has positive leading coefficient
    if dep.t[lead] < 0:
        other = "mn" if kind == "mx" else "mx"
        return indep - mul(f, A(other, n, close(-dep, s)))
    return indep + mul(f, A(kind, n, close(dep, s)))


def pw_get(key, idx, decide=None):
    """element of a piecewise array at an index expression"""
    if decide is not None:
        for (st, ln, cl) in key.pieces:
            lo = decide(c_cmp("le", st - idx))
            hi = decide(c_cmp("lt", idx - st - ln))
            if lo is True and hi is True:
                return open_(cl, idx - st)
    if len(key.pieces) == 1:
        st, ln, cl = key.pieces[0]
        return open_(cl, idx - st)
    c = idx.const()
    if c is not None:
        for (st, ln, cl) in key.pieces:
            s0, l0 = st.const(), ln.const()
            if s0 is not None and c < s0:
                break
            if s0 is not None and l0 is not None and s0 <= c < s0 + l0:
                return open_(cl, idx - st)
            if l0 is None:
                break
    return el(key, idx)


# --------------------------------------------------------------------------
# printing


def estr(e, depth=0):
    if not e.t:
        return "0"
    if depth > 9:
        return "..."
    parts = []
    n = 0
    for m, c in sorted(e.t.items(), key=lambda mc: [(adigest(_atoms[a]), x) for a, x in mc[0]]) if len(e.t) > 12 else sorted(
            e.t.items(), key=lambda mc: [(atom_str(_atoms[a], depth + 3), x) for a, x in mc[0]]):
        n += 1
        if n > 40:
            parts.append("...")
            break
        s = []
        if c != 1 or not m:
            s.append(str(c))
        for aid, x in m:
            t = atom_str(_atoms[aid], depth + 1)
            s.append(t if x == 1 else "%s^%s" % (t, x if isinstance(x, int) and x > 0 else "(%s)" % x))
        parts.append("*".join(s))
    return " + ".join(parts)


def atom_str(a, depth=0):
    k = a.kind
    d = depth + 1
    if k == "sym":
        return a.args[0]
    if k == "bv":
        return "$%d" % a.args[0]
    if k == "prime":
        return "%d" % a.args[0]
    if depth > 9:
        return "..."
    if k == "base":
        return "(%s)" % estr(a.args[0], d)
    if k == "el":
        n = a.args[0]
        return "%s[%s]" % (n if isinstance(n, str) else repr(n), estr(a.args[1], d))
    if k == "ps":
        return "PS{%s}(%s)" % (estr(a.args[0][1], d), estr(a.args[1], d))
    if k == "sum":
        return "SUM{%s}(<%s)" % (estr(a.args[1][1], d), estr(a.args[0], d))
    if k in ("mx", "mn"):
        return "%s{%s}(<%s)" % ("MAX" if k == "mx" else "MIN", estr(a.args[1][1], d), estr(a.args[0], d))
    if k == "ite":
        return "ite(%s, %s, %s)" % (str(a.args[0])[:200], estr(a.args[1], d), estr(a.args[2], d))
    if k == "fn":
        return "%s(%s)" % (a.args[0], ", ".join(_astr(x) for x in a.args[1:]))
    return ("%s%r" % (k, a.args))[:200]


def _astr(x):
    if isinstance(x, E):
        return estr(x, 6)
    return str(x)[:200]
