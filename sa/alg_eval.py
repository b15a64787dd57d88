"""Random interpretation of value numbers: evaluates a normal form at a point
(concrete small lengths, pseudo-random data), to separate value numbers whose
normal forms differ.  No code of the analysed package is involved."""
import cmath
import hashlib
import math
from fractions import Fraction as F
import alg
from alg import E, Cond


class NoValue(Exception):
    """the normal form has no value at this point / is not evaluable"""


class Undefined(NoValue):
    """the arithmetic itself has no finite value at this point"""


class NotANumber(Undefined):
    """the value is NaN"""


def hrand(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return int.from_bytes(h[:6], "big") / float(1 << 48)


class Point(object):
    longest = 20000

    def __init__(self, seed=0, syms=None, arrays=None, budget=3000000, posarr=()):
        self.seed = seed
        self.syms = dict(syms or {})       # atom id -> number
        self.arrays = arrays or {}         # name -> function(index)
        self.memo = {}
        self.env = {}
        self.budget = budget
        self.ps = {}
        self.len_of = {}
        self.used = set()
        self.ffts = {}

    # -------------------------------------------------------------- helpers
    def tick(self, n=1):
        self.budget -= n
        if self.budget < 0:
            raise NoValue("budget")

    def data(self, name, i):
        f = self.arrays.get(name)
        if f is not None:
            return f(i)
        return hrand(self.seed, name, i) * 2 - 1 if name not in alg.POS_ARRAYS else hrand(self.seed, name, i) + 0.5

    def envkey(self, syms):
        return tuple(sorted((k, v) for k, v in self.env.items() if k in syms))

    def ev(self, e):
        if not e.t:
            return 0
        bvs = alg.free_syms(e)
        key = (e, self.envkey(bvs)) if self.env else (e, ())
        r = self.memo.get(key)
        if r is not None:
            return r
        tot = 0
        for m, c in e.t.items():
            self.tick()
            v = c if not isinstance(c, F) else (c.numerator if c.denominator == 1 else c)
            for aid, x in m:
                b = self.atom(alg.atom(aid))
                v = self.mulp(v, b, x)
            tot = tot + v
        if isinstance(tot, F) and tot.denominator == 1:
            tot = int(tot)
        if isinstance(tot, float) and (tot != tot):
            raise NoValue("nan")
        self.memo[key] = tot
        return tot

    def frac(self, a, b):
        if b == 0:
            raise Undefined("division by zero")
        if isinstance(a, (int, F)) and isinstance(b, (int, F)):
            return F(a) / F(b)
        return a / b if not isinstance(a, F) and not isinstance(b, F) else complex(a) / complex(b) \
            if isinstance(a, complex) or isinstance(b, complex) else float(a) / float(b)

    def mulp(self, v, b, x):
        if x == 1:
            return v * b if not (isinstance(v, F) and isinstance(b, (float, complex))) else float(v) * b
        if isinstance(x, int):
            if b == 0 and x < 0:
                raise Undefined("division by zero")
            if x < 0 and isinstance(b, int):
                p = F(1, 1) / F(b) ** (-x)
            else:
                try:
                    p = b ** x
                except OverflowError:
                    raise NoValue("overflow")
        else:
            if b == 0:
                if x < 0:
                    raise Undefined("division by zero")
                p = 0
            elif isinstance(b, complex):
                p = b ** float(x)
            elif b < 0:
                p = complex(b) ** float(x)
            else:
                p = float(b) ** float(x)
        if isinstance(v, F) and isinstance(p, (float, complex)):
            v = float(v)
        return v * p

    def int_(self, e):
        v = self.ev(e)
        if isinstance(v, complex):
            raise NoValue("complex length")
        r = int(round(float(v)))
        if abs(float(v) - r) > 1e-6:
            raise NoValue("non-integer index")
        return r

    def real(self, e):
        v = self.ev(e)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-7 * (1 + abs(v.real)):
                raise NoValue("complex comparison")
            v = v.real
        return v

    def cond(self, c):
        if c.op == "const":
            return c.args[0]
        if c.op == "and":
            return all(self.cond(x) for x in c.args)
        if c.op == "or":
            return any(self.cond(x) for x in c.args)
        if c.op == "not":
            return not self.cond(c.args[0])
        if c.op in ("lt", "le", "eq"):
            try:
                v = self.real(c.args[0])
            except NotANumber:
                raise NoValue("comparison with NaN")
            tol = 1e-11 if isinstance(v, float) else 0
            if c.op == "eq":
                return abs(v) <= tol
            if isinstance(v, float) and abs(v) <= tol:
                # too close to call unless the comparison does not matter
                raise NoValue("tie")
            return v < 0 if c.op == "lt" else v <= 0
        if c.op == "isnan":
            a = alg.the_atom(c.args[0]) if len(c.args[0].t) == 1 else None
            if a is not None and a.kind == "el" and isinstance(a.args[0], str):
                i = self.int_(a.args[1])
                return self.isgap(a.args[0], i)
            raise NoValue("isnan")
        if c.op == "quant":
            kind, n, cl = c.args
            k = self.int_(n)
            vals = (self.bind(cl, i) for i in range(k))
            return any(v == 1 for v in vals) if kind == "any" else all(v == 1 for v in vals)
        raise NoValue("condition " + c.op + " " + str(c.args[:1]))

    def isgap(self, name, i):
        return False

    def bind(self, cl, i):
        h, b = cl
        a = alg._atom_ix.get(("bv", (h,)))
        if a is None:
            return self.ev(b)
        old = self.env.get(a.id)
        self.env[a.id] = i
        try:
            return self.ev(b)
        finally:
            if old is None:
                self.env.pop(a.id, None)
            else:
                self.env[a.id] = old

    def rng(self, cl, lo, hi):
        self.tick(max(hi - lo, 0))
        if hi - lo > self.longest:
            raise NoValue("long sum")
        t = 0
        for i in range(lo, hi):
            v = self.bind(cl, i)
            if isinstance(t, F) and isinstance(v, (float, complex)):
                t = float(t)
            elif isinstance(v, F) and isinstance(t, (float, complex)):
                v = float(v)
            t = t + v
        return t

    def clkey(self, cl):
        syms = alg.free_syms(cl[1])
        a = alg._atom_ix.get(("bv", (cl[0],)))
        return tuple(sorted((k, v) for k, v in self.env.items() if k in syms and (a is None or k != a.id)))

    def psval(self, cl, b):
        key = (cl, self.clkey(cl))
        tab = self.ps.get(key)
        if tab is None:
            tab = self.ps[key] = {0: 0}
        if b in tab:
            return tab[b]
        if abs(b) > self.longest:
            raise NoValue("long prefix sum")
        if b > 0:
            k = b
            while k not in tab:
                k -= 1
            t = tab[k]
            while k < b:
                v = self.bind(cl, k)
                if isinstance(t, F) and isinstance(v, (float, complex)):
                    t = float(t)
                elif isinstance(v, F) and isinstance(t, (float, complex)):
                    v = float(v)
                t = t + v
                k += 1
                tab[k] = t
            return t
        return -self.rng(cl, b, 0)

    def atom(self, a):
        k = a.kind
        if k == "sym":
            v = self.syms.get(a.id)
            if v is None:
                n = a.args[0]
                if n == "pi":
                    return math.pi
                if n == "1j":
                    return 1j
                if n == "inf":
                    raise NoValue("inf")
                if n == "nan":
                    raise NotANumber("not a number")
                if a.props.get("int"):
                    v = 1 + int(hrand(self.seed, n) * 5)
                else:
                    v = 0.5 + hrand(self.seed, n)
                self.syms[a.id] = v
            return v
        if k == "bv":
            if a.id not in self.env:
                raise NoValue("free bound variable")
            return self.env[a.id]
        if k == "prime":
            return a.args[0]
        if k == "base":
            return self.ev(a.args[0])
        if k == "el":
            arr, idx = a.args
            i = self.int_(idx)
            if isinstance(arr, alg.PWKey):
                return self.pw(arr, i)
            if isinstance(arr, tuple):
                return self.data(repr(arr), i)
            return self.data(arr, i)
        if k == "ps":
            return self.psval(a.args[0], self.int_(a.args[1]))
        if k == "sum":
            return self.rng(a.args[1], 0, self.int_(a.args[0]))
        if k in ("mx", "mn"):
            n = self.int_(a.args[0])
            if n <= 0:
                raise NoValue("extremum of empty range")
            vals = [self.realv(self.bind(a.args[1], i)) for i in range(n)]
            return max(vals) if k == "mx" else min(vals)
        if k == "ite":
            return self.ev(a.args[1]) if self.cond(a.args[0]) else self.ev(a.args[2])
        if k == "fn":
            return self.fnv(a)
        if k == "opq":
            raise NoValue("opaque")
        raise NoValue("atom " + k)

    def realv(self, v):
        if isinstance(v, complex):
            if abs(v.imag) > 1e-7 * (1 + abs(v.real)):
                raise NoValue("complex")
            return v.real
        return v

    def pw(self, key, i):
        for s0, ln, cl in key.pieces:
            a = self.int_(s0)
            n = self.int_(ln)
            if a <= i < a + n:
                return self.bind(cl, i - a)
        raise NoValue("index outside of piecewise array")

    def pwlist(self, key):
        out = []
        for s0, ln, cl in key.pieces:
            for j in range(self.int_(ln)):
                out.append(self.bind(cl, j))
        return out

    def maskidx(self, key):
        """indices selected by a mask array"""
        return [i for i, v in enumerate(self.pwlist(key)) if v == 1]

    def fnv(self, a):
        n = a.args[0]
        args = a.args[1:]
        if n in ("floor", "round", "trunc", "abs", "exp", "log", "sin", "cos", "exp2", "max0", "tan", "sign"):
            v = self.real(args[0])
            f = float(v)
            if n == "floor":
                return math.floor(v + 1e-9) if isinstance(v, float) else math.floor(v)
            if n == "round":
                return int(round(f)) if not isinstance(v, F) else int(round(v))
            if n == "trunc":
                return int(v)
            if n == "abs":
                return abs(v)
            if n == "max0":
                return max(v, 0)
            if n == "sign":
                return (v > 0) - (v < 0)
            try:
                if n == "log":
                    if f <= 0:
                        raise Undefined("logarithm of %s" % v)
                    return math.log(f)
                if n == "exp2":
                    return 2 ** v if isinstance(v, int) and v >= 0 else 2.0 ** f
                return getattr(math, n)(f)
            except OverflowError:
                raise NoValue("overflow")
        if n == "bigMult":
            return self.ev(args[0]) * self.ev(args[1])
        if n == "bigDiv":
            return self.frac(self.ev(args[0]), self.ev(args[1]))
        if n == "bigpow":
            y = self.ev(args[1])
            if isinstance(y, F) and y.denominator == 1:
                y = int(y)
            x = self.ev(args[0])
            if isinstance(y, int):
                return self.frac(1, x ** -y) if y < 0 else x ** y
            if isinstance(x, complex) or x < 0:
                raise NoValue("power")
            return float(x) ** float(y)
        if n == "cabs":
            return abs(complex(self.ev(args[0])))
        if n == "ceildiv":
            x, y = self.real(args[0]), self.real(args[1])
            if y == 0:
                raise Undefined("division by zero")
            return math.ceil(F(x) / F(y))
        if n == "mod":
            x, y = self.real(args[0]), self.real(args[1])
            if y == 0:
                raise Undefined("division by zero")
            return x - y * math.floor(F(x) / F(y)) if isinstance(x, (int, F)) and isinstance(y, (int, F)) else math.fmod(x, y) if x * y >= 0 else x - y * math.floor(x / y)
        if n == "gpow":
            x, y = self.ev(args[0]), self.ev(args[1])
            try:
                if isinstance(x, (int, F)) and isinstance(y, int):
                    return F(x) ** y
                if isinstance(x, complex) or (not isinstance(x, complex) and x < 0 and y != int(y)):
                    return complex(x) ** y
                return float(x) ** float(y)
            except ZeroDivisionError:
                raise Undefined("power of zero")
            except OverflowError:
                raise NoValue("pow")
        if n == "sllen":
            lo, hi, ln = [self.int_(x) for x in args]
            return max(0, len(range(ln)[slice(lo, hi)]))
        if n == "sel":
            ix = self.maskidx(args[0])
            j = self.int_(args[1])
            if not -len(ix) <= j < len(ix):
                raise NoValue("sel out of range")
            return ix[j]
        if n in ("uix", "uniq"):
            vals = self.pwlist(args[0])
            u = sorted(set(vals))
            if n == "uniq":
                raise NoValue("uniq")
            j = self.int_(args[1])
            if not -len(u) <= j < len(u):
                raise NoValue("uix out of range")
            return vals.index(u[j])
        if n == "len":
            x = args[0]
            if isinstance(x, E) and len(x.t) == 1:
                at = alg.the_atom(x)
                if at.kind == "fn" and at.args[0] == "uniq":
                    return len(set(self.pwlist(at.args[1])))
            raise NoValue("len")
        if n == "sorted":
            vals = sorted(self.pwlist(args[0]))
            return vals[self.int_(args[1])]
        if n == "cumprod":
            vals = self.pwlist(args[0])
            p = 1
            for v in vals[:self.int_(args[1]) + 1]:
                p = p * (float(v) if isinstance(v, F) and isinstance(p, float) else v)
            return p
        if n in ("extmx", "extmn"):
            raise NoValue("extremum of filtered array")
        if n == "div0":
            raise Undefined("division by zero")
        if n == "polyfit":
            return polyfit(self.pwlist(args[0]), self.pwlist(args[1]), self.int_(args[2]), self.int_(args[3]))
        if n == "quad":
            return self.quad(*args)
        if n in ("fft", "ifft", "rfft", "irfft"):
            return self.transform(n, args)
        if n in ("real", "imag"):
            v = complex(self.ev(args[0]))
            return v.real if n == "real" else v.imag
        if n == "scipy.special.erf":
            return math.erf(float(self.real(args[0])))
        if n == "scipy.stats.chi2.ppf" and len(args) == 2:
            # any smooth injective function serves
            pq, k = float(self.real(args[0])), float(self.real(args[1]))
            return (abs(k) + 0.1) ** 1.1 * (pq + 0.37 * pq ** 3 + 0.05) + 0.01 * pq * k
        # uninterpreted function: pseudo-random but consistent
        self.used.add(n)
        key = (n,) + tuple(self.argval(x) for x in args)
        return hrand(self.seed, "fn", key) + 0.25

    def transform(self, n, args):
        """discrete Fourier transforms by their definition"""
        x = tuple(complex(v) for v in self.pwlist(args[0]))
        N = self.int_(args[1]) if n == "irfft" else len(x)
        j = self.int_(args[-1])
        if N < 1 or N > 4000 or not -N <= j < N:
            raise NoValue("transform")
        if n == "irfft":
            h = N // 2 + 1
            x = (x + (0j,) * h)[:h]
        key = (n, N, x)
        r = self.ffts.get(key)
        if r is None:
            self.tick(N * N // 8)
            if n == "irfft":
                y = [complex(x[0].real)] + [0j] * (N - 1)
                for k in range(1, len(x)):
                    if 2 * k == N:
                        y[k] = complex(x[k].real)
                    else:
                        y[k], y[N - k] = x[k], x[k].conjugate()
            else:
                y = list(x)
            sg = 1 if n.startswith("i") else -1
            w = [cmath.exp(sg * 2j * math.pi * k / N) for k in range(N)]
            r = [sum(y[k] * w[k * i % N] for k in range(N)) for i in range(N)]
            if sg > 0:
                r = [v / N for v in r]
            self.ffts[key] = r
        v = r[j]
        return v.real if n == "irfft" else v

    def quad(self, cl, lo, hi):
        """a fixed positive rule; infinite ranges by a scale-equivariant map"""
        lo = float(self.real(lo))
        inf = hi == alg.INF
        if not inf and "inf" in repr(hi):
            c = [self.ev(E({tuple(x for x in m if alg.atom(x[0]) is not _INF): v})) for m, v in hi.t.items()
                 if any(alg.atom(x[0]) is _INF and x[1] == 1 for x in m)]
            if len(hi.t) != 1 or len(c) != 1 or not float(c[0]) > 0:
                raise NoValue("quadrature limit")
            inf = True
        t = 0.0
        if inf:
            if lo == 0:
                raise NoValue("improper quadrature from zero")
            for u, w in GL:
                z = lo / (1 - u)
                t += w * self.realv(self.bind(cl, z)) * lo / (1 - u) ** 2
            return t
        h = float(self.real(hi)) - lo
        if h == 0:
            return 0.0
        for u, w in GL:
            t += w * self.realv(self.bind(cl, lo + h * u)) * h
        return t

    def argval(self, x):
        if isinstance(x, E):
            v = self.ev(x)
            if isinstance(v, complex):
                return (round(v.real, 7), round(v.imag, 7))
            return float("%.7g" % float(v))
        if isinstance(x, Cond):
            return self.cond(x)
        if isinstance(x, alg.PWKey):
            return tuple(float("%.7g" % self.realv(v)) for v in self.pwlist(x))
        if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], E):
            # a binder: sample it
            return tuple(self.argnum(self.bind(x, t)) for t in (0.37, 1.91))
        if isinstance(x, tuple):
            return tuple(self.argval(y) for y in x)
        return repr(x)

    def argnum(self, v):
        if isinstance(v, complex):
            return (round(v.real, 7), round(v.imag, 7))
        return float("%.7g" % float(v))


def close_to(a, b, rel=1e-7, abs_=1e-12):
    if isinstance(a, (int, F)) and isinstance(b, (int, F)):
        return a == b
    a, b = complex(a), complex(b)
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def cond_number(p, e):
    """sum of absolute values of the terms, to judge cancellation"""
    t = 0.0
    for m, c in e.t.items():
        v = c
        for aid, x in m:
            v = p.mulp(v, p.atom(alg.atom(aid)), x)
        t += abs(complex(v)) if not isinstance(v, F) else abs(float(v))
    return t


def polyfit(t, x, d, k):
    """exact least squares"""
    if len(t) <= d:
        raise NoValue("polyfit")
    t, x = [F(v) for v in t], [F(v) for v in x]
    n = d + 1
    A = [[sum(v ** (i + j) for v in t) for j in range(n)] + [sum(u * v ** i for u, v in zip(x, t))] for i in range(n)]
    for i in range(n):
        p = next((r for r in range(i, n) if A[r][i] != 0), None)
        if p is None:
            raise NoValue("polyfit")
        A[i], A[p] = A[p], A[i]
        A[i] = [v / A[i][i] for v in A[i]]
        for r in range(n):
            if r != i and A[r][i] != 0:
                A[r] = [v - A[r][i] * w for v, w in zip(A[r], A[i])]
    return A[d - k][n]


def _gauss(n):
    out = []
    for i in range(n):
        x = math.cos(math.pi * (i + 0.75) / (n + 0.5))
        for _ in range(50):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-15:
                break
        out.append(((1 + x) / 2, 1 / ((1 - x * x) * dp * dp)))
    return out


GL = _gauss(24)
_INF = alg.the_atom(alg.INF)
