"""C25: result files and plots show the computed columns unaltered."""
import re
import string
from props.p_c24 import *
from lib import FileVal
from alg import TRUE, FALSE

EXPLANATION = ("Dataset.write_results is abstractly interpreted on result columns that are free symbols (0, 1 and 3 rows, every digit count of a list and a "
               "symbolic one); the recorded write calls are parsed into lines and blank-separated fields (format, %-format, f-string, print, join), "
               "mapped to the column names of the heading line and compared with tau*rate, tau, n, dev -+ err/2 and dev of that row; precision of each "
               "field's format against the digits asked for. Histories of set_input/compute/write likewise. Plot.plot: recorded calls on the axes object.")


class Give(object):
    """deviation stubs with result rows that are known symbols: t = (m_i + u_i)/rate, integer m_i and n_i, |u_i| tiny"""

    def __init__(self, rows, fail=()):
        self.rows = rows
        self.fail = set(fail)
        self.calls = []

    def sym(self, k, f, i):
        p = "%s_%s%d_%d" % ("%s", f, k, i)
        return (integer(p % "m"), integer(p % "n"), real(p % "u"), real(p % "d"), real(p % "e"))

    def stubs(self):
        return {AT + "." + f: (lambda I, env, st, node, fr, f=f: self.rec(f, I, env, st, node, fr)) for f in module_functions()}

    def rec(self, f, I, env, st, node, fr):
        self.calls.append((f, dict(env)))
        if f in self.fail:
            I.raise_("ValueError", st, fr, node, explicit=True)
        k = len(self.calls)
        r = I.to_e(st, env["rate"])
        S = [self.sym(k, f, i) for i in range(self.rows)]
        cols = ([(x[0] + x[2]) / r for x in S], [x[3] for x in S], [x[4] for x in S], [x[1] for x in S])
        if f == "gradev":
            e = cols[2]
            mk = lambda v: I.alloc(st, I.list_arr(list(v), "nd"))
            return Tup([mk(cols[0]), mk(cols[1]), I.alloc(st, I.list_arr([mk(e), mk(e)])), mk(cols[3])])
        return Tup([I.alloc(st, I.list_arr(list(v), "nd")) for v in cols])

    def free(self):
        d = {}
        for k, (f, env) in enumerate(self.calls):
            for i in range(self.rows):
                m, n, u, dv, e = self.sym(k + 1, f, i)
                d[m] = [1, 2, 7, 48, 1000, 123456]
                d[n] = [2, 3, 17, 900, 1234567]
                d[u] = [F(1, 2 ** 40), -F(1, 2 ** 40), F(0)]
                d[dv] = [F(3, 7), F(5, 10 ** 12), F(123456, 7), F(2, 3)]
                d[e] = [F(1, 9), F(1, 10 ** 13), F(3456, 7), F(1, 11)]
        return d


def integer(n):
    return sym(n, int=True, pos=True, w=20)


def real(n):
    return sym(n, pos=n[0] in "de")


# --------------------------------------------------------------------------
# text of a formatting expression


class Unreadable(Exception):
    pass


def literal(c, x):
    """text of a constant"""
    if isinstance(x, Const):
        return str(x.v)
    if isinstance(x, E) and x.const() is not None:
        v = x.const()
        return str(int(v)) if v.denominator == 1 else str(float(v))
    return None


def field(c, st, v, spec, conv, out):
    x = c.I.deref(st, v)
    if isinstance(x, Fmt):
        if spec and not re.fullmatch(r"([<>^])?\d*s?", spec):
            raise Unreadable("format %r of text" % spec)
        tokens(c, st, x, out)
        return
    t = literal(c, x)
    if t is not None:
        try:
            val = x.v if isinstance(x, Const) else (int(x.const()) if alg.is_int(x) else float(x.const()))
            spec = re.sub("\0\\d+\0", "20", spec)
            out.append(("lit", format(val, spec) if not conv else format(str(val), spec)))
        except (ValueError, TypeError):
            raise Unreadable("format %r of %r" % (spec, t))
        return
    out.append(("field", v, spec))


def spec_text(c, st, spec, get):
    """a format specification with its nested fields filled in; unknown values become their name"""
    s = ""
    for lit, name, sp, conv in string.Formatter().parse(spec):
        s += lit
        if name is not None:
            v = c.I.deref(st, get(name))
            t = literal(c, v)
            s += t if t is not None else "\0%s\0" % reg(v)
    return s


REG = {}


def reg(v):
    REG[str(len(REG))] = v
    return str(len(REG) - 1)


PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])")


def tokens(c, st, x, out):
    x = c.I.deref(st, x)
    if isinstance(x, Const):
        out.append(("lit", str(x.v)))
        return
    if not isinstance(x, Fmt):
        raise Unreadable("%s" % (x,))
    if x.kwargs.get("%") is True:
        a = c.I.deref(st, x.args[0] if isinstance(x.args, (list, tuple)) and len(x.args) == 1 else x.args)
        vals = list(a.items) if isinstance(a, Tup) else [a] if not isinstance(a, (list, tuple)) else list(a)
        if len(vals) == 1 and isinstance(c.I.deref(st, vals[0]), Tup):
            vals = list(c.I.deref(st, vals[0]).items)
        dct = vals[0] if len(vals) == 1 and isinstance(c.I.deref(st, vals[0]), Dct) else None
        pos = 0
        it = iter(vals)
        for m in PCT.finditer(x.fmt):
            out.append(("lit", x.fmt[pos:m.start()]))
            pos = m.end()
            key, flags, width, prec, ty = m.groups()
            if ty == "%":
                out.append(("lit", "%"))
                continue
            try:
                if width == "*":
                    next(it)
                if prec == "*":
                    v = c.I.deref(st, next(it))
                    t = literal(c, v)
                    prec = t if t is not None else "\0%s\0" % reg(v)
                if key:
                    if dct is None:
                        raise Unreadable("%% mapping")
                    v = entry(c.I.deref(st, dct), key)
                    if v is None:
                        raise Unreadable("missing key " + key)
                else:
                    v = next(it)
            except StopIteration:
                raise Unreadable("too few values for %r" % x.fmt)
            field(c, st, v, ("." + prec if prec is not None else "") + ("" if ty in "rsa" else "d" if ty in "iu" else ty), None, out)
        out.append(("lit", x.fmt[pos:]))
        return
    count = [0]

    def get(name):
        if name == "":
            name = str(count[0])
            count[0] += 1
        m = re.fullmatch(r"(\w+)((?:\[\w+\])*)", name)
        if not m:
            raise Unreadable("field " + name)
        try:
            v = x.args[int(m.group(1))] if m.group(1).isdigit() else x.kwargs[m.group(1)]
        except (KeyError, IndexError):
            raise Unreadable("no value for {%s}" % name)
        for i in re.findall(r"\[(\w+)\]", m.group(2)):
            d = c.I.deref(st, v)
            if isinstance(d, Dct):
                v = entry(d, i)
            elif i.isdigit() and isinstance(d, (Arr, Tup)):
                a = c.I.arr(st, v)
                v = a.at(num(int(i)))
            else:
                v = None
            if v is None:
                raise Unreadable("field " + name)
        return v
    try:
        parts = list(string.Formatter().parse(x.fmt))
    except ValueError as ex:
        raise Unreadable(str(ex))
    for lit, name, spec, conv in parts:
        if lit:
            out.append(("lit", lit))
        if name is None:
            continue
        v = get(name)
        field(c, st, v, spec_text(c, st, spec, get), conv, out)


def lines_of(c, st, evs):
    """[[token, …] per line] of the write events; the column boundaries are blanks in literal text"""
    out = []
    for e in evs:
        if e.kind == "file.write":
            a = e.data[1][0] if e.data[1] else None
            tokens(c, st, a, out)
        elif e.kind == "file.writelines":
            a = c.I.arr(st, e.data[1][0])
            its = a.items() if a is not None else None
            if its is None:
                raise Unreadable("writelines")
            for x in its:
                tokens(c, st, x, out)
        elif e.kind in ("file.close", "file.flush"):
            pass
        else:
            raise Unreadable(e.kind)
    lines = [[]]
    for t in out:
        if t[0] == "lit":
            parts = t[1].split("\n")
            for i, p in enumerate(parts):
                if i:
                    lines.append([])
                if p:
                    lines[-1].append(("lit", p))
        else:
            lines[-1].append(t)
    return [l for l in lines if l]


def items(line):
    """blank-separated columns of a line, each a list of tokens"""
    cols = [[]]
    for t in line:
        if t[0] == "lit":
            parts = re.split(r"(\s+)", t[1])
            for p in parts:
                if not p:
                    continue
                if p.isspace():
                    if cols[-1]:
                        cols.append([])
                else:
                    cols[-1].append(("lit", p))
        else:
            cols[-1].append(t)
    return [x for x in cols if x]


def text(line):
    """text with fields as <value>"""
    return "".join(t[1] if t[0] == "lit" else "<>" for t in line)


def header(line):
    return bool(line) and line[0][0] == "lit" and line[0][1].lstrip().startswith("#")


def no_fields(line):
    return all(t[0] == "lit" for t in line)


PREC = re.compile(r"^(?:[^\d.\0]*)(?:0?\d+|\0\d+\0)?,?(?:\.(\d+|\0\d+\0))?([eEfFgGdn%s]?)$")


def digits_shown(c, spec, digits, points):
    """verdict on the precision of a float field"""
    m = PREC.match(spec)
    if not m:
        return UNDECIDED, "format %r" % spec
    p, ty = m.groups()
    if p is None:
        if ty == "" or ty == "s":
            return PROVED, "full representation"
        if ty == "d":
            return UNDECIDED, "integer format of a column"
        pe = num(6)
    elif p.startswith("\0"):
        pe = c.I.to_e(c.st, REG[p.strip("\0")])
    else:
        pe = num(int(p))
    if ty in ("e", "E"):
        have = pe + 1
    elif ty in ("g", "G", "", "n"):
        have = pe
    elif ty in ("f", "F", "%"):
        # a value below 10**-p has no significant digit
        return VIOLATED, "fixed-point format %r of values of any magnitude" % shown(spec)
    else:
        return UNDECIDED, "format %r" % spec
    lt = alg.c_cmp("lt", have - digits)
    if is_opaque(have):
        return UNDECIDED, "unknown precision"
    gap = (have - digits).const()
    if gap is not None and gap >= 0:
        return PROVED, "%s significant digits" % have
    for pt in points:
        try:
            if pt.cond(lt):
                return VIOLATED, "%s significant digits where %s are asked for" % (pt.ev(have), pt.ev(digits))
        except alg_eval.NoValue:
            return UNDECIDED, "no value"
    return AGREED, "%s significant digits" % have


def shown(spec):
    return re.sub("\0(\\d+)\0", lambda m: "{%s}" % REG[m.group(1)], spec)


# --------------------------------------------------------------------------
# result files

DIG = sym("digits", int=True, pos=True)


def ctx2(rows, fail=()):
    rec = Give(rows, fail)
    c = Case({N: s + 12, K: k0 + 1}, (), rec.stubs(), False)
    return rec, c


def pts2(c, rec):
    free = {s: [0, 1, 5], k0: [1, 2, 3], rate: MRATES + [F(1, 10), F(1000)], rate2: MRATES, DIG: [1, 2, 3, 5, 8, 11, 12, 13, 15, 16, 17, 18, 20, 30]}
    free.update(rec.free())
    return c.points(free, 60)


def wsite():
    return def_site(DS, "Dataset.write_results")


def write(c, ds, args, kw):
    """(outcome, write events, open event)"""
    k = len(c.I.events)
    st = c.st.fork()
    o = method(c, ds, "write_results", args, kw, st)
    if o.value is not None:
        c.st = o.st
    evs = c.I.events[k:]
    opens = [x for x in evs if x.kind == "open" and x.data[0] and isinstance(x.data[0][0], Const) and x.data[0][0].v == "result.dat"]
    ws = [x for x in evs if x.kind.startswith("file.") and isinstance(x.data[0], FileVal)
          and x.data[0].args and isinstance(x.data[0].args[0], Const) and x.data[0].args[0].v == "result.dat"]
    return o, ws, opens


def at_points(c, got, want, points):
    """numbers equal at the points"""
    if got == want:
        return PROVED, "equal value numbers"
    if is_opaque(got):
        return UNDECIDED, "unmodelled construct"
    ok = 0
    for p in points:
        try:
            a, b = p.ev(got), p.ev(want)
        except (alg_eval.NoValue, ZeroDivisionError, OverflowError, TypeError, ValueError):
            continue
        if not alg_eval.close_to(a, b, 1e-9, 0):
            return VIOLATED, "%s where %s is expected (%s)" % (float(a), float(b), str(got)[:120])
        ok += 1
    return (AGREED if ok > 1 else UNDECIDED), "%d points" % ok


def check_file(c, rec, ds, k, name, r, dt, digits, lab, args, kw, params=()):
    """write now; the file has to show the k-th computation `name`, made with this rate and data type"""
    P = pts2(c, rec)
    o, ws, opens = write(c, ds, args, kw)
    site = wsite()
    out = []
    add = lambda v, rule, why, key=None: out.append(dict(finding(v, rule, site, "%s: %s" % (lab, why)), **({"key": key} if key else {})))
    if o.value is None:
        names = raises_names(o)
        add(UNDECIDED if not o.raises or any(opaque_atoms(x[0]) for x in o.raises if x[0]) else VIOLATED, "a file is written", "raises %s" % names, "write_results/" + name)
        return out
    if not opens or not ws:
        add(UNDECIDED, "a file is written", "no writing recognised")
        return out
    for e in opens:
        mode = e.data[0][1] if len(e.data[0]) > 1 else e.data[1].get("mode", Const("r"))
        ok = isinstance(mode, Const) and isinstance(mode.v, str) and "w" in mode.v or isinstance(mode, Const) and "x" in str(mode.v)
        add(PROVED if ok else VIOLATED if isinstance(mode, Const) else UNDECIDED, "existing content is replaced", "mode %s" % (mode,))
    if len(opens) > 1:
        add(UNDECIDED, "file", "opened %d times" % len(opens))
        return out
    if any(getattr(e, "path", ()) for e in ws):
        cond = [e for e in ws if e.path]
        if any(opaque_atoms(x) for e in cond for x in e.path):
            add(UNDECIDED, "columns", "lines written under unknown conditions")
            return out
        pt = P[0]
        keep = []
        for e in ws:
            try:
                if all(pt.cond(x) for x in e.path):
                    keep.append(e)
            except Exception:
                add(UNDECIDED, "columns", "lines written under unevaluated conditions")
                return out
        ws = keep
        P = [pt]
    try:
        lines = lines_of(c, c.st, ws)
        head = [l for l in lines if header(l)]
        rest = [l for l in lines if not header(l)]
        out += columns(c, rec, head, rest, k, name, r, digits, P, lab, site)
        out += heading(c, head, rest, r, dt, params, P, lab, site)
    except Unreadable as ex:
        add(UNDECIDED, "columns", "text not understood: %s" % ex)
    return out


def columns(c, rec, head, rest, k, name, r, digits, P, lab, site):
    out = []
    add = lambda v, rule, why: out.append(finding(v, rule, site, "%s: %s" % (lab, why)))
    names = None
    if rest and no_fields(rest[0]) and any("tau" == text(i).lower() for i in items(rest[0])):
        names, rest = [text(i) for i in items(rest[0])], rest[1:]
    else:
        for l in head:
            its = [text(i).lstrip("#") for i in items(l)]
            its = [x for x in its if x]
            if no_fields(l) and "tau" in [x.lower() for x in its]:
                names = its
    if names is None:
        add(UNDECIDED, "columns", "no line of column names")
        return out
    n = rec.rows
    if len(rest) != n:
        add(VIOLATED, "one line per result row", "%d lines for %d rows" % (len(rest), n))
        return out
    add(PROVED, "one line per result row", "%d" % n)
    low = [x.lower() for x in names]
    need = {"af": "AF", "tau": "tau", "n": "N", name: "dev", "min_" + name: "min", "max_" + name: "max"}
    for col in need:
        if low.count(col) != 1:
            add(VIOLATED, "columns are named", "column %s is named %d times in %s" % (col, low.count(col), names))
    for i, l in enumerate(rest):
        its = items(l)
        if len(its) != len(names):
            add(VIOLATED, "columns line up", "%d values under %d names: %s" % (len(its), len(names), text(l)))
            return out
        m, nn, uu, d, e = rec.sym(k, name, i)
        want = {"af": m, "tau": (m + uu) / r, "n": nn, name: d, "min_" + name: d - e / 2, "max_" + name: d + e / 2}
        for col, w in want.items():
            if low.count(col) != 1:
                continue
            it = its[low.index(col)]
            rule = "column %s" % need[col]
            if len(it) != 1:
                add(UNDECIDED, rule, "row %d: %s" % (i, text(it)))
                continue
            if it[0][0] == "lit":
                add(VIOLATED, rule, "row %d: the text %r" % (i, it[0][1]))
                continue
            g = c.I.to_e(c.st, it[0][1])
            if col in ("af", "n"):
                v, why = at_points(c, g, w, P)
            else:
                v, why = same(g, w, P)
            add(v, rule, "row %d: %s" % (i, why))
            if col not in ("af", "n"):
                v, why = digits_shown(c, it[0][2], digits, P)
                add(v, "digits of column %s" % need[col], "row %d: %s" % (i, why))
    return out


def heading(c, head, rest, r, dt, params, P, lab, site):
    out = []
    add = lambda v, rule, why: out.append(finding(v, rule, site, "%s: %s" % (lab, why)))
    fields = [t for l in head for t in l if t[0] == "field"]
    # data type
    words = [l for l in head if re.search(r"type", "".join(t[1] for t in l if t[0] == "lit"), re.I)]
    other = "freq" if dt == "phase" else "phase"
    if any(dt in text(l) for l in words):
        add(PROVED, "data type stated", dt)
    elif any(other in text(l) for l in words):
        add(VIOLATED, "data type stated", "%s instead of %s" % (other, dt))
    elif any(dt in text(l) for l in head):
        add(PROVED, "data type stated", dt)
    elif any(is_opaque(c.I.to_e(c.st, t[1])) for l in words or head for t in l if t[0] == "field"):
        add(UNDECIDED, "data type stated", "unknown text")
    else:
        add(VIOLATED, "data type stated", "not stated")
    # rate
    lines = [l for l in head if re.search(r"\brate\b", "".join(t[1] for t in l if t[0] == "lit"), re.I)]
    fs = [t for l in lines for t in l if t[0] == "field"]
    if not fs:
        add(UNDECIDED if any(is_opaque(c.I.to_e(c.st, t[1])) for t in fields) and not lines else VIOLATED, "rate stated", "not stated")
    else:
        best = None
        for t in fs:
            v, why = same(c.I.to_e(c.st, t[1]), r, P)
            if v in (PROVED, AGREED) and re.search(r"\.\d+[fF%]$|d$", t[2]):
                v, why = VIOLATED, "format %r" % t[2]
            if best is None or v in (PROVED, AGREED):
                best = (v, why)
        add(best[0], "rate stated", best[1])
    # version
    m = version(c)
    if m is not None and any(c.I.to_e(c.st, t[1]) == m for t in fields):
        add(PROVED, "version stated", "the package's __version__")
    elif any(is_opaque(c.I.to_e(c.st, t[1])) for t in fields) or any(re.search(r"\d", text(l)) for l in head):
        add(UNDECIDED, "version stated", "unknown text")
    else:
        add(VIOLATED, "version stated", "not stated")
    for key, val in params:
        ls = [l for l in head if key in text(l)]
        if not ls:
            add(VIOLATED, "header parameters stated", "%s missing" % key)
            continue
        w = c.I.deref(c.st, val)
        if isinstance(w, Const):
            ok = any(str(w.v) in text(l) for l in ls)
            add(PROVED if ok else VIOLATED, "header parameters stated", key)
        else:
            vs = [same(c.I.to_e(c.st, t[1]), w, P) for l in ls for t in l if t[0] == "field"]
            ok = [x for x in vs if x[0] in (PROVED, AGREED)]
            add(*((ok or vs or [(VIOLATED, "no value")])[0][:1] + ("header parameters stated", "%s: %s" % (key, (ok or vs or [(0, "no value")])[0][1]))))
    return out


def version(c):
    try:
        v = c.I.mod_attr("allantools", "__version__")
        return c.I.to_e(c.st, v) if v is not None else None
    except Exception:
        return None


def file_ob(name, rows, digits, how, r):
    rec, c = ctx2(rows)
    ds = dataset(c, "init/keyword", arr(c, N, "x"), r, "phase" if rows != 3 else "freq", NONE)
    lab = "%s/%d rows/%s digits/%s" % (name, rows, digits, how)
    o = compute(c, ds, name)
    if o.value is None:
        return [finding(UNDECIDED, "a file is written", wsite(), "%s: compute raises %s" % (lab, raises_names(o)))], coverage_of(c.I)
    dg = {"default": num(5), "sym": DIG}.get(digits)
    if dg is None:
        dg = num(digits)
    args, kw, params = [Const("result.dat")], {}, []
    if digits != "default":
        if how == "positional":
            args.append(dg)
        else:
            kw["digits"] = dg
    if how == "params":
        w = sym("w", pos=True)
        kw["header_params"] = c.I.alloc(c.st, Dct({c.I.dkey(c.st, Const(a))[0]: b for a, b in (("Temperature", w), ("Place", Const("Besancon")), ("Run", num(7)))}))
        params = [("Temperature", w), ("Place", Const("Besancon")), ("Run", Const("7"))]
    if how == "name":
        args, kw["filename"] = [], args[0]
    out = check_file(c, rec, ds, 1, name, r, "phase" if rows != 3 else "freq", dg, lab, args, kw, params)
    if name == "gradev":
        # two error columns: known finding
        for f in out:
            f["key"] = "write_results/gradev"
    return out, coverage_of(c.I)


def file_history_ob(steps):
    """steps: ('set', tag), ('run', name), ('fail', name), ('write', -)"""
    fails = [a for what, a in steps if what == "fail"]
    rec, c = ctx2(2, fails)
    lab = " ".join("%s(%s)" % x for x in steps)
    out = []
    inp = {0: (rate, "phase"), 1: (rate2, "freq")}
    ds = last = cur = None
    for what, a in steps:
        if what == "set":
            d = arr(c, N, "x%s" % a)
            if ds is None:
                ds = dataset(c, "init/keyword", d, inp[a][0], inp[a][1], NONE)
            else:
                setin(c, ds, "set/keyword", d, inp[a][0], inp[a][1], NONE)
            cur = inp[a]
        elif what == "run":
            o = compute(c, ds, a)
            if o.value is None:
                return out + [finding(UNDECIDED, "a file is written", wsite(), "%s: compute raises %s" % (lab, raises_names(o)))], coverage_of(c.I)
            last = (len(rec.calls), a) + cur
        elif what == "fail":
            o = compute(c, ds, a)
            st = after(c, o)
            if st is not None:
                c.st = st
        elif what == "write":
            out += check_file(c, rec, ds, last[0], last[1], last[2], last[3], num(5), lab, [Const("result.dat")], {})
    return out, coverage_of(c.I)


# --------------------------------------------------------------------------
# plots


def psite():
    return def_site(PL, "Plot.plot")


DRAW = ("plot", "errorbar", "loglog", "semilogx", "semilogy", "scatter", "step", "stem", "bar", "fill_between", "hist")


def plot_ob(name, errorbars, grid, extra, history):
    rec, c = ctx2(3)
    lab = "%s/errorbars=%s/grid=%s%s%s" % (name, errorbars, grid, "/keywords" if extra else "", "/recomputed" if history else "")
    site = psite()
    out = []
    add = lambda v, rule, why: out.append(finding(v, rule, site, "%s: %s" % (lab, why)))
    ds = dataset(c, "init/keyword", arr(c, N, "x"), rate, "phase", NONE)
    if history:
        compute(c, ds, "mdev")
    o = compute(c, ds, name)
    k = len(rec.calls)
    if o.value is None:
        return [finding(UNDECIDED, "drawn", site, lab + ": compute fails")], coverage_of(c.I)
    if history == "set":
        setin(c, ds, "set/keyword", arr(c, N, "z"), rate2, "freq", NONE)
    pl = construct(c, PL, "Plot", [], {"no_display": TRUE})
    if pl.value is None:
        return [finding(UNDECIDED, "drawn", site, lab + ": Plot() fails")], coverage_of(c.I)
    c.st = pl.st
    e0 = len(c.I.events)
    kw = {}
    if errorbars is not None:
        kw["errorbars"] = TRUE if errorbars else FALSE
    if grid is not None:
        kw["grid"] = TRUE if grid else FALSE
    if extra:
        kw["marker"] = Const("o")
        kw["linewidth"] = sym("lw", pos=True)
    o = method(c, pl.value, "plot", [ds], kw, c.st)
    P = pts2(c, rec)
    if o.value is None and not any(x.kind == "opaque-meth" for x in c.I.events[e0:]):
        add(VIOLATED if o.raises and not any(opaque_atoms(x[0]) for x in o.raises if x[0]) else UNDECIDED, "drawn", "raises %s" % raises_names(o))
        return out, coverage_of(c.I)
    c.st = o.st if o.value is not None else c.st
    ev = [x for x in c.I.events[e0:] if x.kind == "opaque-meth" and x.data[1] in DRAW]
    ext = [x for x in c.I.events[e0:] if x.kind == "ext-call" and str(x.data[0]).split(".")[-1] in DRAW]
    calls = [(x.data[1], x.data[2], x.data[3], x) for x in ev] + [(str(x.data[0]).split(".")[-1], x.data[1], x.data[2], x) for x in ext]
    calls = [x for x in calls if not getattr(x[3], "path", ())]
    if not calls:
        add(UNDECIDED, "drawn", "no drawing call recognised")
        return out, coverage_of(c.I)
    if len(calls) != 1:
        add(UNDECIDED, "drawn", "%d drawing calls" % len(calls))
        return out, coverage_of(c.I)
    what, args, kws, e = calls[0]
    S = [rec.sym(k, name, i) for i in range(3)]
    want = {"x": [(q_[0] + q_[2]) / rate for q_ in S], "y": [q_[3] for q_ in S], "yerr": [q_[4] for q_ in S]}
    got = {"x": args[0] if args else kws.get("x"), "y": args[1] if len(args) > 1 else kws.get("y"),
           "yerr": args[2] if len(args) > 2 and what == "errorbar" else kws.get("yerr")}
    if what not in ("plot", "errorbar", "loglog", "semilogx", "semilogy", "scatter", "step"):
        add(UNDECIDED, "drawn", what)
        return out, coverage_of(c.I)
    for key in ("x", "y", "yerr"):
        rule = {"x": "abscissa is tau", "y": "ordinate is the deviation", "yerr": "error bars"}[key]
        g = got[key]
        gd = c.I.deref(c.st, g) if g is not None else None
        if key == "yerr":
            if not errorbars:
                ok = gd is None or isinstance(gd, Const) and gd.v is None
                add(PROVED if ok else VIOLATED, "error bars only if asked for", str(gd)[:60])
                continue
            if gd is None or isinstance(gd, Const) and gd.v is None:
                add(VIOLATED, rule, "not drawn (%s)" % what)
                continue
        if gd is None:
            add(VIOLATED, rule, "missing")
            continue
        a = c.I.arr(c.st, g)
        if a is None:
            add(UNDECIDED, rule, str(gd)[:80])
            continue
        its = a.items() or [a.at(num(i)) for i in range(3)]
        w = want[key]
        if key == "yerr" and name == "gradev":
            ok = len(its) == 2 and all(c.I.arr(c.st, z) is not None for z in its)
            if not ok:
                add(UNDECIDED, rule, "gradev: %d" % len(its))
                continue
            for z in its:
                b = c.I.arr(c.st, z)
                for i in range(3):
                    v, why = same(c.I.to_e(c.st, b.at(num(i))), w[i], P)
                    add(v, rule, why)
            continue
        v, why = arr_same(c, c.st, c.I.list_arr(list(w), "nd"), a, P)
        add(v, rule, why)
    if extra:
        for key in ("marker", "linewidth"):
            if key not in kws:
                add(VIOLATED, "keywords reach matplotlib", key + " missing")
            else:
                v, why = same_arg(c, c.st, kws[key], kw[key], P)
                add(v, "keywords reach matplotlib", "%s: %s" % (key, why))
    return out, coverage_of(c.I)


def obligations(tier):
    obs = []
    t = package().trees.get(AT)
    names = [n for n in (module_functions() if t else []) if (n in SPEC or n in WHITE) and allowed(n) and n != "gcodev"]
    for j, n in enumerate(names):
        for rows, d, how in ((3, "default", "plain"), (1, 9, "keyword")) if tier == "quick" and n not in ("oadev", "mtie") else itertools.product(
                (0, 1, 3), ("default", "sym", 1, 2, 5, 7, 9, 12, 15, 17, 30), ("keyword", "positional")):
            if tier == "quick" and rows == 0 and d not in ("default", 9):
                continue
            obs.append(Ob("file/%s/%s/%s/%s" % (n, rows, d, how), file_ob, n, rows, d, how, rate))
    for how in ("params", "name"):
        for d in ("default", "sym"):
            obs.append(Ob("file/oadev/3/%s/%s" % (d, how), file_ob, "oadev", 3, d, how, rate))
    S = lambda x: ("set", x)
    R = lambda x: ("run", x)
    W = ("write", "")
    for h in ([S(0), R("adev"), R("mdev"), W],
              [S(0), R("mdev"), W, R("adev"), W],
              [S(0), R("adev"), S(1), W],
              [S(0), R("adev"), S(1), R("adev"), W],
              [S(0), R("adev"), ("fail", "mdev"), W],
              [S(1), R("adev"), S(0), ("fail", "mdev"), W],
              [S(0), R("adev"), ("fail", "nosuchdev"), W],
              [S(0), R("adev"), W, S(1), W, R("hdev"), W],
              [S(1), S(0), R("theo1"), W]):
        obs.append(Ob("history/" + " ".join("%s(%s)" % x for x in h), file_history_ob, h))
    for n in names if tier == "thorough" else [x for x in ("oadev", "mtie", "gradev") if x in names]:
        for eb, g, ex, hi in itertools.product((None, False, True), (None, True), (False, True), (None, "run", "set")):
            if tier == "quick" and n != "oadev" and (g or ex or hi == "run"):
                continue
            obs.append(Ob("plot/%s/%s/%s/%s/%s" % (n, eb, g, ex, hi), plot_ob, n, eb, g, ex, hi))
    return obs
