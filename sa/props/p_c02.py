"""C02: no hidden state, no randomness or environment in results."""
import ast
import re
import time
from calls import *

EXPLANATION = ("every public function, constructor and method is abstractly interpreted with module variables, mutable defaults, class and "
               "function attributes as heap cells. A call that changes such a cell is followed by a second call, with other data, the same or "
               "another rate, and by calls of other functions that read the cell; their value numbers must be those of a fresh process. Value "
               "numbers of non-random entries may contain no random, clock or environment atom, results may not alias module-level cells, and "
               "work on one object may not change cells of another.")

ENV = ("time.", "datetime.", "os.", "random.", "uuid.", "secrets.", "getpass.", "platform.", "socket.", "locale.", "threading.", "gc.", "sys.")
OKENV = ("os.path.", "sys.maxsize", "sys.float_info")


def leaves(c, st, v, lab="", depth=0, seen=None):
    """(label, scalar value) of a result; arrays by their length and elements"""
    seen = set() if seen is None else seen
    if isinstance(v, Ref):
        if v.cid in seen:
            return
        seen.add(v.cid)
        v = c.I.deref(st, v)
    if isinstance(v, Tup):
        for k, x in enumerate(v.items):
            for y in leaves(c, st, x, lab + "[%d]" % k, depth + 1, seen):
                yield y
    elif isinstance(v, Arr):
        yield lab + ".len", v.n
        n = v.n.const() if isinstance(v.n, E) else None
        for i in (range(min(int(n), 12)) if n is not None else (0, 1, 2, 5)):
            try:
                x = v.at(num(i))
            except Exception:
                continue
            if depth < 6:
                for y in leaves(c, st, x, lab + "[%d]" % i, depth + 1, seen):
                    yield y
    elif isinstance(v, Dct):
        for k, x in v.d.items():
            for y in leaves(c, st, x, lab + "[%s]" % (k,), depth + 1, seen):
                yield y
    elif isinstance(v, Obj):
        for k, x in v.attrs.items():
            for y in leaves(c, st, x, lab + ".%s" % k, depth + 1, seen):
                yield y
    else:
        yield lab, v


def atoms_of(x, acc, seen):
    if isinstance(x, E):
        for m in x.t:
            for aid, _ in m:
                if aid in seen:
                    continue
                seen.add(aid)
                a = alg.atom(aid)
                acc.append(a)
                for y in a.args:
                    atoms_of(y, acc, seen)
    elif isinstance(x, Cond):
        if x.op == "opq":
            acc.append(x)
        for y in x.args:
            atoms_of(y, acc, seen)
    elif isinstance(x, (tuple, list)):
        for y in x:
            atoms_of(y, acc, seen)
    elif isinstance(x, alg.PWKey):
        atoms_of(x.pieces, acc, seen)
    elif isinstance(x, Fmt):
        atoms_of([p for p in x.parts], acc, seen) if hasattr(x, "parts") else None
    return acc


def random_names(x):
    out = set()
    for a in atoms_of(x, [], set()):
        if isinstance(a, Cond):
            if a.args and a.args[0] == "rng":
                out.add("random condition")
        elif a.kind == "el" and isinstance(a.args[0], str) and a.args[0].split("~")[0] in ("randn", "rand") and "~" in a.args[0]:
            out.add(a.args[0])
        elif a.kind == "opq" and a.args and a.args[0] == "rng":
            out.add("numpy.random.%s~%s" % (a.args[1], a.args[2] if len(a.args) > 2 else "?"))
    return out


def env_names(x):
    out = set()
    for a in atoms_of(x, [], set()):
        args = a.args
        if args and isinstance(args[0], str) and args[0].startswith("ext:"):
            p = args[0][4:]
            if any(p.startswith(e) for e in ENV) and not any(p.startswith(e) for e in OKENV):
                out.add(p)
    return out


def rngno(name):
    try:
        return int(name.split("~")[-1])
    except ValueError:
        return None


# ------------------------------------------------------------- result comparison


def compare(c1, st1, a, c2, st2, b, points, lab="result", depth=0):
    """[(verdict, label, why)] of two results in two interpreters"""
    a, b = c1.I.deref(st1, a), c2.I.deref(st2, b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        out = []
        for k in range(len(a.items)):
            out += compare(c1, st1, a.items[k], c2, st2, b.items[k], points, "%s[%d]" % (lab, k), depth + 1)
        return out
    if isinstance(a, (E, Cond)) and isinstance(b, (E, Cond)):
        r, why = same_bool(a, b, points)
        return [(r, lab, why)]
    if isinstance(a, Const) and isinstance(b, Const):
        if a.v == b.v:
            return [(PROVED, lab, "equal")]
        return [(VIOLATED, lab, "%r instead of %r" % (a.v, b.v))]
    if isinstance(a, Arr) and isinstance(b, Arr):
        r, why = same(a.n, b.n, points)
        out = [(r, lab + " length", why)]
        if r in (VIOLATED, UNDECIDED):
            return out
        n = a.n.const()
        idx = list(range(int(n))) if n is not None and n <= 10 else [0, 1, 2, 3, 5, -1, -2]
        for k in idx:
            i = num(k) if k >= 0 else a.n + k
            x, y = c1.I.deref(st1, a.at(i)), c2.I.deref(st2, b.at(i))
            l = "%s[%d]" % (lab, k)
            if isinstance(x, (E, Cond)) and isinstance(y, (E, Cond)):
                r, why = same_bool(x, y, [p for p in points if inside(p, i, a.n)], need=1)
                out.append((r, l, why))
            elif depth < 4:
                out += compare(c1, st1, x, c2, st2, y, points, l, depth + 1)
        return out
    if isinstance(a, Dct) and isinstance(b, Dct):
        if set(map(str, a.d)) != set(map(str, b.d)):
            return [(VIOLATED, lab, "keys %s instead of %s" % (sorted(map(str, a.d)), sorted(map(str, b.d))))]
        bb = {str(k): v for k, v in b.d.items()}
        out = []
        for k, v in a.d.items():
            out += compare(c1, st1, v, c2, st2, bb[str(k)], points, "%s[%s]" % (lab, k), depth + 1)
        return out
    if isinstance(a, Obj) and isinstance(b, Obj) and depth < 5:
        if set(a.attrs) != set(b.attrs):
            return [(VIOLATED, lab, "attributes %s instead of %s" % (sorted(a.attrs), sorted(b.attrs)))]
        out = []
        for k in a.attrs:
            out += compare(c1, st1, a.attrs[k], c2, st2, b.attrs[k], points, "%s.%s" % (lab, k), depth + 1)
        return out
    if isinstance(a, Fmt) and isinstance(b, Fmt):
        return [(PROVED if a == b else UNDECIDED, lab, "formatted text")]
    if type(a) is type(b) and not isinstance(a, (Tup,)):
        return [(PROVED if a == b or isinstance(a, (Func, Cls, Ext)) else UNDECIDED, lab, "%s" % type(a).__name__)]
    simple = (E, Const, Arr, Tup, Dct)
    if isinstance(a, simple) and isinstance(b, simple) and not any(is_opaque(x) for x in (a, b) if isinstance(x, E)):
        return [(VIOLATED, lab, "%s instead of %s" % (type(a).__name__, type(b).__name__))]
    return [(UNDECIDED, lab, "%s / %s" % (type(a).__name__, type(b).__name__))]


def files(c, since):
    """what was written to files, printed: (kind, data)"""
    return [(x.kind, x.data) for x in c.I.events[since:] if x.kind.startswith("file.") or x.kind in ("open",)]


def exc(o):
    return sorted({r[1] for r in o.raises if not r[0]})


def history(e, tag, o1, c, first, e2=None):
    """call `tag` of e2 (default e) after the first call, against the same in a fresh process"""
    e2 = e2 or e
    rule = "second call as in a fresh process"
    lab = "%s after %s" % (e2.name, first)
    c.I.steps = 0
    st = o1.st.fork()
    c.st = st
    k1 = len(c.I.events)
    call = e2.build(c, tag)
    o2 = e2.perform(c, call, c.st)
    fresh = e2.case() if e2 is e else merged_case(e, e2)
    callf = e2.build(fresh, tag)
    of = e2.perform(fresh, callf, fresh.st)
    P = close_pairs(e.points(c, 16, e2.free) if e2 is not e else e.points(c, 16))
    if of.value is None or o2.value is None:
        a, b = exc(o2), exc(of)
        if (o2.value is None) != (of.value is None) and not any(opaque_atoms(r[0]) for r in list(o2.raises) + list(of.raises)):
            return [finding(VIOLATED, rule, e2.site(), "%s: %s instead of %s" % (lab, a or "a result", b or "a result"))]
        return [finding(PROVED if a == b else UNDECIDED, rule, e2.site(), "%s: %s / %s" % (lab, a, b))]
    out = []
    res = compare(c, o2.st, o2.value, fresh, of.st, of.value, P)
    if call.recv is not None:
        res += compare(c, o2.st, call.recv, fresh, of.st, callf.recv, P, "object")
    fa = [x for x in files(c, k1)]
    fb = [x for x in files(fresh, 0)]
    fa, fb = repr_events(c, fa), repr_events(fresh, fb)
    for x, y in itertools.zip_longest(fa, fb, fillvalue="(nothing)"):
        if x == y:
            continue
        dec = "opq" not in str(x) and "opq" not in str(y)
        res.append((VIOLATED if dec else UNDECIDED, "file content", "%s instead of %s" % (x, y)))
        break
    if e2.random:
        start = max([rngno(q) for l, v in leaves(c, o1.st, o1.value) for q in random_names(v) if rngno(q) is not None] or [-1])
        old = {q for l, v in leaves(c, o2.st, o2.value) for q in random_names(v) if rngno(q) is not None and rngno(q) <= start}
        if old:
            return [finding(VIOLATED, "no random value of an earlier call", e2.site(), "%s: contains %s" % (lab, sorted(old)[:3]))]
        return [finding(PROVED, "no random value of an earlier call", e2.site(), lab)]
    bad = [x for x in res if x[0] == VIOLATED]
    und = [x for x in res if x[0] == UNDECIDED]
    if bad:
        out.append(finding(VIOLATED, rule, e2.site(), "%s: %s: %s" % (lab, bad[0][1], bad[0][2])))
    elif und:
        out.append(finding(UNDECIDED, rule, e2.site(), "%s: %s: %s" % (lab, und[0][1], und[0][2])))
    else:
        out.append(finding(AGREED if any(x[0] == AGREED for x in res) else PROVED, rule, e2.site(), "%s: %d values equal" % (lab, len(res))))
    return out


def close_pairs(P):
    """points where the arguments of the two calls nearly coincide as well"""
    out = []
    a1, a2, r1, r2 = [alg.the_atom(x).id for x in (V1, V2, rate, rate2)]
    for k, p in enumerate(P):
        out.append(p)
        if k % 2 == 0 and a1 in p.indep and r1 in p.indep:
            out.append(respawn(p, {a2: p.indep[a1] + F(1, 8), r2: p.indep[r1] + F(1, 8)}))
    return out


def repr_events(c, evs):
    def rep(x):
        if isinstance(x, Fmt) or isinstance(x, (E, Cond)):
            return re.sub(r", \('serial', \d+\)", "", str(x))
        if isinstance(x, Const):
            return repr(x.v)
        if isinstance(x, (tuple, list)):
            return tuple(rep(y) for y in x)
        if isinstance(x, Ref):
            return rep(c.I.key(c.st, x))
        if isinstance(x, (str, int)):
            return x
        return type(x).__name__
    return [(k, rep(d)) for k, d in evs]


def merged_case(e, e2):
    sl = dict(e.slack)
    for k, v in e2.slack.items():
        if k in sl and not sl[k] == v:
            sl[k] = sl[k] + v
        else:
            sl[k] = v
    st = dict(e.stubs() if e.stubs else {})
    st.update(e2.stubs() if e2.stubs else {})
    return Case(sl, list(e.facts) + list(e2.facts), st, False, max(e.budget, e2.budget))


# ------------------------------------------------------------- readers of a cell


_mention = {}


def mentions():
    """function -> names mentioned in it and, transitively, in package functions it names"""
    if _mention:
        return _mention
    pkg = package()
    base = {}
    for mod, t in pkg.trees.items():
        for nd in ast.walk(t):
            if isinstance(nd, ast.FunctionDef):
                ns = set()
                for x in ast.walk(nd):
                    if isinstance(x, ast.Name):
                        ns.add(x.id)
                    elif isinstance(x, ast.Attribute):
                        ns.add(x.attr)
                base.setdefault(nd.name, set()).update(ns)
    for f in base:
        seen, todo = set(), [f]
        while todo:
            g = todo.pop()
            for n in base.get(g, ()):
                if n not in seen:
                    seen.add(n)
                    todo.append(n)
        _mention[f] = seen
    return _mention


def readers(e, names, tier):
    out, per = [], {}
    ms = mentions()
    for x in all_entries("quick"):
        f = x.func.split(".")[-1]
        if x.name == e.name or x.heavy or per.get(x.func, 0) >= (2 if x.func != e.func else 8):
            continue
        if x.func == e.func or names & ms.get(f, set()):
            per[x.func] = per.get(x.func, 0) + 1
            out.append(x)
    return out[:14 if tier == "quick" else 60]


# ------------------------------------------------------------- obligations


def reach(c, st, cids):
    seen, todo = set(), list(cids)
    while todo:
        k = todo.pop()
        if k in seen:
            continue
        seen.add(k)
        v = st.heap.get(k, c.I.modheap.get(k))
        todo += [r.cid for r in refs_in(v)]
    return seen


def refs_in(v, depth=0):
    if isinstance(v, Ref):
        return [v]
    if depth > 4:
        return []
    out = []
    if isinstance(v, Tup):
        for x in v.items:
            out += refs_in(x, depth + 1)
    elif isinstance(v, Obj):
        for x in v.attrs.values():
            out += refs_in(x, depth + 1)
    elif isinstance(v, Dct):
        for x in v.d.values():
            out += refs_in(x, depth + 1)
    elif isinstance(v, Arr) and v.kind in ("list", "tuple"):
        its = v.items()
        for x in its or ():
            out += refs_in(x, depth + 1)
    return out


def ob(e, tier):
    c = e.case()
    h0 = dict(c.st.heap)
    call = e.build(c, 1)
    own = set()
    o = e.perform(c, call, c.st)
    out = []
    if o.value is None:
        return [finding(UNDECIDED, "no hidden state changes", e.site(), "%s: no result: %s" % (e.name, raises_names(o)))], coverage_of(c.I)
    # atoms
    if not e.random:
        rnd, env, opaque = set(), set(), set()
        for lab, v in list(leaves(c, o.st, o.value)) + [("path", q) for q in o.path] if hasattr(o, "path") else leaves(c, o.st, o.value):
            rnd |= random_names(v)
            env |= env_names(v)
        if rnd:
            out.append(finding(VIOLATED, "no random value in the result", e.site(), "%s: %s" % (e.name, sorted(rnd)[:4])))
        elif env:
            out.append(finding(VIOLATED, "no clock or environment value in the result", e.site(), "%s: %s" % (e.name, sorted(env)[:4])))
        else:
            out.append(finding(PROVED, "no random, clock or environment value in the result", e.site(), e.name))
    # aliasing of module-level cells
    own = reach(c, o.st, [r.cid for _, r in call.watch if isinstance(r, Ref)])
    hid = reach(c, o.st, list(c.I.modheap))
    bad = []
    for r in refs_in(o.value):
        v = c.I.deref(o.st, r)
        if r.cid in hid and r.cid not in own and isinstance(v, (Arr, Dct)):
            if isinstance(v, Arr) and v.kind == "tuple":
                continue
            bad.append(c.I.cell_name(r.cid))
    out.append(finding(VIOLATED if bad else PROVED, "result is not a module-level object", e.site(),
                       "%s: %s" % (e.name, "the caller gets %s itself: changing it changes later results" % ", ".join(bad) if bad else "fresh cells")))
    # hidden changes
    ch = c.I.hidden_changes(h0, o.st.heap)
    names = sorted({n for _, n in ch})
    if not ch:
        out.append(finding(PROVED, "no hidden state changes", e.site(), "%s: module variables, defaults, class attributes unchanged" % e.name))
    else:
        short = set()
        for n in names:
            short |= {n.split(".")[-1].split("(")[0], n.split("(")[-1].rstrip(")").split(".")[-1]}
        if e.random:
            out += history(e, 2, o, c, e.name)
        else:
            for tag in e.tags:
                out += history(e, tag, o, c, e.name)
            t0 = time.time()
            for e2 in readers(e, short, tier):
                if any(f["verdict"] == VIOLATED for f in out) or time.time() - t0 > (40 if tier == "quick" else 300):
                    break
                try:
                    cm = merged_case(e, e2)
                    call1 = e.build(cm, 1)
                    om = e.perform(cm, call1, cm.st)
                    if om.value is None:
                        continue
                    for tag in (1, 2):
                        out += history(e, tag, om, cm, e.name, e2)
                except Missing:
                    raise
                except Exception as ex:
                    out.append(finding(UNDECIDED, "second call as in a fresh process", e2.site(), "%s after %s: %s" % (e2.name, e.name, ex)))
        for f in out[-40:]:
            if f["rule"].startswith("second") or f["rule"].startswith("no random value of"):
                f["detail"] += " (changed: %s)" % ", ".join(names)
    # a second object
    if call.recv is not None and isinstance(call.recv, Ref):
        out += second_object(e)
    return out, coverage_of(c.I)


def second_object(e):
    c = e.case()
    call1 = e.build(c, 1)
    o1 = e.perform(c, call1, c.st)
    if o1.value is None:
        return []
    P = e.points(c)
    c.st = o1.st
    st1 = o1.st.fork()
    call2 = e.build(c, 2)
    o2 = e.perform(c, call2, c.st)
    rule = "objects share no state"
    if o2.value is None:
        return [finding(UNDECIDED, rule, e.site(), "%s: second object fails: %s" % (e.name, raises_names(o2)))]
    c.orig = {}
    given = reach(c, o2.st, [r.cid for _, r in call2.watch if isinstance(r, Ref) and r is not call2.recv])
    if isinstance(call2.recv, Ref):
        given.discard(call2.recv.cid)
    snap = {k: v for k, v in snapshot(c, st1, [("first object", call1.recv)]).items() if k not in given}
    out = []
    for lab, r, why in changed(c, snap, o2.st, P):
        out.append(finding(r, rule, e.site(), "%s: work on a second object changes %s: %s" % (e.name, lab, why)))
    # mutable cells reachable from both objects
    a = reach(c, o2.st, [call1.recv.cid])
    b = reach(c, o2.st, [call2.recv.cid])
    both = [k for k in a & b if k not in given and isinstance(o2.st.heap.get(k, c.I.modheap.get(k)), (Arr, Dct, Obj))
            and not (isinstance(o2.st.heap.get(k, c.I.modheap.get(k)), Arr) and o2.st.heap.get(k, c.I.modheap.get(k)).kind == "tuple")]
    if not out:
        out.append(finding(PROVED, rule, e.site(), "%s: %d cells of the first object unchanged%s" % (
            e.name, len(snap), ", %d cells in common" % len(both) if both else "")))
    return out


def obligations(tier):
    es = sorted(all_entries(tier), key=lambda e: (e.budget > 400000, e.heavy))
    return [Ob(e.name, lambda e=e: ob(e, tier)) for e in es]
