"""Abstract interpreter over the Python syntax tree of the analysed package.

Forward dataflow with gated joins: at every merge point the two abstract states
are joined with ite(condition, a, b) value numbers; loops with symbolic trip
count are summarised once by solving the recurrences of the variables the body
modifies (scalar evolution); calls to functions of the package are analysed in
the calling context.  Nothing of the analysed code is imported or run.
"""
import ast
import os
import alg
from alg import (E, Cond, num, lift, ZERO, ONE, TRUE, FALSE, c_not, c_and, c_or, c_cmp, F, fn,
                 Limit)
from values import (Const, NONE, Tup, Ref, Arr, Dct, Obj, Func, Cls, Bound, Meth, Mod, Ext, Super,
                    Fmt, opq, vsubst, is_opaque)


class PathEnd(Exception):
    """the current path ends here (an exception is certainly raised)"""


class Unmodelled(Exception):
    """construct outside the analysed subset"""


class Budget(Exception):
    pass


class Scope(object):
    __slots__ = ("vars", "parent", "globals_", "nonlocals_")

    def __init__(self, vars, parent):
        self.vars = vars
        self.parent = parent
        self.globals_ = None
        self.nonlocals_ = None

    def lookup(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s.vars[name]
            s = s.parent
        return None

    def find(self, name):
        s = self
        while s is not None:
            if name in s.vars:
                return s
            s = s.parent
        return None

    def root(self):
        s = self
        while s.parent is not None:
            s = s.parent
        return s


class State(object):
    __slots__ = ("scope", "heap", "facts", "path")

    def __init__(self, scope, heap, facts, path):
        self.scope = scope
        self.heap = heap
        self.facts = facts
        self.path = path

    def fork(self):
        sc = Scope(dict(self.scope.vars), self.scope.parent)
        sc.globals_ = self.scope.globals_
        sc.nonlocals_ = self.scope.nonlocals_
        return State(sc, dict(self.heap), self.facts, self.path)

    def assume(self, c):
        if c == TRUE:
            return
        cs = c.args if c.op == "and" else (c,)
        self.facts = self.facts + tuple(cs)
        self.path = self.path + (c,)

    def become(self, o):
        self.scope = o.scope
        self.heap = o.heap
        self.facts = o.facts
        self.path = o.path


class Frame(object):
    def __init__(self, func, interp):
        self.func = func
        self.returns = []      # (path, value, heap)
        self.raises = []       # (path, exc, state, node)
        self.loop = None
        self.yields = []


class LoopCtl(object):
    def __init__(self):
        self.conts = []
        self.breaks = []


class Lit(ast.expr):
    """a value in expression position"""

    def __init__(self, v):
        ast.expr.__init__(self, lineno=0, col_offset=0)
        self.v = v


class Ctx(object):
    """assumptions of one analysis context: slack maps an atom id to an
    expression in non-negative atoms."""

    def __init__(self, slack=None, gaps=False, facts=()):
        self.slack = slack or {}
        self.gaps = gaps
        self.facts = tuple(facts)


class Event(object):
    __slots__ = ("kind", "data", "node", "func", "path", "mod")

    def __init__(self, kind, data, node, func, path, mod):
        self.kind = kind
        self.data = data
        self.node = node
        self.func = func
        self.path = path
        self.mod = mod


BUILTIN_NAMES = set("""len min max abs sum pow range enumerate zip print isinstance getattr setattr
hasattr str int float bool list tuple dict set sorted reversed map filter any all round super open
type next iter object Exception ValueError RuntimeError TypeError AttributeError KeyError IndexError
ImportError NotImplementedError AssertionError UserWarning RuntimeWarning Warning ZeroDivisionError
StopIteration FloatingPointError ArithmeticError OverflowError DeprecationWarning complex repr
divmod id hash callable slice vars dir format property staticmethod classmethod LookupError
NameError OSError IOError FutureWarning UnicodeError BaseException KeyboardInterrupt True False None
Ellipsis NotImplemented __name__ __file__ __doc__ bytes bytearray frozenset chr ord input eval exec
globals locals issubclass memoryview bin hex oct ascii delattr SyntaxWarning""".split())


FUNC_ATTRS = set(dir(lambda: 0))


class Partial(object):
    """a variable assigned only under a condition"""
    __slots__ = ("cond", "v")

    def __init__(self, cond, v):
        self.cond = cond
        self.v = v


def unpartial(v):
    if v is None:
        return FALSE, None
    if isinstance(v, Partial):
        return v.cond, v.v
    return TRUE, v


class Memo(object):
    """a function behind functools.lru_cache"""

    def __init__(self, func, cid):
        self.func = func
        self.cid = cid
        self.name = func.name
        self.mod = func.mod


class Package(object):
    """parsed sources of the analysed package"""

    def __init__(self, root):
        self.root = root
        self.pkg = os.path.join(root, "allantools")
        self.trees = {}
        self.files = {}
        self.src = {}
        for f in sorted(os.listdir(self.pkg)):
            if f.endswith(".py"):
                p = os.path.join(self.pkg, f)
                with open(p) as fp:
                    s = fp.read()
                name = "allantools" if f == "__init__.py" else "allantools." + f[:-3]
                self.trees[name] = ast.parse(s, p)
                self.files[name] = "allantools/" + f
                self.src[name] = s


class Interp(object):
    def __init__(self, pkg, ctx=None, stubs=None, budget=400000):
        import lib
        self.pkg = pkg
        self.ctx = ctx or Ctx()
        self.stubs = stubs or {}
        self.lib = lib
        self.modenvs = {}
        self.modheap = {}
        self.globcells = {}    # (id(owner), name) -> (cell, owner)
        self.globnames = {}    # cell -> description
        self.lru = set()       # cells of memo tables
        self.nextcid = 0
        self.events = []
        self.notes = []
        self.undecided = []
        self.depth = 0
        self.budget = budget
        self.steps = 0
        self.visited_funcs = set()
        self.curfunc = []
        self.quiet = 0
        self.store_lines = {}

    # ------------------------------------------------------------------ util
    def note(self, what, node=None):
        w = "%s%s" % (what, " at line %d" % node.lineno if node is not None and hasattr(node, "lineno") else "")
        if w not in self.notes:
            self.notes.append(w)

    def event(self, kind, data, node, st):
        if self.quiet:
            return
        f = self.curfunc[-1] if self.curfunc else None
        self.events.append(Event(kind, data, node, f.name if f else None, st.path, f.mod if f else None))

    def alloc(self, st, content):
        cid = self.nextcid
        self.nextcid += 1
        st.heap[cid] = content
        return Ref(cid)

    def deref(self, st, v):
        if isinstance(v, Ref):
            return st.heap.get(v.cid, self.modheap.get(v.cid))
        return v

    # ------------------------------------------------- state outside frames
    def glob_cell(self, owner, name, what, orig):
        """the heap cell of a module variable, function attribute or class
        attribute that some function assigns"""
        k = (id(owner), name)
        r = self.globcells.get(k)
        if r is None:
            cid = self.nextcid
            self.nextcid += 1
            r = self.globcells[k] = (cid, owner)
            self.globnames[cid] = what
            self.modheap[cid] = Obj(None, {} if orig is None else {"v": orig})
        return r[0]

    def glob_read(self, owner, name, st):
        """(tracked, value)"""
        r = self.globcells.get((id(owner), name))
        if r is None:
            return False, None
        c = st.heap.get(r[0], self.modheap.get(r[0]))
        return True, (c.attrs.get("v") if isinstance(c, Obj) else opq("global", name))

    def glob_write(self, owner, name, what, orig, v, st):
        cid = self.glob_cell(owner, name, what, orig)
        st.heap[cid] = Obj(None, {"v": v})

    def hidden_changes(self, before, after):
        """descriptions of the cells that exist outside any call (module level,
        default arguments, class attributes) and were changed"""
        out = []
        for cid, base in self.modheap.items():
            if cid in self.lru:
                continue
            a = before.get(cid, base)
            b = after.get(cid, base)
            if a is not b:
                out.append((cid, self.globnames.get(cid) or self.cell_name(cid)))
        return out

    def cell_name(self, cid):
        for m, sc in self.modenvs.items():
            for k, v in sc.vars.items():
                if isinstance(v, Ref) and v.cid == cid:
                    return "%s.%s" % (m, k)
                for f, nm in ([(v, k)] if isinstance(v, Func) else
                              [(x, k + "." + y) for y, x in v.ns.items()] if isinstance(v, Cls) else []):
                    if isinstance(f, Ref) and f.cid == cid:
                        return "%s.%s" % (m, nm)
                    if isinstance(f, Func):
                        names = [a.arg for a in f.node.args.posonlyargs + f.node.args.args]
                        for j, d in enumerate(f.defaults):
                            if isinstance(d, Ref) and d.cid == cid:
                                return "default of %s.%s(%s)" % (m, nm, names[len(names) - len(f.defaults) + j])
                        for kk, d in f.kwdefaults.items():
                            if isinstance(d, Ref) and d.cid == cid:
                                return "default of %s.%s(%s)" % (m, nm, kk)
        return "module-level object %d" % cid

    def arr(self, st, v):
        """view a value as a sequence, or None"""
        v = self.deref(st, v)
        if isinstance(v, Arr):
            return v
        if isinstance(v, Tup):
            return self.list_arr(v.items, "tuple")
        if isinstance(v, Dct):
            ks = list(v.d)
            if all(isinstance(k, (str, int)) for k in ks):
                return self.list_arr([Const(k) if isinstance(k, str) else num(k) for k in ks], "list")
        return None

    def list_arr(self, items, kind="list", dtype=None):
        items = list(items)
        if dtype is None:
            dtype = "i"
            for x in items:
                if isinstance(x, E):
                    c = x.const()
                    if c is None or c.denominator != 1:
                        dtype = "f"
                elif isinstance(x, Cond):
                    pass
                else:
                    dtype = "o"
        pieces = [(num(i), ONE, (lambda k, v=v: v)) for i, v in enumerate(items)]
        return Arr(kind, num(len(items)), None, dtype, pieces if pieces else None) if pieces else \
            Arr(kind, ZERO, lambda i: opq("empty"), dtype)

    def to_e(self, st, v):
        """numeric value number of a scalar value"""
        if isinstance(v, E):
            return v
        if isinstance(v, Cond):
            return alg.ite(v, ONE, ZERO)
        d = self.deref(st, v)
        if isinstance(d, Arr):
            c = d.n.const()
            if c == 1 and not d.is2d:
                x = d.at(ZERO)
                if isinstance(x, E):
                    return x
            return opq("arr2scalar", self.key(st, d))
        return opq("val", self.key(st, v))

    def key(self, st, v):
        """hashable identity of a value"""
        v = self.deref(st, v)
        if isinstance(v, (E, Cond, str, int)):
            return v
        if isinstance(v, Const):
            return ("const", repr(v.v))
        if isinstance(v, Arr):
            return self.arrkey(st, v)
        if isinstance(v, Tup):
            return tuple(["tup"] + [self.key(st, x) for x in v.items])
        if isinstance(v, Ext):
            return ("ext", v.path)
        if isinstance(v, Func):
            return ("func", v.name)
        if isinstance(v, Obj):
            return ("obj", v.cls.name if v.cls else "?")
        return (type(v).__name__,)

    def arrkey(self, st, a):
        if a._key is None:
            a._key = self._arrkey(st, a)
        return a._key

    def _arrkey(self, st, a):
        def el_e(v):
            if isinstance(v, E):
                return v
            if isinstance(v, Cond):
                return alg.ite(v, ONE, ZERO)
            dv = self.deref(st, v)
            if isinstance(dv, Arr):
                return alg.A("row", self.arrkey(st, dv))
            return opq("elem", self.key(st, v))
        ps = []
        pcs = a.pieces if a.pieces is not None else [(ZERO, a.n, a._get)]
        if len(pcs) > 64:
            pcs = pcs[:64]
        for s0, ln, g in pcs:
            s = alg.fresh("k", int=True, nonneg=True)
            ps.append((s0, ln, alg.close(el_e(g(s)), s)))
        return alg.PWKey(tuple(ps))

    # --------------------------------------------------------------- deciding
    def decide(self, c, st=None):
        """True / False / None"""
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        facts = (st.facts if st is not None else ()) + self.ctx.facts
        return self._decide(c, facts)

    def _decide(self, c, facts):
        if c.op == "const":
            return c.args[0]
        if c in facts:
            return True
        n = c_not(c)
        if n in facts:
            return False
        if c.op == "and":
            r = [self._decide(x, facts) for x in c.args]
            if any(x is False for x in r):
                return False
            if all(x is True for x in r):
                return True
            return None
        if c.op == "or":
            r = [self._decide(x, facts) for x in c.args]
            if any(x is True for x in r):
                return True
            if all(x is False for x in r):
                return False
            return None
        if c.op == "not":
            r = self._decide(c.args[0], facts)
            return None if r is None else (not r)
        if c.op in ("lt", "le"):
            e = c.args[0]
            if self.prove_le(e, c.op == "lt", facts):
                return True
            if self.prove_le(-e, c.op == "le", facts):
                return False
            return None
        if c.op == "eq":
            e = c.args[0]
            if self.prove_le(e, True, facts) or self.prove_le(-e, True, facts):
                return False
            ep = alg.subst(e, self.ctx.slack)
            if not ep.t:
                return True
            # integrality: a non-integer constant plus an integer is never 0
            k = F(e.t.get((), 0))
            if k.denominator != 1 and alg.is_int(e - num(k)):
                return False
            if self.prove_le(e, False, facts) and self.prove_le(-e, False, facts):
                return True
            return None
        return None

    def prove_le(self, e, strict, facts=(), depth=2):
        """e <= 0 (or < 0)"""
        if strict and alg.is_int(e):
            e = e + ONE
            strict = False
        if self._nonneg(-e, strict):
            return True
        if depth <= 0:
            return False
        fs = []
        for f in facts:
            if f.op in ("le", "lt"):
                fe = f.args[0]
                fs.append((fe, f.op == "lt"))
            elif f.op == "eq":
                fs.append((f.args[0], False))
                fs.append((-f.args[0], False))
        myvars = alg.free_syms(e)
        for fe, s in fs:
            if not (alg.free_syms(fe) & myvars):
                continue
            if s and alg.is_int(fe):
                fe = fe + ONE
                s = False
            if self._nonneg(fe - e, strict and not s):
                return True
        if depth >= 2 and len(fs) <= 24:
            for i in range(len(fs)):
                f1, s1 = fs[i]
                if not (alg.free_syms(f1) & myvars):
                    continue
                if s1 and alg.is_int(f1):
                    f1, s1 = f1 + ONE, False
                for j in range(i + 1, len(fs)):
                    f2, s2 = fs[j]
                    if s2 and alg.is_int(f2):
                        f2, s2 = f2 + ONE, False
                    if self._nonneg(f1 + f2 - e, strict and not (s1 or s2)):
                        return True
        return False

    def _nonneg(self, e, strict):
        try:
            e = alg.subst(e, self.ctx.slack)
            if self._nn(e, strict):
                return True
            # positive integers are 1 + a nonnegative integer
            mp = {}
            for m in e.t:
                for aid, x in m:
                    a = alg.atom(aid)
                    if aid not in mp and alg.atom_int(a) and self._atom_pos_strict(a):
                        mp[aid] = ONE + alg.sym("pm~%d" % aid, int=True, nonneg=True)
            if not mp:
                return False
            return self._nn(alg.subst_top(e, mp), strict)
        except Limit:
            return False

    def _nn(self, e, strict):
        if not e.t:
            return not strict
        if len(e.t) == 1:
            (m, c), = e.t.items()
            if not m:
                return c > 0 or (c == 0 and not strict)
        else:
            # strip a common positive factor so that the constant term shows
            g, cm = alg.content(e)
            keep = tuple((aid, x) for aid, x in cm if self._atom_pos_strict(alg.atom(aid)))
            if keep:
                e = alg.strip(e, F(1), keep)
        pos_const = False
        for m, c in e.t.items():
            if c < 0:
                return False
            allstrict = True
            for aid, x in m:
                a = alg.atom(aid)
                if self._atom_pos_strict(a):
                    continue
                allstrict = False
                if alg.atom_pos(a):
                    continue
                if isinstance(x, int) and x % 2 == 0:
                    continue
                return False
            if allstrict:
                pos_const = True
        return pos_const or not strict

    def _atom_pos_strict(self, a):
        if a.kind == "sym":
            return bool(a.props.get("pos"))
        if a.kind == "prime":
            return True
        if a.kind == "el" and isinstance(a.args[0], str):
            return a.args[0] in alg.POS_ARRAYS
        if a.kind == "fn":
            if a.args[0] in ("exp", "exp2", "posres"):
                return True
            if a.args[0] == "ceildiv":
                return self._nn(a.args[1], True) and self._nn(a.args[2], True)
            return False
        if a.kind == "base":
            return self._nonneg(a.args[0], True)
        return False

    # ----------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modenvs:
            return self.modenvs[name]
        sc = Scope({}, None)
        self.modenvs[name] = sc
        tree = self.pkg.trees.get(name)
        if tree is None:
            raise Unmodelled("module %s" % name)
        st = State(sc, self.modheap, (), ())
        sc.vars["__name__"] = Const(name)
        sc.vars["__file__"] = Const(self.pkg.files[name])
        self.quiet += 1
        self.curfunc.append(Func(None, sc, name, "<module>", [], {}))
        for s in tree.body:
            try:
                fr = Frame(None, self)
                st.heap = self.modheap
                alive = self.exec_stmt(s, st, fr)
                if st.heap is not self.modheap or (alive is not None and alive.heap is not self.modheap):
                    self.modheap = dict(self.modheap)
                    self.modheap.update((alive or st).heap)
                if alive is None:
                    break
                if alive is not st:
                    sc.vars.update(alive.scope.vars)
            except (PathEnd, Unmodelled, Limit) as ex:
                self.note("module %s: %s" % (name, ex), s)
        st.heap = self.modheap
        self.curfunc.pop()
        self.quiet -= 1
        return sc

    def mod_attr(self, name, attr):
        full = name + "." + attr
        env = self.module(name)
        if attr in env.vars:
            return env.vars[attr]
        if full in self.pkg.trees:
            return Mod(full)
        return None

    def function(self, modname, name):
        v = self.mod_attr(modname, name)
        if v is None:
            return None
        return v

    # -------------------------------------------------------------- statements
    def exec_block(self, stmts, st, fr):
        for s in stmts:
            st = self.exec_stmt(s, st, fr)
            if st is None:
                return None
        return st

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unmodelled("statement %s line %d" % (type(s).__name__, s.lineno))
        try:
            return m(s, st, fr)
        except PathEnd:
            return None

    def s_Pass(self, s, st, fr):
        return st

    def s_Global(self, s, st, fr):
        if st.scope.globals_ is None:
            st.scope.globals_ = set()
        st.scope.globals_ = set(st.scope.globals_) | set(s.names)
        return st

    def s_Nonlocal(self, s, st, fr):
        st = self.s_Global(s, st, fr)
        st.scope.nonlocals_ = frozenset(s.names) | (st.scope.nonlocals_ or frozenset())
        return st

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st, fr)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            top = a.name.split(".")[0]
            if top == "allantools":
                st.scope.vars[a.asname or top] = Mod(a.name if a.asname else top)
            else:
                st.scope.vars[a.asname or top] = Ext(a.name if a.asname else top)
        return st

    def s_ImportFrom(self, s, st, fr):
        cur = self.curfunc[-1].mod if self.curfunc else "allantools"
        if s.level or (s.module or "").split(".")[0] == "allantools":
            if s.level:
                base = "allantools" + ("." + s.module if s.module else "")
            else:
                base = s.module
            for a in s.names:
                full = base + "." + a.name
                if base in self.pkg.trees:
                    v = None
                    if full in self.pkg.trees and base == "allantools":
                        v = Mod(full)
                    else:
                        v = self.mod_attr(base, a.name)
                    if v is None and full in self.pkg.trees:
                        v = Mod(full)
                    if v is None:
                        self.event("missing-import", full, s, st)
                        v = opq("missing", full)
                    st.scope.vars[a.asname or a.name] = v
        else:
            for a in s.names:
                st.scope.vars[a.asname or a.name] = Ext(s.module + "." + a.name)
        return st

    def s_FunctionDef(self, s, st, fr):
        modname = self.curfunc[-1].mod if self.curfunc else "?"
        defaults = [self.eval(d, st, fr) for d in s.args.defaults]
        kwd = {}
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.eval(d, st, fr)
        f = Func(s, st.scope, modname, s.name, defaults, kwd)
        for dec in s.decorator_list:
            nm = ast.unparse(dec)
            if nm in ("staticmethod", "property", "classmethod"):
                continue
        v = f
        for dec in reversed(s.decorator_list):
            if ast.unparse(dec) in ("staticmethod", "property", "classmethod"):
                continue
            v = self.decorate(dec, v, st, fr)
        st.scope.vars[s.name] = v
        return st

    def decorate(self, dec, v, st, fr):
        """the value of a decorated function"""
        call = isinstance(dec, ast.Call)
        try:
            d = self.eval(dec.func if call else dec, st, fr)
        except PathEnd:
            self.note("decorator %s" % ast.unparse(dec), dec)
            return v
        if isinstance(d, Ext):
            tail = d.path.split(".")[-1]
            if d.path.startswith("functools.") and tail in ("lru_cache", "cache"):
                if isinstance(v, Func):
                    cid = self.nextcid
                    self.nextcid += 1
                    self.lru.add(cid)
                    self.modheap[cid] = Dct({})
                    st.heap[cid] = self.modheap[cid]
                    return Memo(v, cid)
            if d.path.startswith("functools.") and tail == "wraps":
                return v
            self.note("decorator %s" % ast.unparse(dec), dec)
            return v
        if isinstance(d, (Func, Cls, Bound, Memo)):
            if call:
                d = self.eval(dec, st, fr)
            return self.call(d, [v], {}, st, fr, dec)
        self.note("decorator %s" % ast.unparse(dec), dec)
        return v

    def s_ClassDef(self, s, st, fr):
        modname = self.curfunc[-1].mod if self.curfunc else "?"
        bases = [self.eval(b, st, fr) for b in s.bases]
        sc = Scope({}, st.scope)
        cst = State(sc, st.heap, st.facts, st.path)
        for x in s.body:
            cst2 = self.exec_stmt(x, cst, fr)
            if cst2 is None:
                break
            cst = cst2
        c = Cls(s.name, modname, bases, sc.vars, s)
        for v in sc.vars.values():
            if isinstance(v, Func):
                v.owner = c
                v.env = st.scope
        st.scope.vars[s.name] = c
        return st

    def s_Return(self, s, st, fr):
        v = self.eval(s.value, st, fr) if s.value is not None else NONE
        fr.returns.append((st.path, v, st.heap, s))
        return None

    def s_Raise(self, s, st, fr):
        name = "Exception"
        if s.exc is not None:
            x = s.exc
            if isinstance(x, ast.Call):
                x = x.func
            name = ast.unparse(x)
        self.raise_(name, st, fr, s)

    def raise_(self, name, st, fr, node, explicit=True):
        fr.raises.append((st.path, name, st.fork(), node, explicit))
        raise PathEnd()

    def s_Assert(self, s, st, fr):
        c = self.test(s.test, st, fr)
        d = self.decide(c, st)
        if d is False:
            self.event("assert-false", None, s, st)
            self.raise_("AssertionError", st, fr, s)
        if d is None:
            fr.raises.append((st.path + (c_not(c),), "AssertionError", st.fork(), s, True))
            st.assume(c)
            # assertions refine facts, they are not a branch of the function
            st.path = st.path[:-1]
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.scope.vars.pop(t.id, None)
        return st

    def s_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        tgt = s.target
        load = ast.copy_location(_as_load(tgt), tgt)
        cur = self.eval(load, st, fr)
        val = self.eval(s.value, st, fr)
        d = self.deref(st, cur)
        if isinstance(cur, Ref) and isinstance(d, Arr):
            if d.kind == "nd":
                new = self.binop(op, cur, val, st, s, fr)
                na = self.arr(st, new)
                if na is not None:
                    self.store_whole(cur, self.cast(na, d.dtype, st), st, s)
                    if not isinstance(tgt, ast.Name):
                        self.assign(tgt, cur, st, fr)
                    return st
            elif d.kind == "list" and op == "Add":
                o = self.arr(st, val)
                if o is not None:
                    self.write_cell(cur, self.concat([d, o], "list", st), st, s)
                    return st
        self.assign(tgt, self.binop(op, cur, val, st, s, fr), st, fr)
        return st

    def s_If(self, s, st, fr):
        c = self.test(s.test, st, fr)
        d = self.decide(c, st)
        if d is True:
            return self.exec_block(s.body, st, fr)
        if d is False:
            return self.exec_block(s.orelse, st, fr)
        self.undecided.append(c)
        s1 = st.fork()
        s1.assume(c)
        r1 = self.exec_block(s.body, s1, fr)
        s2 = st.fork()
        s2.assume(c_not(c))
        r2 = self.exec_block(s.orelse, s2, fr)
        return self.join(c, r1, r2, st)

    def join(self, c, r1, r2, st):
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        out = st
        heap = {}
        for cid in set(r1.heap) | set(r2.heap):
            a, b = r1.heap.get(cid), r2.heap.get(cid)
            if a is None or b is None:
                base = self.modheap.get(cid)
                a = base if a is None else a
                b = base if b is None else b
            if a is None:
                heap[cid] = b
            elif b is None:
                heap[cid] = a
            elif a is b:
                heap[cid] = a
            else:
                heap[cid] = None
        out_state = State(st.scope, heap, st.facts, st.path)
        for cid in [k for k, v in heap.items() if v is None]:
            heap[cid] = self.merge_content(c, r1.heap.get(cid, self.modheap.get(cid)),
                                           r2.heap.get(cid, self.modheap.get(cid)), r1, r2, out_state)
        vars_ = {}
        for k in set(r1.scope.vars) | set(r2.scope.vars):
            a, b = r1.scope.vars.get(k), r2.scope.vars.get(k)
            if a is None or b is None or isinstance(a, Partial) or isinstance(b, Partial):
                # assigned on some of the paths only
                ca, va = unpartial(a)
                cb, vb = unpartial(b)
                cc = c_or(c_and(c, ca), c_and(c_not(c), cb))
                v = va if vb is None else vb if va is None else self.merge(c, va, vb, r1, r2, out_state)
                vars_[k] = v if cc == TRUE else Partial(cc, v)
            else:
                vars_[k] = self.merge(c, a, b, r1, r2, out_state)
        sc = Scope(vars_, st.scope.parent)
        sc.globals_ = st.scope.globals_ or r1.scope.globals_ or r2.scope.globals_
        sc.nonlocals_ = st.scope.nonlocals_ or r1.scope.nonlocals_ or r2.scope.nonlocals_
        # facts common to both arms survive
        f2 = set(r2.facts)
        facts = tuple(f for f in r1.facts if f in f2)
        out_state.facts = facts
        out_state.scope = sc
        return out_state

    def merge(self, c, a, b, r1, r2, out):
        if a is b:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref) and a.cid == b.cid:
            return a
        if isinstance(a, E) and isinstance(b, E):
            return alg.ite(c, a, b)
        if isinstance(a, Cond) and isinstance(b, Cond):
            return c_or(c_and(c, a), c_and(c_not(c), b))
        if isinstance(a, (E, Cond)) and isinstance(b, (E, Cond)):
            return alg.ite(c, self.to_e(out, a), self.to_e(out, b))
        if isinstance(a, Const) and a == b:
            return a
        if isinstance(a, Ext) and a == b:
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge(c, x, y, r1, r2, out) for x, y in zip(a.items, b.items)])
        da = self.deref(r1, a) if r1 else a
        db = self.deref(r2, b) if r2 else b
        if isinstance(da, Arr) and isinstance(db, Arr):
            return self.alloc(out, self.merge_content(c, da, db, r1, r2, out))
        if isinstance(da, Arr) and isinstance(db, Tup):
            return self.alloc(out, self.merge_content(c, da, self.list_arr(db.items), r1, r2, out))
        if isinstance(da, Tup) and isinstance(db, Arr):
            return self.alloc(out, self.merge_content(c, self.list_arr(da.items), db, r1, r2, out))
        if isinstance(a, (Func, Cls, Mod)) and a is b:
            return a
        return opq("phi", c, self.key(r1 or out, a), self.key(r2 or out, b))

    def merge_content(self, c, a, b, r1, r2, out):
        if a is b:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            n = a.n if a.n == b.n else alg.ite(c, a.n, b.n)
            ga, gb = a, b
            dt = a.dtype if a.dtype == b.dtype else "?"
            kind = a.kind if a.kind == b.kind else "?"
            dec = lambda q: self.decide(q, out)
            fa, fb = out.facts + (c,), out.facts + (c_not(c),)

            def get(i):
                x = ga.at(i, lambda q: self._decide(q, fa + self.ctx.facts))
                y = gb.at(i, lambda q: self._decide(q, fb + self.ctx.facts))
                return self.merge(c, x, y, r1, r2, out)
            pieces = None
            if a.pieces is not None and b.pieces is not None and len(a.pieces) == len(b.pieces) and all(
                    p[0] == q[0] and p[1] == q[1] for p, q in zip(a.pieces, b.pieces)):
                pieces = [(p[0], p[1], (lambda i, g1=p[2], g2=q[2]: self.merge(c, g1(i), g2(i), r1, r2, out)))
                          for p, q in zip(a.pieces, b.pieces)]
                return Arr(kind, n, None, dt, pieces)
            return Arr(kind, n, get, dt, None, None, a.is2d or b.is2d)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls:
            at = {}
            for k in set(a.attrs) | set(b.attrs):
                x, y = a.attrs.get(k), b.attrs.get(k)
                at[k] = self.merge(c, x, y, r1, r2, out) if x is not None and y is not None else (x if x is not None else y)
            return Obj(a.cls, at)
        if isinstance(a, Dct) and isinstance(b, Dct):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                x, y = a.d.get(k), b.d.get(k)
                if x is None:
                    x = self.alias_entry(k, a, r1, r2, out)
                elif y is None:
                    y = self.alias_entry(k, b, r1, r2, out)
                d[k] = self.merge(c, x, y, r1, r2, out) if x is not None and y is not None else (x if x is not None else y)
            return Dct(d)
        return opq("phicell", c)

    def alias_entry(self, k, d, r1, r2, out):
        """entry k of a dictionary that holds it, if at all, under another symbolic key"""
        v = None
        for x in d.d:
            q = self.key_eq(k, x)
            if q is None or q == FALSE:
                continue
            v = d.d[x] if v is None else self.merge(q, d.d[x], v, r1, r2, out)
        return v

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def s_Try(self, s, st, fr):
        base_path = st.path
        inner = Frame(fr.func, self)
        inner.returns = fr.returns
        inner.loop = fr.loop
        inner.raises = []
        st0 = st.fork()
        r = self.exec_block(s.body, st0, inner)
        if r is not None and s.orelse:
            r = self.exec_block(s.orelse, r, fr)
        out = r
        for (path, exc, rst, node, explicit) in inner.raises:
            handled = None
            for h in s.handlers:
                names = []
                if h.type is None:
                    names = ["*"]
                elif isinstance(h.type, ast.Tuple):
                    names = [ast.unparse(x) for x in h.type.elts]
                else:
                    names = [ast.unparse(h.type)]
                if "*" in names or exc in names or "Exception" in names or "BaseException" in names:
                    handled = h
                    break
            if handled is None:
                fr.raises.append((path, exc, rst, node, explicit))
                continue
            hs = rst
            # the handler continues with the local scope at the raise point
            # only when the raise happened in this frame
            hst = State(st0.scope if rst.scope.parent is not st.scope.parent and False else rst.scope,
                        rst.heap, rst.facts, rst.path)
            if not self._same_frame(rst.scope, st.scope):
                hst.scope = st.fork().scope
            if handled.name:
                hst.scope.vars[handled.name] = opq("exc", exc)
            hr = self.exec_block(handled.body, hst, fr)
            c = c_and(*path[len(base_path):]) if len(path) > len(base_path) else TRUE
            if out is None:
                out = hr
            elif hr is not None:
                if c == TRUE:
                    c = Cond("opq", "raised", exc)
                out = self.join(c, hr, out, st)
        if s.finalbody:
            if out is None:
                return None if self.exec_block(s.finalbody, st.fork(), fr) is None else None
            return self.exec_block(s.finalbody, out, fr)
        return out

    def _same_frame(self, a, b):
        return a.parent is b.parent and a.vars.get("$frame") == b.vars.get("$frame")

    def s_Continue(self, s, st, fr):
        fr.loop.conts.append(st)
        return None

    def s_Break(self, s, st, fr):
        fr.loop.breaks.append(st)
        return None

    # ------------------------------------------------------------------- loops
    def s_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        if hasattr(it, "drain"):
            xs = it.drain(st, fr)
            if xs is not None:
                return self.unrolled(s, st, fr, xs)
        a = self.arr(st, it)
        if a is None:
            d = self.deref(st, it)
            if isinstance(d, Tup):
                a = self.list_arr(d.items)
            else:
                k = self.key(st, it)
                n = fn("len", opq("iter", k))
                a = Arr("list", n, lambda i: opq("item", k, i), "?")
        items = None
        c = a.n.const()
        if c is not None and c <= 64:
            items = a.items()
        if items is not None:
            return self.unrolled(s, st, fr, items)

        def bind(ss, i):
            self.assign(s.target, a.at(i, lambda q: self.decide(q, ss)), ss, fr)
        if a.pieces is not None and 1 < len(a.pieces) <= 4 and not fr_has_break(s.body):
            return self.piece_loop(s, st, fr, a)
        r = self.symbolic_loop(s, st, fr, a.n, bind)
        if r is not None and s.orelse:
            r = self.exec_block(s.orelse, r, fr)
        return r

    def piece_loop(self, s, st, fr, a):
        for st0, ln, g in a.pieces:
            c = ln.const()
            if c is not None and c <= 64:
                r = self.unrolled_nofor(s, st, fr, [g(num(i)) for i in range(int(c))])
            else:
                r = self.symbolic_loop(s, st, fr, ln,
                                       lambda ss, i, g=g: self.assign(s.target, g(i), ss, fr))
            if r is None:
                return None
            st = r
        if s.orelse:
            st = self.exec_block(s.orelse, st, fr)
        return st

    def unrolled_nofor(self, s, st, fr, items):
        t = ast.For(target=s.target, iter=s.iter, body=s.body, orelse=[], lineno=s.lineno, col_offset=0)
        return self.unrolled(t, st, fr, items)

    def unrolled(self, s, st, fr, items):
        old = fr.loop
        broken = []
        base = st.path
        for v in items:
            ctl = LoopCtl()
            fr.loop = ctl
            try:
                self.assign(s.target, v, st, fr)
                r = self.exec_block(s.body, st, fr)
            finally:
                fr.loop = old
            r = self.join_many(r, ctl.conts, base, st)
            broken.extend(ctl.breaks)
            if r is None:
                st = None
                break
            st = r
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st, fr)
        return self.join_many(st, broken, base, st)

    def join_many(self, r, others, base, st):
        for o in reversed(others):
            if r is None:
                r = o
                continue
            c = c_and(*o.path[len(base):]) if len(o.path) > len(base) else TRUE
            if c == TRUE:
                r = o
            else:
                tmp = State(r.scope, r.heap, r.facts, base)
                r = self.join(c, o, r, tmp)
        return r

    def s_While(self, s, st, fr):
        # concrete unrolling while the condition is decided
        for _ in range(200):
            c = self.test(s.test, st, fr)
            d = self.decide(c, st)
            if d is False:
                return self.exec_block(s.orelse, st, fr) if s.orelse else st
            if d is not True:
                break
            probe = len(self.events)
            if isinstance(s.test, ast.Constant):
                return self.while_true(s, st, fr)
            if self._is_symbolic_while(s, st, fr):
                break
            old, ctl = fr.loop, LoopCtl()
            fr.loop = ctl
            base = st.path
            r = self.exec_block(s.body, st, fr)
            fr.loop = old
            r = self.join_many(r, ctl.conts, base, st)
            if ctl.breaks:
                if r is None:
                    return self.join_many(None, ctl.breaks, base, st)
                return self.havoc_loop(s, st, fr, assigned_names(s.body))
            if r is None:
                return None
            st = r
        else:
            return self.havoc_loop(s, st, fr, assigned_names(s.body))
        return self.symbolic_while(s, st, fr)

    def while_true(self, s, st, fr, limit=12):
        """while True with returns/breaks under conditions on concrete state:
        unrolled to a bound, remaining behaviour is opaque"""
        old = fr.loop
        base = st.path
        broken = []
        for _ in range(limit if getattr(fr, "gen", None) is None else 130):
            ctl = LoopCtl()
            fr.loop = ctl
            try:
                r = self.exec_block(s.body, st, fr)
            finally:
                fr.loop = old
            if r is None and not ctl.conts:
                return self.join_many(None, broken + ctl.breaks, base, st)
            r = self.join_many(r, ctl.conts, base, st)
            broken.extend(ctl.breaks)
            st = r
        self.note("while True not exhausted", s)
        r = self.havoc_loop(s, st, fr, assigned_names(s.body))
        return self.join_many(r, broken, base, st)

    def _is_symbolic_while(self, s, st, fr):
        """condition true now, but with a symbolic bound (while i < n)"""
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            try:
                a = self.eval(t.left, st.fork(), fr)
                b = self.eval(t.comparators[0], st.fork(), fr)
            except PathEnd:
                return False
            if isinstance(a, E) and isinstance(b, E) and (a - b).const() is None:
                return True
        return False

    def symbolic_while(self, s, st, fr):
        t = s.test
        names = assigned_names(s.body)
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return self.havoc_loop(s, st, fr, names)
        op = type(t.ops[0]).__name__
        if op not in ("Lt", "LtE", "Gt", "GtE", "NotEq"):
            return self.havoc_loop(s, st, fr, names)

        def diff(ss):
            a = self.eval(t.left, ss, fr)
            b = self.eval(t.comparators[0], ss, fr)
            if not (isinstance(a, E) and isinstance(b, E)):
                return None
            return (b - a) if op in ("Lt", "LtE", "NotEq") else (a - b)
        d0 = diff(st.fork())
        if d0 is None:
            return self.havoc_loop(s, st, fr, names)
        # one abstract iteration to find the step of the distance to the bound
        self.quiet += 1
        probe = st.fork()
        sub = {}
        for nme in names:
            v = probe.scope.vars.get(nme)
            if isinstance(v, E):
                sub[nme] = alg.fresh(nme, int=alg.is_int(v))
                probe.scope.vars[nme] = sub[nme]
        din = diff(probe)
        ctl = LoopCtl()
        old, fr.loop = fr.loop, ctl
        fr2 = Frame(fr.func, self)
        fr2.loop = ctl
        try:
            r = self.exec_block(s.body, probe, fr2)
        except PathEnd:
            r = None
        fr.loop = old
        self.quiet -= 1
        if r is None or ctl.breaks or ctl.conts or din is None:
            return self.havoc_loop(s, st, fr, names)
        dout = diff(r)
        step = (din - dout).const() if dout is not None else None
        if step is None or step <= 0:
            return self.havoc_loop(s, st, fr, names)
        if op in ("LtE", "GtE"):
            L = alg.floor_(d0 / num(step)) + ONE
        else:
            L = alg.ceil_(d0 / num(step))
        if self.decide(c_cmp("lt", L), st) is not False:
            if self.decide(c_cmp("le", L), st) is True:
                return st
        return self.symbolic_loop(s, st, fr, L, lambda ss, i: None)

    def havoc_loop(self, s, st, fr, names):
        self.note("loop not summarised", s)
        for cid, cont in self.modheap.items():
            st.heap.setdefault(cid, cont)
        out = st.fork()
        tag = alg._symcount[0]
        for nme in names:
            if nme in out.scope.vars or True:
                out.scope.vars[nme] = opq("loop", nme, tag)
        # body once, for its effects on cells
        self.quiet += 1
        ctl = LoopCtl()
        old, fr.loop = fr.loop, ctl
        pre = dict(out.heap)
        nret = len(fr.returns)
        try:
            r = self.exec_block(s.body, out.fork(), fr)
        except (PathEnd, Limit):
            r = None
        fr.loop = old
        self.quiet -= 1
        for k in range(nret, len(fr.returns)):
            p, v, h, nd = fr.returns[k]
            fr.returns[k] = (st.path + (Cond("opq", "loopret", tag),), self.taint(v, tag), h, nd)
        for x in [r] + ctl.breaks + ctl.conts:
            if x is None:
                continue
            for cid, cont in x.heap.items():
                if cid in pre and pre[cid] is not cont:
                    out.heap[cid] = self.havoc_content(pre[cid], tag)
        return out

    def taint(self, v, tag):
        if isinstance(v, E):
            return opq("loopval", v, tag)
        if isinstance(v, Tup):
            return Tup([self.taint(x, tag) for x in v.items])
        return v

    def havoc_content(self, c, tag, samelen=True):
        if isinstance(c, Arr):
            t = alg._symcount[0]
            alg._symcount[0] += 1
            n = c.n if c.kind == "nd" else opq("len", tag, t)
            return Arr(c.kind, n, lambda i: opq("cell", t, i), c.dtype, None, None, c.is2d)
        if isinstance(c, Obj):
            return Obj(c.cls, {k: (opq("attr", k, tag) if isinstance(v, E) else v) for k, v in c.attrs.items()})
        return c

    def symbolic_loop(self, s, st, fr, L, bind):
        """summarise a counted loop of L iterations"""
        body = s.body
        names = assigned_names(body)
        if isinstance(s, ast.For):
            names = names | assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(value=0))])
        d = self.decide(c_cmp("le", L), st)
        if d is True:
            return st
        for cid, cont in self.modheap.items():
            st.heap.setdefault(cid, cont)
        # --- dry run: which cells change, does the first iteration differ?
        i0 = alg.fresh("i", int=True, nonneg=True)
        iid = alg.the_atom(i0).id
        self.quiet += 1
        und0 = len(self.undecided)
        probe = st.fork()
        probe.facts = probe.facts + (c_cmp("lt", i0 - L),)
        ctl = LoopCtl()
        old, fr.loop = fr.loop, ctl
        nr, nx = len(fr.returns), len(fr.raises)
        try:
            bind(probe, i0)
            r = self.exec_block(body, probe, fr)
        except PathEnd:
            r = None
        finally:
            fr.loop = old
            self.quiet -= 1
        had_ret = len(fr.returns) > nr
        del fr.returns[nr:]
        del fr.raises[nx:]
        seen = self.undecided[und0:]
        del self.undecided[und0:]
        if ctl.breaks:
            return self.break_loop(s, st, fr, L, bind, names)
        if had_ret:
            return self.havoc_loop(s, st, fr, names)
        if r is None and not ctl.conts:
            # the body always raises
            if L.const() is None:
                rr = st.fork()
                return self.havoc_loop(s, rr, fr, names)
        peel = 0
        for c in seen:
            for cc in flat_conds(c):
                if cc.op in ("lt", "le", "eq") and alg.free_syms(cc.args[0]) == frozenset([iid]):
                    e = cc.args[0]
                    li = alg._lin_index(e, i0)
                    if li is not None and li[0] != 0:
                        root = -li[1].const() / li[0]
                        if 0 <= root < 3:
                            k = int(root) + (1 if cc.op != "lt" or root != int(root) else (1 if root == 0 and li[0] < 0 else 0))
                            peel = max(peel, k if k > 0 else (1 if root >= 0 and cc.op == "eq" else k))
        if peel:
            ok = self.decide(c_cmp("lt", num(peel) - L), st)
            ok = True if ok is None else ok
            cur = st
            for k in range(peel):
                dd = self.decide(c_cmp("lt", num(k) - L), cur)
                if dd is False:
                    return cur
                ctl = LoopCtl()
                old, fr.loop = fr.loop, ctl
                base = cur.path
                try:
                    bind(cur, num(k))
                    r = self.exec_block(body, cur, fr)
                except PathEnd:
                    r = None
                finally:
                    fr.loop = old
                cur = self.join_many(r, ctl.conts, base, cur)
                if cur is None:
                    return None
            return self.symbolic_loop2(s, cur, fr, L - num(peel), lambda ss, i: bind(ss, i + num(peel)), names, st.heap)
        return self.symbolic_loop2(s, st, fr, L, bind, names, st.heap)

    def changed_cells(self, pre, states):
        out = set()
        for x in states:
            if x is None:
                continue
            for cid, cont in x.heap.items():
                if cid in pre and pre[cid] is not cont:
                    out.add(cid)
        return out

    def run_once(self, s, st, fr, bind, i):
        ctl = LoopCtl()
        old, fr.loop = fr.loop, ctl
        base = st.path
        try:
            try:
                bind(st, i)
                r = self.exec_block(s.body, st, fr)
            except PathEnd:
                r = None
        finally:
            fr.loop = old
        return r, ctl, base

    def symbolic_loop2(self, s, st, fr, L, bind, names, preheap):
        if self.decide(c_cmp("le", L), st) is True:
            return st
        # which existing cells does the body change (one dry iteration with
        # scalars already generalised)
        i = alg.fresh("i", int=True, nonneg=True)
        iid = alg.the_atom(i).id

        def gen_state(cells):
            x = st.fork()
            x.facts = x.facts + (c_cmp("lt", i - L),)
            ins = {}
            for nme in names:
                v = x.scope.vars.get(nme)
                if v is None:
                    continue
                if isinstance(v, Partial):
                    v = v.v
                    x.scope.vars[nme] = v
                if isinstance(v, E):
                    p = {"int": True} if alg.is_int(v) else {}
                    if alg.e_nonneg(v):
                        p["nonneg"] = True
                    q = alg.fresh(nme, **p)
                    ins[("v", nme)] = (q, v)
                    x.scope.vars[nme] = q
                elif isinstance(v, Ref):
                    pass
                elif isinstance(v, (Func, Cls, Mod, Ext)):
                    pass
                else:
                    x.scope.vars[nme] = opq("loopin", nme, iid)
            cin = {}
            for cid in cells:
                c = x.heap[cid]
                if isinstance(c, Arr):
                    nm = "cell~%d~%d" % (cid, iid)
                    if cells[cid] == "grow":
                        q = alg.fresh("len", int=True, nonneg=True)
                        a = Arr(c.kind, q, (lambda k, nm=nm: alg.el(nm, k)), c.dtype)
                    else:
                        a = Arr(c.kind, c.n, (lambda k, nm=nm: alg.el(nm, k)), c.dtype, None, None, c.is2d)
                        q = None
                    x.heap[cid] = a
                    cin[cid] = (a, nm, q, c)
                elif isinstance(c, Obj):
                    at = {}
                    for k, v in c.attrs.items():
                        if isinstance(v, E) and k in cells[cid]:
                            p = {"int": True} if alg.is_int(v) else {}
                            q = alg.fresh(k, **p)
                            ins[("a", cid, k)] = (q, v)
                            at[k] = q
                        else:
                            at[k] = v
                    x.heap[cid] = Obj(c.cls, at)
                elif isinstance(c, Dct):
                    pass
            return x, ins, cin

        self.quiet += 1
        nr, nx = len(fr.returns), len(fr.raises)
        cells = {}
        ok = True
        for rnd in range(3):
            x, ins, cin = gen_state(cells)
            r, ctl, base = self.run_once(s, x, fr, bind, i)
            ch = self.changed_cells(st.heap, [r] + ctl.conts) if r is not None or ctl.conts else set()
            rr = self.join_many(r, ctl.conts, base, st)
            new = {}
            for cid in ch:
                c0 = st.heap[cid]
                if isinstance(c0, Arr):
                    c1 = rr.heap[cid]
                    grow = isinstance(c1, Arr) and not (c1.n == c0.n) and c0.kind == "list"
                    # against the generalised input
                    if cid in cin:
                        a_in = cin[cid][0]
                        if isinstance(c1, Arr) and c1 is a_in:
                            pass
                        grow = cells[cid] == "grow" or (isinstance(c1, Arr) and not (c1.n == a_in.n))
                    new[cid] = "grow" if grow else "store"
                elif isinstance(c0, Obj):
                    c1 = rr.heap[cid]
                    new[cid] = frozenset(k for k in c1.attrs if k not in c0.attrs or c1.attrs[k] is not c0.attrs[k]
                                         and not (isinstance(c1.attrs[k], Ref) and c1.attrs[k] == c0.attrs[k]))
                else:
                    new[cid] = "other"
            if new == cells:
                break
            cells = new
        self.quiet -= 1
        del fr.returns[nr:]
        del fr.raises[nx:]
        # --- the real abstract iteration
        x, ins, cin = gen_state(cells)
        nr = len(fr.returns)
        r, ctl, base = self.run_once(s, x, fr, bind, i)
        if len(fr.returns) > nr or ctl.breaks:
            del fr.returns[nr:]
            return self.havoc_loop(s, st, fr, names)
        rr = self.join_many(r, ctl.conts, base, st)
        if rr is None:
            return self.havoc_loop(s, st, fr, names)
        outs = {}
        for k in ins:
            if k[0] == "v":
                outs[k] = rr.scope.vars.get(k[1])
            else:
                outs[k] = rr.heap[k[1]].attrs.get(k[2])
        solved = {}        # key -> (value at entry of iteration i, final value)
        sub = {}
        insid = {k: alg.the_atom(v[0]).id for k, v in ins.items()}
        growth = {}
        for cid, (a, nm, q, c0) in cin.items():
            if q is not None:
                c1 = rr.heap[cid]
                growth[cid] = (c1.n - q).const() if isinstance(c1, Arr) else None
                if growth[cid] is not None:
                    sub[alg.the_atom(q).id] = c0.n + num(growth[cid]) * i
        cellnames = {nm: cid for cid, (a, nm, q, c0) in cin.items()}
        pending = set(ins)
        progress = True
        while pending and progress:
            progress = False
            for k in sorted(pending, key=str):
                q, init = ins[k]
                o = outs[k]
                if not isinstance(o, E):
                    continue
                try:
                    o2 = alg.subst(o, sub) if sub else o
                    others = {insid[j] for j in pending if j != k}
                    fs = alg.free_syms(o2)
                    if mentions_cells(o2, cellnames):
                        continue
                    if o2 == q:
                        solved[k] = (init, init)
                    elif insid[k] not in fs and not (fs & others):
                        # assigned afresh in each iteration
                        prev = alg.subst(o2, {iid: i - ONE})
                        first = alg.ite(c_cmp("eq", i), init, prev) if not alg.equal(
                            alg.subst(o2, {iid: -ONE}), init) else prev
                        solved[k] = (first, alg.subst(o2, {iid: L - ONE}))
                    else:
                        g = pull_gate(o2, q)
                        if g is None:
                            xt = running_extremum(o2, q)
                            if xt is None or (alg.free_syms(xt[1]) & others):
                                continue
                            kind, e = xt
                            kk = alg.fresh("k", int=True, nonneg=True)
                            ek = alg.subst(e, {iid: kk})
                            two = alg.max2 if kind == "mx" else alg.min2

                            def upto(n):
                                v = two(init, alg.extremum(kind, ek, kk, n))
                                if self.decide(c_cmp("lt", -n), st) is True:
                                    return v
                                return alg.ite(c_cmp("lt", -n), v, init)
                            solved[k] = (upto(i), upto(L))
                            sub[insid[k]] = solved[k][0]
                            pending.discard(k)
                            progress = True
                            continue
                        gs = alg.free_syms(g)
                        if insid[k] in gs or (gs & others):
                            continue
                        kk = alg.fresh("k", int=True, nonneg=True)
                        gk = alg.subst(g, {iid: kk})
                        solved[k] = (init + alg.summation(gk, kk, ZERO, i),
                                     init + alg.summation(gk, kk, ZERO, L))
                except Limit as ex:
                    self.note("loop recurrence too large: %s" % ex, s)
                    continue
                sub[insid[k]] = solved[k][0]
                pending.discard(k)
                progress = True
        tag = iid
        for k in pending:
            q, init = ins[k]
            sub[insid[k]] = opq("carried", str(k[-1]), i, tag)
        out = st.fork()
        self_cell = {}
        try:
            self._finish_cells(rr, cin, cells, sub, cellnames, i, iid, L, growth, out, st, s, tag)
        except Limit as ex:
            for cid in cin:
                out.heap[cid] = self.havoc_content(st.heap[cid], tag)
        for cid, c1 in rr.heap.items():
            if cid not in st.heap:
                # cells created by the body: keep for references stored in arrays
                out.heap[cid] = c1 if not isinstance(c1, Arr) else c1
        for k in ins:
            if k[0] == "v":
                out.scope.vars[k[1]] = solved[k][1] if k in solved else opq("carried-out", k[1], tag)
            else:
                o = out.heap[k[1]]
                at = dict(o.attrs)
                at[k[2]] = solved[k][1] if k in solved else opq("carried-out", k[2], tag)
                out.heap[k[1]] = Obj(o.cls, at)
        # other names assigned in the body
        last = dict(sub)
        for nme in names:
            if ("v", nme) in ins:
                continue
            v = rr.scope.vars.get(nme)
            if v is None:
                continue
            if isinstance(v, Partial):
                v = v.v
            dv = self.deref(rr, v)
            try:
                if isinstance(v, (E, Cond)) or isinstance(dv, (Arr, Tup)):
                    w = vsubst(vsubst(dv if isinstance(dv, (Arr, Tup)) else v, sub), {iid: L - ONE})
                    if isinstance(w, Arr):
                        w = self.alloc(out, w)
                    pre = st.scope.vars.get(nme)
                    out.scope.vars[nme] = w
                else:
                    out.scope.vars[nme] = v
                if nme not in st.scope.vars:
                    ran = c_cmp("lt", -L)
                    if self.decide(ran, st) is not True:
                        out.scope.vars[nme] = Partial(ran, out.scope.vars[nme])
            except Limit:
                out.scope.vars[nme] = opq("last", nme, tag)
        return out

    def settled(self, v, rr, st, tag):
        """a value stored by a loop body, without references to cells that the body itself created: the content of
        such a cell depends on the iteration"""
        if isinstance(v, Ref) and v.cid not in st.heap:
            d = rr.heap.get(v.cid)
            if isinstance(d, (Arr, Tup)):
                return self.settled(d, rr, st, tag)
            return opq("loop-object", v.cid, tag)
        if isinstance(v, Tup):
            return Tup([self.settled(x, rr, st, tag) for x in v.items])
        if isinstance(v, Arr) and v.dtype == "o":
            f = lambda g: (lambda j: self.settled(g(j), rr, st, tag))
            return v.with_(_get=f(v._get) if v._get else None, _key=None,
                           pieces=None if v.pieces is None else [(a, b, f(g)) for a, b, g in v.pieces])
        return v

    def _finish_cells(self, rr, cin, cells, sub, cellnames, i, iid, L, growth, out, st, s, tag):
        for cid, (a, nm, q, c0) in cin.items():
            c1 = rr.heap[cid]
            if c1 is a:
                continue
            if not isinstance(c1, Arr):
                out.heap[cid] = self.havoc_content(c0, tag)
                continue
            if q is not None:
                g = growth[cid]
                if g is None or g <= 0 or c1.pieces is None or len(c1.pieces) < 2:
                    out.heap[cid] = self.havoc_content(c0, tag)
                    continue
                # appended g values per iteration
                adds = []
                for k in range(int(g)):
                    v = self.settled(c1.at(q + num(k), lambda z: self.decide(z, rr)), rr, st, tag)
                    adds.append(vsubst(v, sub) if v is not None else None)
                if any(v is None for v in adds) or any(isinstance(v, E) and mentions_cells(v, {nm: 0}) for v in adds):
                    out.heap[cid] = self.havoc_content(c0, tag)
                    continue
                if g == 1:
                    v0 = adds[0]
                    grown = Arr(c0.kind, L, (lambda j, v0=v0: vsubst(v0, {iid: j})), "f" if isinstance(v0, E) else "o")
                else:
                    gg = int(g)

                    def getm(j, adds=adds, gg=gg):
                        c = j.const()
                        if c is not None:
                            return vsubst(adds[int(c) % gg], {iid: num(int(c) // gg)})
                        rr_ = opq("interleave", j)
                        r0 = alg.mod_(j, num(gg))
                        b = alg.floordiv_(j, num(gg))
                        outv = vsubst(adds[-1], {iid: b})
                        if isinstance(outv, E):
                            for t in range(gg - 2, -1, -1):
                                outv = alg.ite(c_cmp("eq", r0 - num(t)), vsubst(adds[t], {iid: b}), outv)
                            return outv
                        return rr_
                    grown = Arr(c0.kind, L * num(gg), getm, "f")
                out.heap[cid] = self.concat([c0, grown], c0.kind, st) if c0.n != ZERO else grown
                continue
            ups = updates_of(c1, a)
            if ups is None:
                out.heap[cid] = self.havoc_content(c0, tag)
                continue
            res = c0
            good = True
            rows = []
            for (idx, val) in ups:
                idx = vsubst(idx, sub)
                li = alg._lin_index(idx, i) if isinstance(idx, E) else None
                if li is None or li[0] not in (1, -1):
                    good = False
                    break
                rows.append((idx, li, val))
            if not good or len({r[0] for r in rows}) != len(rows):
                # repeated stores to the same index: the last one counts
                dd = {}
                for rrow in rows:
                    dd[rrow[0]] = rrow
                rows = list(dd.values()) if good else None
            if rows is None:
                out.heap[cid] = self.havoc_content(c0, tag)
                continue
            for idx, li, val in rows:
                val = self.settled(val, rr, st, tag)
                v = vsubst(val, sub) if not isinstance(val, (Ref,)) else val
                if isinstance(v, E):
                    # reads of the same element before the store see the old value
                    mp = {}
                    bad = False
                    for aid in cell_atoms(v, {nm}):
                        ai = alg.subst(alg.atom(aid).args[1], sub)
                        if ai == idx:
                            mp[aid] = self.as_e(c0.at(idx, lambda z: self.decide(z, st)))
                        else:
                            bad = True
                    for aid in cell_atoms(v, set(cellnames) - {nm}):
                        other = cellnames[alg.atom(aid).args[0]]
                        ai = alg.subst(alg.atom(aid).args[1], sub)
                        oc = cin[other]
                        oups = updates_of(rr.heap[other], oc[0])
                        # another array read at an index only this iteration writes
                        same = oups is not None and all(vsubst(u[0], sub) == ai for u in oups)
                        if same:
                            mp[aid] = self.as_e(oc[3].at(ai, lambda z: self.decide(z, st)))
                        else:
                            bad = True
                    if bad:
                        v = opq("carried", nm, i, tag)
                    elif mp:
                        v = alg.subst(v, mp)
                c_, r_ = li

                def mk(v=v, c_=c_, r_=r_):
                    def get(j):
                        return vsubst(v, {iid: (j - r_) if c_ == 1 else (r_ - j)})
                    return get
                g = mk()
                lo = r_ if c_ == 1 else r_ - L + ONE
                if lo == ZERO and L == res.n:
                    res = Arr(res.kind, res.n, g, res.dtype, None, None, isinstance(v, Arr))
                else:
                    res = self.write_slice(res, lo, lo + L, Arr("nd", L, lambda j, g=g, lo=lo: g(j + lo), "f"), st)
                    if res is None:
                        res = self.havoc_content(c0, tag)
                        break
            out.heap[cid] = res

    def as_e(self, v):
        if isinstance(v, E):
            return v
        if isinstance(v, Cond):
            return alg.ite(v, ONE, ZERO)
        return opq("cellval")

    def break_loop(self, s, st, fr, L, bind, names):
        """loops left early: search loops; modified state is opaque"""
        return self.havoc_loop(s, st, fr, names)

    # ----------------------------------------------------------- assignments
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if st.scope.globals_ and t.id in st.scope.globals_ and st.scope.parent is not None:
                self.event("global-write", t.id, t, st)
                if st.scope.nonlocals_ and t.id in st.scope.nonlocals_:
                    own = st.scope.parent.find(t.id)
                    if own is None:
                        raise Unmodelled("nonlocal %s" % t.id)
                else:
                    own = st.scope.root()
                mod = self.curfunc[-1].mod if self.curfunc else "?"
                self.glob_write(own, t.id, "variable %s of %s" % (t.id, mod), own.vars.get(t.id), v, st)
                return
            st.scope.vars[t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            d = self.deref(st, v)
            if isinstance(d, Tup):
                vals = d.items
            else:
                a = self.arr(st, v)
                vals = None
                if a is not None:
                    vals = a.items()
                if vals is None:
                    if a is not None:
                        vals = [a.at(num(k)) for k in range(len(t.elts))]
                    else:
                        k0 = self.key(st, v)
                        vals = [opq("unpack", k0, num(k)) for k in range(len(t.elts))]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                vals = list(vals)
                mid = vals[k:len(vals) - after]
                vals = vals[:k] + [self.alloc(st, self.list_arr(mid))] + vals[len(vals) - after:]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                elts = t.elts
            if len(vals) != len(elts):
                self.event("unpack-mismatch", (len(elts), len(vals)), t, st)
                self.raise_("ValueError", st, fr, t, explicit=False)
            for x, y in zip(elts, vals):
                self.assign(x, y, st, fr)
            return
        if isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            d = self.deref(st, o)
            if isinstance(d, Obj) and isinstance(o, Ref):
                at = dict(d.attrs)
                at[t.attr] = v
                st.heap[o.cid] = Obj(d.cls, at)
                self.event("attr-store", (o, t.attr, v), t, st)
            elif isinstance(o, (Func, Bound, Memo)):
                f = o.func if isinstance(o, (Bound, Memo)) else o
                self.glob_write(f, "attr." + t.attr, "attribute %s of function %s.%s" % (t.attr, f.mod, f.name), None, v, st)
            elif isinstance(o, Cls):
                self.glob_write(o, t.attr, "attribute %s of class %s.%s" % (t.attr, o.mod, o.name), o.ns.get(t.attr), v, st)
            elif isinstance(o, Mod):
                env = self.module(o.name)
                self.glob_write(env, t.attr, "variable %s of %s" % (t.attr, o.name), env.vars.get(t.attr), v, st)
            else:
                self.event("ext-attr-store", (o, t.attr, v), t, st)
            return
        if isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            d = self.deref(st, o)
            if isinstance(d, Dct) and isinstance(o, Ref):
                k = self.eval(t.slice, st, fr)
                dd = dict(d.d)
                dd[self.dkey(st, k)[0]] = v
                st.heap[o.cid] = Dct(dd)
                self.event("dict-store", (o, k, v), t, st)
                return
            if isinstance(d, Arr) and isinstance(o, Ref):
                self.store_sub(o, d, t.slice, v, st, fr, t)
                return
            self.event("opaque-store", None, t, st)
            return
        if isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
            return
        raise Unmodelled("assignment target %s" % type(t).__name__)

    def write_cell(self, ref, content, st, node):
        st.heap[ref.cid] = content
        self.store_lines.setdefault(ref.cid, []).append(
            (self.curfunc[-1].name if self.curfunc else "?", getattr(node, "lineno", 0)))

    def store_whole(self, ref, arr, st, node):
        old = st.heap.get(ref.cid)
        self.event("array-store", (ref, None, arr), node, st)
        view = old.view if isinstance(old, Arr) else None
        self.write_cell(ref, arr.with_(view=view), st, node)
        self.propagate_view(ref, view, ZERO, arr, st, node)

    def propagate_view(self, ref, view, lo, arr, st, node):
        """write through a basic-slice view to its base array"""
        if view is None or view[0] != "slice":
            return
        _, base, off, step = view
        b = self.deref(st, base)
        if not isinstance(b, Arr):
            return
        if step == ONE:
            nb = self.write_slice(b, off + lo, off + lo + arr.n, arr, st)
        elif lo == ZERO and not b.is2d and step.const() is not None and step.const() != 0:
            def get(i, b=b, arr=arr, off=off, step=step):
                q = (i - off) * (1 / step.const())
                hit = c_and(c_cmp("eq", alg.mod_(i - off, num(abs(step.const())))), c_cmp("le", -q), c_cmp("lt", q - arr.n))
                d = self.decide(hit)
                if d is False:
                    return b.at(i)
                return arr.at(q) if d is True else self.join_val(hit, arr.at(q), b.at(i), st)
            nb = Arr(b.kind, b.n, get, b.dtype)
        else:
            nb = None
        if nb is None:
            nb = self.havoc_content(b, alg._symcount[0])
        nb = nb.with_(view=b.view)
        self.write_cell(base, nb, st, node)
        self.propagate_view(base, b.view, off + lo, arr, st, node)

    def cast(self, a, dtype, st):
        """conversion on storing into an array of the given element type"""
        if dtype == a.dtype or dtype in ("f", "c", "?", "o"):
            return a.with_(dtype=dtype)
        if dtype == "i":
            if a.pieces is not None:
                return a.with_(pieces=[(s, l, (lambda i, g=g: self.cast_val(g(i), "i", st))) for s, l, g in a.pieces],
                               dtype="i")
            g = a._get
            return a.with_(_get=lambda i: self.cast_val(g(i), "i", st), dtype="i", _key=None)
        return a.with_(dtype=dtype)

    def cast_val(self, v, dtype, st):
        if dtype == "i" and isinstance(v, E):
            return alg.trunc_(v)
        return v

    def store_sub(self, ref, d, sl, v, st, fr, node):
        self.event("array-store", (ref, sl, v), node, st)
        if isinstance(sl, ast.Slice):
            lo, hi, step = self.slice_bounds(d, sl, st, fr)
            n = self.slice_len(lo, hi, step, d, st)
            va = self.arr(st, v)
            if va is None:
                sv = v
                va = Arr("nd", n, lambda i: sv, d.dtype)
            else:
                diff = (va.n - n).const()
                if diff is None:
                    diff = alg.subst(va.n - n, self.ctx.slack).const()
                if diff is not None and diff != 0 and va.n != ONE and d.kind == "nd":
                    self.event("shape-mismatch", (va.n, n), node, st)
                    self.raise_("ValueError", st, fr, node, explicit=False)
                if diff is None and d.kind == "nd":
                    self.event("shape-unproved", (va.n, n), node, st)
            va = self.cast(va, d.dtype, st)
            if step == ONE:
                new = self.write_slice(d, lo, lo + n, va, st)
            else:
                new = None
            if new is None:
                new = self.havoc_content(d, alg._symcount[0])
                alg._symcount[0] += 1
            self.write_cell(ref, new.with_(view=d.view), st, node)
            self.propagate_view(ref, d.view, lo, va, st, node)
            return
        k = self.eval(sl, st, fr)
        if isinstance(k, Tup) or isinstance(self.deref(st, k), Tup):
            self.write_cell(ref, self.havoc_content(d, alg._symcount[0]), st, node)
            alg._symcount[0] += 1
            return
        ka = self.arr(st, k)
        if ka is not None:
            # boolean mask store: a[mask] = scalar or array
            if ka.dtype == "b":
                va = self.arr(st, v)
                if va is None:
                    dd = d
                    sv = self.cast_val(v, d.dtype, st)

                    def get(i, dd=dd, ka=ka, sv=sv):
                        m = ka.at(i)
                        return self.merge(m if isinstance(m, Cond) else self.truth(m, st), sv, dd.at(i), None, None, st)
                    self.write_cell(ref, Arr(d.kind, d.n, get, d.dtype, None, d.view), st, node)
                    return
            self.write_cell(ref, self.havoc_content(d, alg._symcount[0]), st, node)
            alg._symcount[0] += 1
            return
        idx = self.to_e(st, k)
        if self.decide(c_cmp("lt", idx), st) is True:
            idx = d.n + idx
        val = self.cast_val(v, d.dtype, st)
        dv = self.deref(st, val)
        if isinstance(dv, Arr) and d.kind == "nd":
            val = dv
        self.write_cell(ref, update(d, idx, val, self, st), st, node)
        if isinstance(val, E):
            self.propagate_view(ref, d.view, idx, Arr("nd", ONE, lambda i: val, d.dtype), st, node)

    def write_slice(self, d, lo, hi, va, st):
        """piecewise update of [lo, hi) with va; None if positions cannot be ordered"""
        pcs = d.pieces if d.pieces is not None else [(ZERO, d.n, d._get)]
        out = []
        dec = lambda c: self.decide(c, st)
        if lo == ZERO and hi == d.n:
            vp = va.pieces if va.pieces is not None else [(ZERO, va.n, va._get)]
            return Arr(d.kind, d.n, va._get if va.pieces is None else None, d.dtype,
                       va.pieces, d.view, d.is2d)
        done = False
        vparts = [(lo + s0, l0, g0) for s0, l0, g0 in (va.pieces if va.pieces is not None else [(ZERO, va.n, va._get)])]
        for s0, ln, g in pcs:
            e0 = s0 + ln
            if dec(c_cmp("le", e0 - lo)) is True:
                out.append((s0, ln, g))
                continue
            if dec(c_cmp("le", hi - s0)) is True:
                if not done:
                    out.extend(vparts)
                    done = True
                out.append((s0, ln, g))
                continue
            # overlap: left remainder
            if s0 != lo:
                if dec(c_cmp("le", s0 - lo)) is True:
                    left = lo - s0
                    out.append((s0, left, g))
                elif dec(c_cmp("le", lo - s0)) is True:
                    pass
                else:
                    return None
            if not done:
                out.extend(vparts)
                done = True
            if e0 != hi:
                if dec(c_cmp("le", hi - e0)) is True:
                    off = hi - s0
                    out.append((hi, e0 - hi, (lambda i, g=g, off=off: g(i + off))))
                elif dec(c_cmp("le", e0 - hi)) is True:
                    pass
                else:
                    return None
        if not done:
            out.extend(vparts)
        out = [p for p in out if p[1].t]
        return Arr(d.kind, d.n, None, d.dtype, self.join_pieces(out, st), d.view, d.is2d)

    def join_pieces(self, pcs, st):
        """merge neighbours that are restrictions of one expression"""
        out = []
        for p in pcs:
            if out:
                s0, l0, g0 = out[-1]
                s1, l1, g1 = p
                if self.same_fn(g0, s0, l0, g1, s1, l1):
                    if l1 == ONE and l0 != ONE:
                        out[-1] = (s0, l0 + l1, g0)
                    else:
                        d = s1 - s0
                        out[-1] = (s0, l0 + l1, (lambda i, g1=g1, d=d: g1(i - d)))
                    continue
            out.append(p)
        return out

    def same_fn(self, g0, s0, l0, g1, s1, l1):
        try:
            if l0 == ONE and l1 != ONE:
                a = g0(ZERO)
                b = g1(s0 - s1)
            elif l1 == ONE and l0 != ONE:
                a = g1(ZERO)
                b = g0(s1 - s0)
            elif l0 == ONE and l1 == ONE:
                return False
            else:
                k = alg.fresh("k", int=True)
                a = g0(k - s0)
                b = g1(k - s1)
            return isinstance(a, E) and isinstance(b, E) and alg.equal(a, b)
        except Exception:
            return False

    def concat(self, arrs, kind, st):
        pcs = []
        off = ZERO
        dt = None
        for a in arrs:
            if not a.n.t:
                continue
            for s0, ln, g in (a.pieces if a.pieces is not None else [(ZERO, a.n, a._get)]):
                pcs.append((off + s0, ln, g))
            off = off + a.n
            dt = a.dtype if dt in (None, a.dtype) else ("f" if {dt, a.dtype} <= {"f", "i", "b"} else "?")
        pcs = self.join_pieces(pcs, st)
        if not pcs:
            return Arr(kind, ZERO, lambda i: opq("empty"), "f")
        if len(pcs) == 1:
            return Arr(kind, off, pcs[0][2], dt)
        return Arr(kind, off, None, dt, pcs)

    # ------------------------------------------------------------ subscripts
    def slice_bounds(self, d, sl, st, fr):
        step = self.eval(sl.step, st, fr) if sl.step is not None else ONE
        if isinstance(step, Const) and step.v is None:
            step = ONE
        step = self.to_e(st, step)
        neg = step.const() is not None and step.const() < 0
        lo = self.eval(sl.lower, st, fr) if sl.lower is not None else None
        hi = self.eval(sl.upper, st, fr) if sl.upper is not None else None
        if isinstance(lo, Const) and lo.v is None:
            lo = None
        if isinstance(hi, Const) and hi.v is None:
            hi = None
        n = d.n
        if neg:
            lo_ = n - ONE if lo is None else self.norm_index(self.to_e(st, lo), n, st, True)
            hi_ = -ONE if hi is None else self.norm_index(self.to_e(st, hi), n, st, True)
            return lo_, hi_, step
        lo_ = ZERO if lo is None else self.norm_index(self.to_e(st, lo), n, st)
        hi_ = n if hi is None else self.norm_index(self.to_e(st, hi), n, st)
        return lo_, hi_, step

    def norm_index(self, e, n, st, neg=False):
        if self.decide(c_cmp("lt", e), st) is True:
            e = n + e
            if self.decide(c_cmp("lt", e), st) is True:
                e = ZERO
            return e
        if self.decide(c_cmp("lt", n - e), st) is True:
            return n
        return e

    def slice_len(self, lo, hi, step, d, st):
        c = step.const()
        if c == -1:
            n = lo - hi
            return n
        if lo == ZERO and hi == d.n:
            span = d.n
        else:
            # clip
            le_hi = self.decide(c_cmp("le", hi - d.n), st)
            le = self.decide(c_cmp("le", lo - hi), st)
            if le_hi is None or le is None:
                if le_hi is False:
                    hi = d.n
                if le is False:
                    return ZERO
                self.note("slice bounds not proved: [%r:%r] of %r" % (lo, hi, d.n))
                if le is None and (le_hi is True or hi == d.n):
                    span = alg.max0_(hi - lo)
                else:
                    span = alg.fn("sllen", lo, hi, d.n)
            else:
                if le_hi is False:
                    hi = d.n
                if le is False:
                    return ZERO
                span = hi - lo
        if step == ONE:
            return span
        return alg.ceildiv_(span, step)

    def dkey(self, st, v):
        """(hashable key, all its parts are constants)"""
        v = self.deref(st, v)
        if isinstance(v, Const):
            return v.v, True
        if isinstance(v, E):
            return v, v.const() is not None
        if isinstance(v, Cond):
            if v.op in ("true", "false"):
                return v.op == "true", True
            return v, False
        if isinstance(v, Arr) and v.kind == "tuple" and v.items() is not None:
            v = Tup(v.items())
        if isinstance(v, Tup):
            ks = [self.dkey(st, x) for x in v.items]
            return ("tup",) + tuple(k for k, _ in ks), all(c for _, c in ks)
        return v, False

    def unkey(self, k):
        if isinstance(k, tuple) and k[:1] == ("tup",):
            return Tup([self.unkey(x) for x in k[1:]])
        if isinstance(k, (E, Cond)):
            return k
        if isinstance(k, (str, bytes, bool, float)) or k is None:
            return Const(k)
        return num(k) if isinstance(k, int) else k

    def dict_get(self, d, k, st, fr, node, default=None):
        kk, const = self.dkey(st, k)
        if kk in d.d:
            return d.d[kk]
        allc = all(not isinstance(x, (E, Cond)) or isinstance(x, E) and x.const() is not None for x in d.d)
        if const and allc:
            # True and 1 are the same key
            if isinstance(kk, bool) and num(int(kk)) in d.d:
                return d.d[num(int(kk))]
            if isinstance(kk, E) and kk in (ZERO, ONE) and (kk == ONE) in d.d:
                return d.d[kk == ONE]
            if default is not None:
                return default
            self.event("key-error", kk, node, st)
            self.raise_("KeyError", st, fr, node, explicit=False)
        if isinstance(kk, Cond) and kk.op != "opq":
            t, f = d.d.get(True, d.d.get(ONE)), d.d.get(False, d.d.get(ZERO))
            if t is not None and f is not None:
                r = self.join_val(kk, t, f, st)
                if r is not None:
                    return r
        qs = [(self.key_eq(kk, x), x) for x in d.d]
        if qs and all(q is not None for q, _ in qs):
            hits = [(q, x) for q, x in qs if q != FALSE and self.decide(q, st) is not False]
            if default is None and hits and self.decide(c_or(*[q for q, _ in hits]), st) is True:
                v = d.d[hits[-1][1]]
                for q, x in hits[:-1][::-1]:
                    v = self.merge(q, d.d[x], v, st, st, st)
                return v
            if default is not None:
                v = default
                for q, x in hits:
                    v = self.merge(q, d.d[x], v, st, st, st)
                return v
        return opq("dictget", self.key(st, k))

    def key_eq(self, a, b):
        """condition under which two dictionary keys are equal, None if unknown"""
        if isinstance(a, bool):
            a = num(int(a))
        if isinstance(b, bool):
            b = num(int(b))
        if isinstance(a, E) and isinstance(b, E):
            return c_cmp("eq", a - b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return FALSE
            qs = [self.key_eq(x, y) for x, y in zip(a, b)]
            if any(q == FALSE for q in qs if q is not None):
                return FALSE
            return None if any(q is None for q in qs) else c_and(*qs)
        if isinstance(a, (Cond,)) or isinstance(b, (Cond,)) or is_opaque_key(a) or is_opaque_key(b):
            return TRUE if a == b else None
        simple = (str, bytes, float, type(None), Ext)
        if isinstance(a, simple) and isinstance(b, simple):
            return TRUE if a == b else FALSE
        if isinstance(a, simple + (E, tuple)) and isinstance(b, simple + (E, tuple)):
            return FALSE
        return TRUE if a is b else None

    def join_val(self, c, a, b, st):
        da, db = self.deref(st, a), self.deref(st, b)
        if isinstance(da, E) and isinstance(db, E):
            return alg.ite(c, da, db)
        return None

    def subscript(self, o, sl, st, fr, node):
        d = self.deref(st, o)
        if isinstance(d, Dct):
            return self.dict_get(d, self.eval(sl, st, fr), st, fr, node)
        if isinstance(d, Tup) and not isinstance(sl, ast.Slice):
            k = self.to_e(st, self.eval(sl, st, fr))
            c = k.const()
            if c is not None:
                if -len(d.items) <= c < len(d.items):
                    return d.items[int(c)]
                self.event("index-error", c, node, st)
                self.raise_("IndexError", st, fr, node, explicit=False)
            d = self.list_arr(d.items, "tuple")
        if isinstance(d, Tup):
            d = self.list_arr(d.items, "tuple")
        if isinstance(d, Const) and isinstance(d.v, str):
            if isinstance(sl, ast.Slice):
                vals = [self.eval(x, st, fr) if x is not None else None for x in (sl.lower, sl.upper, sl.step)]
                try:
                    ints = [int(self.to_e(st, x).const()) if x is not None else None for x in vals]
                    return Const(d.v[slice(*ints)])
                except Exception:
                    return opq("strslice")
            k = self.to_e(st, self.eval(sl, st, fr)).const()
            if k is not None and -len(d.v) <= k < len(d.v):
                return Const(d.v[int(k)])
            return opq("stridx")
        if isinstance(d, Arr):
            if isinstance(sl, ast.Slice):
                return self.do_slice(o, d, sl, st, fr)
            if isinstance(sl, ast.Tuple):
                return self.sub_tuple(o, d, sl, st, fr, node)
            k = self.eval(sl, st, fr)
            if isinstance(k, Tup) and len(k.items) == 4 and isinstance(k.items[0], Const) and k.items[0].v == "slice":
                # a slice object
                q = [None if isinstance(v, Const) and v.v is None else Lit(v) for v in k.items[1:]]
                return self.do_slice(o, d, ast.Slice(*q), st, fr)
            ka = self.arr(st, k)
            if ka is not None:
                return self.fancy(d, ka, st, node)
            if isinstance(k, Const) and k.v is None:
                return self.alloc(st, Arr("nd", ONE, lambda i: d, d.dtype, is2d=True))
            idx = self.to_e(st, k)
            neg = self.decide(c_cmp("lt", idx), st)
            if neg is True:
                idx = d.n + idx
            c = idx.const()
            nc = d.n.const()
            if c is not None and nc is not None and not (0 <= c < nc):
                self.event("index-error", c, node, st)
                self.raise_("IndexError", st, fr, node, explicit=False)
            v = d.at(idx, lambda q: self.decide(q, st))
            if v is None:
                # pieces of non-numeric values
                return opq("elem", self.key(st, d), idx)
            if isinstance(v, Arr):
                return self.alloc(st, v)
            return v
        if isinstance(o, E) or isinstance(d, E):
            e = d if isinstance(d, E) else o
            if isinstance(sl, ast.Slice):
                return opq("slice", e, ast.unparse(sl), *[self.to_e(st, self.eval(x, st, fr)) for x in (sl.lower, sl.upper, sl.step) if x is not None])
            return opq("getitem", e, self.key(st, self.eval(sl, st, fr)))
        if isinstance(sl, ast.Slice):
            return opq("slice?", self.key(st, o))
        return opq("getitem?", self.key(st, o), self.key(st, self.eval(sl, st, fr)))

    def do_slice(self, o, d, sl, st, fr):
        lo, hi, step = self.slice_bounds(d, sl, st, fr)
        n = self.slice_len(lo, hi, step, d, st)
        facts = st.facts + self.ctx.facts
        dec = lambda q: self._decide(q, facts)
        items = None
        if d.kind in ("list", "tuple") and d.n.const() is not None and d.pieces is not None:
            cl, ch, cs = lo.const(), hi.const(), step.const()
            if cl is not None and ch is not None and cs is not None:
                its = d.items()
                if cs < 0:
                    its = its[int(cl):(int(ch) if ch >= 0 else None):int(cs)]
                else:
                    its = its[int(cl):int(ch):int(cs)]
                return self.alloc(st, self.list_arr(its, d.kind))
        kind = d.kind if d.kind != "range" else "range"
        view = None
        if d.kind == "nd" and isinstance(o, Ref) and step.const() is not None:
            view = ("slice", o, lo, step)
        pieces = None
        if d.pieces is not None and step == ONE:
            pieces = self.slice_pieces(d, lo, n, dec)
        if d.pieces is not None and step.const() == -1 and lo == d.n - ONE and hi == -ONE:
            pieces = []
            for s0, l0, g in reversed(d.pieces):
                pieces.append((d.n - s0 - l0, l0, (lambda i, g=g, l0=l0: g(l0 - ONE - i))))
        if pieces is not None:
            if len(pieces) == 1:
                return self.alloc(st, Arr(kind, n, pieces[0][2], d.dtype, None, view, d.is2d))
            return self.alloc(st, Arr(kind, n, None, d.dtype, pieces, view, d.is2d))

        def get(i):
            return d.at(lo + step * i, dec)
        return self.alloc(st, Arr(kind, n, get, d.dtype, None, view, d.is2d))

    def slice_pieces(self, d, lo, n, dec):
        """restriction of a piecewise array to [lo, lo+n) when the cut points
        can be ordered"""
        hi = lo + n
        out = []
        for s0, l0, g in d.pieces:
            e0 = s0 + l0
            if dec(c_cmp("le", e0 - lo)) is True or dec(c_cmp("le", hi - s0)) is True:
                continue
            if dec(c_cmp("le", s0 - lo)) is True:
                a = lo
            elif dec(c_cmp("le", lo - s0)) is True:
                a = s0
            else:
                return None
            if dec(c_cmp("le", hi - e0)) is True:
                b = hi
            elif dec(c_cmp("le", e0 - hi)) is True:
                b = e0
            else:
                return None
            off = a - s0
            out.append((a - lo, b - a, (lambda i, g=g, off=off: g(i + off))))
        out = [p for p in out if p[1].t]
        return out or None

    def sub_tuple(self, o, d, sl, st, fr, node):
        el = sl.elts
        if len(el) == 2 and isinstance(el[0], ast.Slice) and el[0].lower is None and el[0].upper is None and el[0].step is None:
            if isinstance(el[1], ast.Slice):
                def get2(i):
                    row = self.deref(st, d.at(i))
                    if isinstance(row, Arr):
                        return self.deref(st, self.do_slice(self.alloc(st, row), row, el[1], st, fr))
                    return opq("row")
                return self.alloc(st, Arr("nd", d.n, get2, d.dtype, is2d=True))
            k = self.eval(el[1], st, fr)
            if isinstance(k, E):
                def get(i):
                    row = self.deref(st, d.at(i))
                    if isinstance(row, Arr):
                        kk = k
                        if self.decide(c_cmp("lt", kk), st) is True:
                            kk = row.n + kk
                        return row.at(kk)
                    return opq("row")
                return self.alloc(st, Arr("nd", d.n, get, d.dtype))
            if isinstance(k, Const) and k.v is None:
                return self.alloc(st, Arr("nd", d.n, lambda i: Arr("nd", ONE, lambda j: d.at(i), d.dtype), d.dtype, is2d=True))
        if len(el) == 2 and isinstance(el[0], ast.Constant) and el[0].value is None and isinstance(el[1], ast.Slice):
            return self.alloc(st, Arr("nd", ONE, lambda i: d, d.dtype, is2d=True))
        if len(el) == 2 and not any(isinstance(x, ast.Slice) for x in el):
            a, b = [self.eval(x, st, fr) for x in el]
            if isinstance(a, E) and isinstance(b, E):
                row = self.deref(st, d.at(a))
                if isinstance(row, Arr):
                    return row.at(b)
        return opq("subtuple", self.key(st, d), ast.unparse(sl))

    def fancy(self, d, ka, st, node):
        its = ka.items() if ka.dtype == "b" and d.kind != "list" else None
        if its is not None and (d.n - ka.n).const() == 0:
            ds = [self.decide(x, st) if isinstance(x, Cond) else None for x in its]
            if all(x is not None for x in ds):
                src = d.items()
                return self.alloc(st, self.list_arr([v for v, x in zip(src, ds) if x], "nd", d.dtype))
        if ka.dtype == "b" or isinstance(ka.at(alg.fresh("k", int=True, nonneg=True)), Cond):
            s = alg.fresh("k", int=True, nonneg=True)
            c = ka.at(s)
            if not isinstance(c, Cond):
                c = self.truth(c, st)
            dd = self.decide(c, st)
            if dd is True:
                return self.alloc(st, d.with_(view=None, kind="nd"))
            if dd is False:
                return self.alloc(st, Arr("nd", ZERO, lambda i: opq("empty"), d.dtype))
            if d.kind == "list":
                return opq("listmask")
            mk = self.arrkey(st, ka)
            cnt = alg.summation(alg.ite(c, ONE, ZERO), s, ZERO, ka.n)

            def get(j):
                return d.at(alg.fn("sel", mk, j))
            a = Arr("nd", cnt, get, d.dtype, None, ("filter", d, ka), d.is2d)
            return self.alloc(st, a)
        # integer index array

        facts = st.facts + self.ctx.facts

        def get(j):
            ix = self.to_e(st, ka.at(j))
            if self._decide(c_cmp("lt", ix), facts) is True:
                ix = d.n + ix
            return d.at(ix, lambda q: self._decide(q, facts))
        return self.alloc(st, Arr("nd", ka.n, get, d.dtype, None, None, d.is2d))

    # ------------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unmodelled("expression %s line %d" % (type(e).__name__, getattr(e, "lineno", 0)))
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, complex):
            return num(v.real) + num(v.imag) * alg.IMAG
        if isinstance(v, (int, float)):
            return num(v)
        return Const(v)

    def e_Name(self, e, st, fr):
        g = st.scope.globals_
        if g and e.id in g and not (st.scope.nonlocals_ and e.id in st.scope.nonlocals_):
            own = st.scope.root()
            v = own.vars.get(e.id)
        else:
            own = st.scope.find(e.id)
            v = own.vars[e.id] if own is not None else None
        if self.globcells:
            hit, gv = self.glob_read(own if own is not None else st.scope.root(), e.id, st)
            if hit:
                v = gv
        if isinstance(v, Partial):
            d = self.decide(v.cond, st)
            if d is None:
                fr.raises.append((st.path + (c_not(v.cond),), "UnboundLocalError", st.fork(), e, False))
                st.facts = st.facts + (v.cond.args if v.cond.op == "and" else (v.cond,))
            elif d is False:
                self.event("unbound", e.id, e, st)
                self.raise_("UnboundLocalError", st, fr, e, explicit=False)
            v = v.v
            if own is st.scope:
                own.vars[e.id] = v
        if v is None:
            if e.id in BUILTIN_NAMES:
                return Ext("builtins." + e.id)
            self.event("unbound", e.id, e, st)
            self.raise_("NameError", st, fr, e, explicit=False)
        return v

    def e_Tuple(self, e, st, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                a = self.arr(st, v)
                its = a.items() if a is not None else None
                if its is None:
                    return opq("startuple")
                out.extend(its)
            else:
                out.append(self.eval(x, st, fr))
        return Tup(out)

    def e_List(self, e, st, fr):
        t = self.e_Tuple(e, st, fr)
        if isinstance(t, Tup):
            return self.alloc(st, self.list_arr(t.items, "list"))
        return t

    def e_Set(self, e, st, fr):
        return self.e_Tuple(e, st, fr)

    def e_Dict(self, e, st, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                return opq("dictsplat")
            kv = self.eval(k, st, fr)
            vv = self.eval(v, st, fr)
            d[self.dkey(st, kv)[0]] = vv
        return self.alloc(st, Dct(d))

    def e_JoinedStr(self, e, st, fr):
        vals = []
        fmt = ""
        for x in e.values:
            if isinstance(x, ast.Constant):
                fmt += str(x.value).replace("{", "{{").replace("}", "}}")
            else:
                spec = ""
                if x.format_spec is not None:
                    for y in x.format_spec.values:
                        if isinstance(y, ast.Constant):
                            spec += str(y.value)
                        else:
                            spec += "{%d}" % len(vals)
                            vals.append(self.eval(y.value, st, fr))
                fmt += "{%d%s}" % (len(vals), ":" + spec if spec else "")
                vals.append(self.eval(x.value, st, fr))
        if not vals:
            return Const(fmt.replace("{{", "{").replace("}}", "}"))
        return Fmt(fmt, vals, {})

    def e_FormattedValue(self, e, st, fr):
        return Fmt("{}", [self.eval(e.value, st, fr)], {})

    def e_Attribute(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        return self.getattr_(v, e.attr, st, fr, e)

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.subscript(o, e.slice, st, fr, e)

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e.body)],
                               decorator_list=[], lineno=e.lineno, col_offset=0)
        defaults = [self.eval(d, st, fr) for d in e.args.defaults]
        return Func(node, st.scope, self.curfunc[-1].mod if self.curfunc else "?", "<lambda>", defaults, {})

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_IfExp(self, e, st, fr):
        c = self.test(e.test, st, fr)
        d = self.decide(c, st)
        if d is True:
            return self.eval(e.body, st, fr)
        if d is False:
            return self.eval(e.orelse, st, fr)
        self.undecided.append(c)
        s1 = st.fork()
        s1.assume(c)
        s2 = st.fork()
        s2.assume(c_not(c))
        v1 = v2 = None
        try:
            v1 = self.eval(e.body, s1, fr)
        except PathEnd:
            pass
        try:
            v2 = self.eval(e.orelse, s2, fr)
        except PathEnd:
            pass
        if v1 is None and v2 is None:
            raise PathEnd()
        if v1 is None:
            st.become(s2)
            return v2
        if v2 is None:
            st.become(s1)
            return v1
        j = self.join(c, s1, s2, st)
        out = self.merge(c, v1, v2, s1, s2, j)
        st.become(j)
        return out

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        op = type(e.op).__name__
        if op == "Not":
            return c_not(self.truth(v, st))
        if op == "USub":
            a = self.arr(st, v)
            if a is not None:
                return self.alloc(st, self.mapa(lambda x: -self.to_e(st, x), a))
            return -self.to_e(st, v)
        if op == "UAdd":
            return v
        if op == "Invert":
            a = self.arr(st, v)
            if a is not None:
                return self.alloc(st, self.mapa(lambda x: c_not(x if isinstance(x, Cond) else self.truth(x, st)), a, "b"))
            if isinstance(v, Cond):
                return c_not(v)
            return -self.to_e(st, v) - ONE
        raise Unmodelled("unary " + op)

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st, e, fr)

    def e_BoolOp(self, e, st, fr):
        return self.boolop(e.values, isinstance(e.op, ast.And), st, fr, False)

    def test(self, e, st, fr):
        """truth of an expression (only its truth matters)"""
        if isinstance(e, ast.BoolOp):
            return self.boolop(e.values, isinstance(e.op, ast.And), st, fr, True)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return c_not(self.test(e.operand, st, fr))
        return self.truth(self.eval(e, st, fr), st)

    def boolop(self, values, isand, st, fr, test):
        x = values[0]
        v = self.test(x, st, fr) if test else self.eval(x, st, fr)
        if len(values) == 1:
            return v
        c = v if test else self.truth(v, st)
        d = self.decide(c, st)
        if d is (not isand):
            return v if not isinstance(v, Cond) else TRUE if d else FALSE
        if d is not None:
            return self.boolop(values[1:], isand, st, fr, test)
        go = c if isand else c_not(c)
        s1 = st.fork()
        s1.assume(go)
        try:
            w = self.boolop(values[1:], isand, s1, fr, test)
        except PathEnd:
            st.assume(c_not(go))
            return v if not isinstance(v, Cond) else FALSE if isand else TRUE
        s2 = st
        if all(s1.heap.get(k) is u for k, u in st.heap.items()) and s1.scope.vars.keys() == st.scope.vars.keys() and all(
                s1.scope.vars[k] is u for k, u in st.scope.vars.items()):
            st.heap.update(s1.heap)
        else:
            s2 = st.fork()
            s2.assume(c_not(go))
            j = self.join(go, s1, s2, st)
            if isinstance(v, Cond) and isinstance(w, Cond):
                st.become(j)
        if isinstance(v, Cond) and isinstance(w, Cond):
            return c_and(v, w) if isand else c_or(v, w)
        out = self.merge(go, w, v, s1, s2, j if s2 is not st else st)
        if s2 is not st:
            st.become(j)
        return out

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            c = self.compare(type(op).__name__, left, right, st, e)
            if res is None:
                res = c
            elif isinstance(res, Cond) and isinstance(c, Cond):
                res = c_and(res, c)
            else:
                res = Cond("opq", "chaincmp")
            left = right
        return res

    def compare(self, op, a, b, st, node=None):
        da, db = self.deref(st, a), self.deref(st, b)
        if op in ("Eq", "NotEq", "Is", "IsNot"):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, E) and self.lib.dtype_attr(x, "kind") is not None:
                    g, h = self.lib.dtype_of(self, st, x), self.lib.dtype_of(self, st, y)
                    if h in ("f", "i", "b", "c"):
                        return TRUE if (g == h) == (op in ("Eq", "Is")) else FALSE
        if op in ("Is", "IsNot"):
            r = None
            if isinstance(da, Const) and isinstance(db, Const):
                r = da.v is db.v or da == db
            elif isinstance(a, Cond) and isinstance(b, Cond):
                c = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
                return c if op == "Is" else c_not(c)
            elif (isinstance(da, Const) and da.v is None) or (isinstance(db, Const) and db.v is None):
                other = db if (isinstance(da, Const) and da.v is None) else da
                if isinstance(other, E) and is_opaque(other):
                    c = Cond("opq", "isnone", other)
                    return c if op == "Is" else c_not(c)
                r = False
            elif isinstance(a, Ref) and isinstance(b, Ref):
                r = a.cid == b.cid
            elif a is b:
                r = True
            elif isinstance(a, Ext) and isinstance(b, Ext):
                r = a == b
            if r is None:
                return Cond("opq", "is", self.key(st, a), self.key(st, b))
            return TRUE if (r == (op == "Is")) else FALSE
        if op in ("In", "NotIn"):
            c = self.contains(a, b, st)
            return c if op == "In" else c_not(c)
        if isinstance(da, Arr) or isinstance(db, Arr):
            nd = any(isinstance(x, Arr) and x.kind == "nd" for x in (da, db))
            if nd:
                A_, B_ = da, db
                return self.alloc(st, self.elementwise(
                    lambda x, y: self.compare(op, x, y, st), [A_, B_], st, dtype="b"))
            if isinstance(da, Arr) and isinstance(db, Arr):
                if op in ("Eq", "NotEq"):
                    r = None
                    ia, ib = da.items(), db.items()
                    if (da.n - db.n).const() not in (None, 0):
                        r = FALSE
                    elif ia is not None and ib is not None:
                        r = c_and(*[self.compare("Eq", x, y, st) for x, y in zip(ia, ib)]) if ia else TRUE
                    if r is None:
                        z = da if da.n == ZERO else db if db.n == ZERO else None
                        if z is not None:
                            o = db if z is da else da
                            r = c_cmp("eq", o.n)
                    if r is None:
                        r = Cond("opq", "seqeq", self.key(st, da), self.key(st, db))
                    return r if op == "Eq" else c_not(r)
                return Cond("opq", "seqcmp")
            if op == "Eq":
                return FALSE
            if op == "NotEq":
                return TRUE
        if isinstance(da, Tup) and isinstance(db, Tup):
            r = FALSE if len(da.items) != len(db.items) else c_and(
                *[self.compare("Eq", x, y, st) for x, y in zip(da.items, db.items)])
            return r if op == "Eq" else c_not(r)
        if isinstance(da, Const) and isinstance(db, Const):
            try:
                r = {"Eq": lambda: da.v == db.v, "NotEq": lambda: da.v != db.v, "Lt": lambda: da.v < db.v,
                     "LtE": lambda: da.v <= db.v, "Gt": lambda: da.v > db.v, "GtE": lambda: da.v >= db.v}[op]()
                return TRUE if r else FALSE
            except Exception:
                return Cond("opq", "cmpconst")
        if isinstance(da, Const) or isinstance(db, Const):
            other = db if isinstance(da, Const) else da
            if isinstance(other, (E, Cond)) and not (isinstance(other, E) and is_opaque(other)) or isinstance(other, (Tup, Dct, Obj)):
                return FALSE if op == "Eq" else TRUE if op == "NotEq" else Cond("opq", "cmpmixed")
            return Cond("opq", "cmp" + op, self.key(st, a), self.key(st, b))
        if isinstance(a, Cond) and isinstance(b, Cond) and op in ("Eq", "NotEq"):
            c = c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return c if op == "Eq" else c_not(c)
        x, y = self.to_e(st, a), self.to_e(st, b)
        d = x - y
        if any(alg.atom(aid) is alg.the_atom(alg.NAN) for m in d.t for aid, _ in m):
            return TRUE if op == "NotEq" else FALSE
        # x/c < k  etc: fold division by positive constants is done in c_cmp
        if op == "Lt":
            return c_cmp("lt", d)
        if op == "LtE":
            return c_cmp("le", d)
        if op == "Gt":
            return c_cmp("lt", -d)
        if op == "GtE":
            return c_cmp("le", -d)
        if op == "Eq":
            return c_cmp("eq", d)
        if op == "NotEq":
            return c_not(c_cmp("eq", d))
        raise Unmodelled("compare " + op)

    def contains(self, a, b, st):
        d = self.deref(st, b)
        if isinstance(d, Const) and isinstance(d.v, str) and isinstance(a, Const) and isinstance(a.v, str):
            return TRUE if a.v in d.v else FALSE
        if isinstance(d, Dct):
            kk, const = self.dkey(st, a)
            if kk in d.d:
                return TRUE
            if const and all(not isinstance(x, (E, Cond)) or isinstance(x, E) and x.const() is not None for x in d.d):
                return FALSE
            qs = [self.key_eq(kk, k) for k in d.d]
            if all(q is not None for q in qs):
                return c_or(*qs) if qs else FALSE
            return Cond("opq", "indict", self.key(st, a))
        its = None
        if isinstance(d, Tup):
            its = d.items
        elif isinstance(d, Arr):
            if d.kind == "range" and isinstance(a, E):
                s = alg.fresh("k")
                e = d.at(s)
                if e == s:
                    return c_and(c_cmp("le", -a), c_cmp("lt", a - d.n))
                li = alg._lin_index(e, s)
                if li is not None and li[0] == 1:
                    off = a - li[1]
                    return c_and(c_cmp("le", -off), c_cmp("lt", off - d.n))
            its = d.items()
        if its is not None:
            return c_or(*[self.compare("Eq", a, x, st) for x in its]) if its else FALSE
        return Cond("opq", "in", self.key(st, a), self.key(st, b))

    def truth(self, v, st):
        if isinstance(v, Cond):
            return v
        d = self.deref(st, v)
        if isinstance(d, Const):
            return TRUE if d.v else FALSE
        if isinstance(d, E):
            return c_not(c_cmp("eq", d))
        if isinstance(d, Arr):
            if d.kind == "nd":
                c = d.n.const()
                if c == 1:
                    return self.truth(d.at(ZERO), st)
                return Cond("opq", "arrtruth", self.key(st, d))
            return c_cmp("lt", -d.n)
        if isinstance(d, Tup):
            return TRUE if d.items else FALSE
        if isinstance(d, Dct):
            return TRUE if d.d else FALSE
        if d is None:
            return Cond("opq", "truth", "unknown")
        return TRUE

    # ------------------------------------------------------- element-wise ops
    def mapa(self, f, a, dtype=None):
        dt = dtype or a.dtype
        kind = "nd"
        if a.is2d:
            g0 = a._get if a.pieces is None else a.at
            def get2(i):
                r = a.at(i)
                return self.mapa(f, r, dtype) if isinstance(r, Arr) else f(r)
            return Arr(kind, a.n, get2, dt, None, None, True)
        if a.pieces is not None:
            return Arr(kind, a.n, None, dt, [(s, l, (lambda i, g=g: f(g(i)))) for s, l, g in a.pieces])
        g0 = a._get
        return Arr(kind, a.n, lambda i: f(g0(i)), dt)

    def elementwise(self, f, args, st, dtype="f", node=None, fr=None):
        arrs = [x for x in args if isinstance(x, Arr)]
        n = None
        for x in arrs:
            if x.n == ONE and len(arrs) > 1:
                continue
            if n is None:
                n = x.n
            elif n != x.n:
                dd = n - x.n
                c = dd.const()
                if c is None:
                    c = alg.subst(dd, self.ctx.slack).const()
                if c is not None and c != 0:
                    if not any(y.is2d for y in arrs):
                        self.event("shape-mismatch", (n, x.n), node, st)
                        if fr is not None:
                            self.raise_("ValueError", st, fr, node, explicit=False)
                elif c is None:
                    self.event("shape-unproved", (n, x.n), node, st)
        if n is None:
            n = arrs[0].n
        is2d = any(x.is2d for x in arrs)
        if is2d:
            two = [x for x in arrs if x.is2d]
            n2 = two[0].n
            for x in two:
                if x.n != ONE:
                    n2 = x.n

            def get2(i):
                sub = []
                for x in args:
                    if isinstance(x, Arr):
                        if x.is2d:
                            sub.append(x.at(ZERO if x.n == ONE else i))
                        else:
                            sub.append(x)      # 1-d broadcast along the last axis
                    else:
                        sub.append(x)
                return self.elementwise(f, sub, st, dtype, node, fr)
            return Arr("nd", n2, get2, dtype, None, None, True)
        # identical partitions
        parts = None
        for x in arrs:
            if x.pieces is not None:
                p = [(s, l) for s, l, g in x.pieces]
                if parts is None:
                    parts = p
                elif parts != p:
                    parts = False
        if parts:
            pcs = []
            for k, (s, l) in enumerate(parts):
                gs = []
                for x in args:
                    if isinstance(x, Arr):
                        if x.pieces is not None:
                            gs.append(x.pieces[k][2])
                        elif x.n == ONE and n != ONE:
                            gs.append(lambda i, x=x: x.at(ZERO))
                        else:
                            gs.append(lambda i, x=x, s=s: x.at(i + s))
                    else:
                        gs.append(lambda i, x=x: x)
                pcs.append((s, l, (lambda i, gs=gs: f(*[g(i) for g in gs]))))
            return Arr("nd", n, None, dtype, pcs)
        facts = st.facts + self.ctx.facts
        dec = lambda q: self._decide(q, facts)
        nn = n

        def get(i):
            vals = []
            for x in args:
                if isinstance(x, Arr):
                    vals.append(x.at(ZERO if (x.n == ONE and nn != ONE) else i, dec))
                else:
                    vals.append(x)
            return f(*vals)
        return Arr("nd", n, get, dtype)

    def scalar_op(self, op, x, y, st):
        x, y = self.to_e(st, x), self.to_e(st, y)
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            if not y.t:
                return alg.NAN if not x.t else alg.fn("div0", x)
            return x / y
        if op == "FloorDiv":
            return alg.floordiv_(x, y)
        if op == "Mod":
            return alg.mod_(x, y)
        if op == "Pow":
            return self.pow_(x, y, st)
        if op in ("BitAnd", "BitOr", "BitXor"):
            cx, cy = x.const(), y.const()
            if cx is not None and cy is not None and cx.denominator == 1 and cy.denominator == 1:
                p, q = int(cx), int(cy)
                return num(p & q if op == "BitAnd" else p | q if op == "BitOr" else p ^ q)
            if op == "BitAnd" and (cx == 1 or cy == 1):
                return alg.mod_(y if cx == 1 else x, num(2))
            return fn(op.lower(), x, y)
        if op == "RShift":
            return alg.floordiv_(x, alg.exp2_(y))
        if op == "LShift":
            return x * alg.exp2_(y)
        raise Unmodelled("operator " + op)

    def pow_(self, x, y, st):
        c = y.const()
        try:
            if c is None and alg.is_int(y) and len(x.t) == 1 and not x.const():
                return alg.gpow_(x, y)
            return alg.gpow_(x, y)
        except Limit:
            return fn("bigpow", x, y)

    def binop(self, op, a, b, st, node, fr):
        da, db = self.deref(st, a), self.deref(st, b)
        # strings
        if op == "Mod" and isinstance(da, Const) and isinstance(da.v, str):
            args = db.items if isinstance(db, Tup) else [b]
            return Fmt(da.v, args, {"%": True})
        if op == "Add" and (isinstance(da, (Const, Fmt)) or isinstance(db, (Const, Fmt))):
            if isinstance(da, Const) and isinstance(db, Const) and isinstance(da.v, str) and isinstance(db.v, str):
                return Const(da.v + db.v)
            return Fmt("{}{}", [a, b], {})
        if op == "Mult" and isinstance(da, Const) and isinstance(da.v, str):
            k = self.to_e(st, b).const()
            return Const(da.v * int(k)) if k is not None else opq("strrep")
        if op == "Add":
            ta, tb = self.tup_items(da), self.tup_items(db)
            if ta is not None and tb is not None:
                return Tup(ta + tb)
        if isinstance(da, Tup):
            da = self.list_arr(da.items, "tuple")
        if isinstance(db, Tup):
            db = self.list_arr(db.items, "tuple")
        aseq = isinstance(da, Arr)
        bseq = isinstance(db, Arr)
        if aseq or bseq:
            alist = aseq and da.kind in ("list", "tuple", "range")
            blist = bseq and db.kind in ("list", "tuple", "range")
            if alist and blist:
                if op == "Add":
                    return self.alloc(st, self.concat([da, db], "list", st))
                self.event("list-arith", op, node, st)
                self.raise_("TypeError", st, fr, node, explicit=False)
            if (alist and not bseq) or (blist and not aseq):
                l, o = (da, b) if alist else (db, a)
                if op == "Mult" and isinstance(o, (E, Cond)):
                    k = self.to_e(st, o)
                    if alg.is_int(k):
                        self.event("list-repeat", None, node, st)
                        n = l.n * k
                        c = k.const()
                        its = l.items()
                        if its is not None and c is not None and len(its) * c < 512:
                            return self.alloc(st, self.list_arr(its * int(c), l.kind))
                        if l.n == ONE:
                            v = l.at(ZERO)
                            return self.alloc(st, Arr(l.kind, k, lambda i: v, l.dtype))
                        return self.alloc(st, Arr("list", n, lambda i: l.at(alg.mod_(i, l.n)), l.dtype))
                if not is_opaque(self.to_e(st, o)) if isinstance(o, E) else True:
                    self.event("list-arith", op, node, st)
                    # numpy float scalars (np.float64) do broadcast over lists
                    if isinstance(o, E) and o.const() is None:
                        pass
                    else:
                        self.raise_("TypeError", st, fr, node, explicit=False)
            if op in ("BitAnd", "BitOr", "BitXor"):
                def f(x, y):
                    cx = x if isinstance(x, Cond) else self.truth(x, st)
                    cy = y if isinstance(y, Cond) else self.truth(y, st)
                    if op == "BitAnd":
                        return c_and(cx, cy)
                    if op == "BitOr":
                        return c_or(cx, cy)
                    return c_or(c_and(cx, c_not(cy)), c_and(c_not(cx), cy))
                return self.alloc(st, self.elementwise(f, [da if aseq else a, db if bseq else b], st, "b", node, fr))
            if op == "MatMult":
                return self.lib.dot(self, st, [a, b], {}, node, fr)
            dts = [x.dtype for x in (da, db) if isinstance(x, Arr)]
            for x in (a, b):
                if isinstance(x, E):
                    dts.append("i" if alg.is_int(x) else ("c" if alg.depends(x, alg.IMAG) else "f"))
            dt = "c" if "c" in dts else "f" if ("f" in dts or op == "Div") else ("?" if "?" in dts else "i")
            return self.alloc(st, self.elementwise(lambda x, y: self.scalar_op(op, x, y, st),
                                                   [da if aseq else a, db if bseq else b], st, dt, node, fr))
        if isinstance(a, Cond) and isinstance(b, Cond) and op in ("BitAnd", "BitOr"):
            return c_and(a, b) if op == "BitAnd" else c_or(a, b)
        if isinstance(da, (Const, Dct, Obj)) or isinstance(db, (Const, Dct, Obj)):
            if isinstance(da, Const) and da.v is None or isinstance(db, Const) and db.v is None:
                self.event("none-arith", op, node, st)
                self.raise_("TypeError", st, fr, node, explicit=False)
            return opq("binop" + op, self.key(st, a), self.key(st, b))
        try:
            return self.scalar_op(op, a, b, st)
        except Limit as ex:
            self.note("value number too large", node)
            return fn("big" + op, self.to_e(st, a), self.to_e(st, b)) if op in ("Mult", "Div") else \
                opq("big" + op, self.to_e(st, a), self.to_e(st, b))

    def tup_items(self, d):
        if isinstance(d, Tup):
            return list(d.items)
        if isinstance(d, Arr) and d.kind == "tuple":
            return d.items()
        return None

    # ---------------------------------------------------------- comprehensions
    def comp(self, e, st, fr, elt):
        if len(e.generators) == 1:
            g = e.generators[0]
            it = self.eval(g.iter, st, fr)
            a = self.arr(st, it)
            if a is None:
                k = self.key(st, it)
                a = Arr("list", fn("len", opq("iter", k)), lambda i: opq("item", k, i), "?")
            its = a.items() if a.n.const() is not None and a.n.const() <= 64 else None
            sub = State(Scope({}, st.scope), st.heap, st.facts, st.path)
            if its is not None:
                out = []
                for v in its:
                    self.assign(g.target, v, sub, fr)
                    keep = TRUE
                    for c in g.ifs:
                        keep = c_and(keep, self.test(c, sub, fr))
                    d = self.decide(keep, st)
                    if d is False:
                        continue
                    if d is None:
                        return None
                    out.append(elt(sub))
                return self.list_arr(out, "list")
            i = alg.fresh("c", int=True, nonneg=True)
            iid = alg.the_atom(i).id
            sub.facts = sub.facts + (c_cmp("lt", i - a.n),)
            self.assign(g.target, a.at(i, lambda q: self.decide(q, sub)), sub, fr)
            keep = TRUE
            for c in g.ifs:
                keep = c_and(keep, self.test(c, sub, fr))
                if keep != FALSE:
                    sub.facts = sub.facts + (keep,)
            v = elt(sub)
            dv = self.deref(sub, v)
            if isinstance(dv, Arr):
                v = dv
            st.heap.update({k: x for k, x in sub.heap.items() if k not in st.heap})
            dt = "f"
            if isinstance(v, E):
                dt = "i" if alg.is_int(v) else "f"
            elif isinstance(v, Cond):
                dt = "b"
            else:
                dt = "o"
            full = Arr("list", a.n, lambda j: vsubst(v, {iid: j}), dt, None, None, isinstance(v, Arr))
            if keep == TRUE:
                return full
            mask = Arr("nd", a.n, lambda j: alg.subst_cond(keep, {iid: j}), "b")
            r = self.deref(st, self.fancy(full.with_(kind="nd"), mask, st, e))
            return r.with_(kind="list") if isinstance(r, Arr) else None
        return None

    def e_ListComp(self, e, st, fr):
        r = self.comp(e, st, fr, lambda s: self.eval(e.elt, s, fr))
        if r is None:
            self.note("comprehension", e)
            return opq("comp", ast.unparse(e))
        return self.alloc(st, r)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st, fr):
        if len(e.generators) == 1:
            g = e.generators[0]
            a = self.arr(st, self.eval(g.iter, st, fr))
            its = a.items() if a is not None else None
            if its is not None:
                d = {}
                sub = State(Scope({}, st.scope), st.heap, st.facts, st.path)
                for v in its:
                    self.assign(g.target, v, sub, fr)
                    k = self.eval(e.key, sub, fr)
                    vv = self.eval(e.value, sub, fr)
                    d[self.dkey(sub, k)[0]] = vv
                return self.alloc(st, Dct(d))
        return opq("dictcomp")

    def e_Yield(self, e, st, fr):
        g = getattr(fr, "gen", None)
        if g is None or not isinstance(e, ast.Yield):
            raise Unmodelled("yield")
        v = self.eval(e.value, st, fr) if e.value is not None else NONE
        return g.yielded(v, st)

    def e_Lit(self, e, st, fr):
        return e.v

    def e_Slice(self, e, st, fr):
        return Tup([Const("slice")] + [self.eval(x, st, fr) if x is not None else NONE for x in (e.lower, e.upper, e.step)])

    # -------------------------------------------------------------- attributes
    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, Cls):
                out.extend(self.mro(b))
        return out

    def class_lookup(self, c, name, after=None, st=None):
        seq = self.mro(c)
        if after is not None:
            seq = seq[[k for k, x in enumerate(seq) if x is after][0] + 1:]
        for k in seq:
            if st is not None and self.globcells:
                hit, v = self.glob_read(k, name, st)
                if hit and v is not None:
                    return v
            if name in k.ns:
                return k.ns[name]
        return None

    def getattr_(self, v, attr, st, fr, node):
        if isinstance(v, Mod):
            r = self.mod_attr(v.name, attr)
            if self.globcells:
                hit, gv = self.glob_read(self.module(v.name), attr, st)
                if hit:
                    r = gv
            if r is None:
                self.event("attr-missing", (v.name, attr), node, st)
                self.raise_("AttributeError", st, fr, node, explicit=False)
            return r
        if isinstance(v, Ext):
            return self.lib.ext_attr(self, v, attr)
        if isinstance(v, Super):
            f = None
            d = self.deref(st, v.self_)
            f = self.class_lookup(d.cls, attr, after=v.cls)
            if isinstance(f, Func):
                return Bound(v.self_, f)
            if f is None:
                if attr == "__init__":
                    return Ext("builtins.object.__init__")
                return opq("superattr", attr)
            return f
        d = self.deref(st, v)
        if isinstance(d, Obj):
            if attr in d.attrs:
                return d.attrs[attr]
            if d.cls is not None:
                f = self.class_lookup(d.cls, attr, st=st)
                if isinstance(f, Memo):
                    return Bound(v, f)
                if isinstance(f, Func):
                    if any(ast.unparse(x) == "classmethod" for x in f.node.decorator_list):
                        return Bound(d.cls, f)
                    if any(ast.unparse(x) == "property" for x in f.node.decorator_list):
                        return self.call_func(f, [v], {}, st, fr, node)
                    if any(ast.unparse(x) == "staticmethod" for x in f.node.decorator_list):
                        return f
                    return Bound(v, f)
                if f is not None:
                    return f
            if attr == "__class__":
                return d.cls
            self.event("attr-missing", (d.cls.name if d.cls else "?", attr), node, st)
            self.raise_("AttributeError", st, fr, node, explicit=False)
        if isinstance(v, Cls):
            f = self.class_lookup(v, attr, st=st)
            if isinstance(f, Func) and any(ast.unparse(x) == "classmethod" for x in f.node.decorator_list):
                return Bound(v, f)
            if f is not None:
                return f
            if attr == "__name__":
                return Const(v.name)
        if isinstance(v, (Func, Memo)) and attr == "__name__":
            return Const(v.func.name if isinstance(v, Memo) else v.name)
        if isinstance(v, (Func, Bound, Memo)):
            f = v.func if isinstance(v, (Bound, Memo)) else v
            hit, gv = self.glob_read(f, "attr." + attr, st)
            if hit and gv is not None:
                return gv
            if isinstance(f, Func) and attr not in FUNC_ATTRS and not isinstance(v, Memo):
                self.event("attr-missing", (f.name, attr), node, st)
                self.raise_("AttributeError", st, fr, node, explicit=False)
        r = self.lib.value_attr(self, v, d, attr, st, fr, node)
        if r is not None:
            return r
        return Meth(v, attr)

    # ------------------------------------------------------------------- calls
    def e_Call(self, e, st, fr):
        f = self.eval(e.func, st, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                a = self.arr(st, v)
                its = a.items() if a is not None else None
                if its is None:
                    args = None
                    break
                args.extend(its)
            else:
                args.append(self.eval(x, st, fr))
        kw = {}
        if args is not None:
            for k in e.keywords:
                if k.arg is None:
                    v = self.deref(st, self.eval(k.value, st, fr))
                    if isinstance(v, Dct):
                        for kk, vv in v.d.items():
                            kw[kk] = vv
                    else:
                        kw["**"] = opq("kwargs")
                else:
                    kw[k.arg] = self.eval(k.value, st, fr)
        if args is None:
            return opq("starcall", ast.unparse(e.func))
        return self.call(f, args, kw, st, fr, e)

    def call(self, f, args, kw, st, fr, node):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st, fr, node)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw, st, fr, node)
        if isinstance(f, Memo):
            return self.call_memo(f, args, kw, st, fr, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw, st, fr, node)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, st, args, kw, node, fr)
        if isinstance(f, Meth):
            return self.lib.call_meth(self, f.recv, f.name, st, args, kw, node, fr)
        d = self.deref(st, f)
        if isinstance(d, Obj) and d.cls is not None:
            g = self.class_lookup(d.cls, "__call__")
            if isinstance(g, Func):
                return self.call_func(g, [f] + args, kw, st, fr, node)
        if isinstance(f, E):
            self.event("call-opaque", (f, args, kw), node, st)
            h = self.lib.call_value(self, f, st, args, kw, node, fr)
            if h is not None:
                return h
            return opq("call", f, *[self.key(st, a) for a in args])
        if hasattr(f, "pycall"):
            return f.pycall(self, st, args, kw, node, fr)
        self.event("call-opaque", (f, args, kw), node, st)
        return opq("call", self.key(st, f), *[self.key(st, a) for a in args])

    def call_memo(self, f, args, kw, st, fr, node):
        """functools.lru_cache: the object of an earlier call with equal arguments"""
        if any(isinstance(self.deref(st, a), (Dct,)) or
               isinstance(self.deref(st, a), Arr) and self.deref(st, a).kind in ("nd", "list")
               for a in list(args) + list(kw.values())):
            self.raise_("TypeError", st, fr, node, explicit=False)
        k = ("tup",) + tuple(self.dkey(st, a)[0] for a in args) + tuple((n, self.dkey(st, kw[n])[0]) for n in sorted(kw))
        t = st.heap.get(f.cid, self.modheap.get(f.cid))
        if isinstance(t, Dct) and k in t.d:
            return t.d[k]
        v = self.call(f.func, args, kw, st, fr, node)
        t = st.heap.get(f.cid, self.modheap.get(f.cid))
        if isinstance(t, Dct):
            d = dict(t.d)
            d[k] = v
            st.heap[f.cid] = Dct(d)
        return v

    def instantiate(self, c, args, kw, st, fr, node):
        o = self.alloc(st, Obj(c, {}))
        f = self.class_lookup(c, "__init__")
        if isinstance(f, Func):
            self.call_func(f, [o] + args, kw, st, fr, node)
        return o

    def bind_args(self, f, args, kw, st, fr, node):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        kw = dict(kw)
        if len(args) > len(names) and a.vararg is None:
            self.event("arity", (f.name, "too many arguments"), node, st)
            self.raise_("TypeError", st, fr, node, explicit=False)
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg is not None:
            env[a.vararg.arg] = Tup(args[len(names):])
        for k in list(kw):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.event("arity", (f.name, "multiple values for %s" % k), node, st)
                    self.raise_("TypeError", st, fr, node, explicit=False)
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg is not None:
                env[a.kwarg.arg] = self.alloc(st, Dct(kw))
            elif list(kw) != ["**"]:
                self.event("arity", (f.name, "unexpected keyword %s" % sorted(map(str, kw))), node, st)
                self.raise_("TypeError", st, fr, node, explicit=False)
        elif a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, Dct({}))
        nd = len(f.defaults)
        for k, n in enumerate(names):
            if n not in env:
                j = k - (len(names) - nd)
                if j >= 0:
                    env[n] = f.defaults[j]
                else:
                    self.event("arity", (f.name, "missing argument %s" % n), node, st)
                    self.raise_("TypeError", st, fr, node, explicit=False)
        for x in a.kwonlyargs:
            if x.arg not in env:
                if x.arg in f.kwdefaults:
                    env[x.arg] = f.kwdefaults[x.arg]
                else:
                    self.event("arity", (f.name, "missing keyword %s" % x.arg), node, st)
                    self.raise_("TypeError", st, fr, node, explicit=False)
        return env

    def call_func(self, f, args, kw, st, fr, node):
        stub = self.stubs.get(f.mod + "." + (f.owner.name + "." if f.owner else "") + f.name)
        env = self.bind_args(f, args, kw, st, fr, node)
        if stub is not None:
            r = stub(self, env, st, node, fr)
            if r is not None:
                return r
        if self.depth > 40:
            self.note("recursion depth", node)
            return opq("deep", f.name)
        if is_generator(f.node):
            self.event("generator", f.name, node, st)
            self.visited_funcs.add((f.mod, (f.owner.name + "." if f.owner else "") + f.name))
            if self.quiet:
                return opq("generator", f.name)
            import gen
            env["$frame"] = self.nextcid
            self.nextcid += 1
            return gen.Gen(self, f, env, st, Frame, State, Scope)
        self.visited_funcs.add((f.mod, (f.owner.name + "." if f.owner else "") + f.name))
        env["$frame"] = self.nextcid
        self.nextcid += 1
        sub = State(Scope(env, f.env), dict(st.heap), st.facts, st.path)
        frame = Frame(f, self)
        self.depth += 1
        self.curfunc.append(f)
        try:
            r = self.exec_block(f.node.body, sub, frame)
        finally:
            self.depth -= 1
            self.curfunc.pop()
        if r is not None:
            frame.returns.append((r.path, NONE, r.heap, f.node))
        for x in frame.raises:
            fr.raises.append(x)
        if not frame.returns:
            raise PathEnd()
        base = len(st.path)
        rets = frame.returns
        # fold returns into gated joins
        known = set()
        conds = []
        for p, v, h, nd in rets:
            rel = [c for c in p[base:] if c not in known]
            c = c_and(*rel) if rel else TRUE
            conds.append(c)
            known.add(c_not(c))
        val, heap = rets[-1][1], rets[-1][2]
        if len(rets) > 1:
            cur = State(st.scope, heap, st.facts, st.path)
            for k in range(len(rets) - 2, -1, -1):
                p, v, h, nd = rets[k]
                c = conds[k]
                if c == TRUE:
                    val, cur = v, State(st.scope, h, st.facts, st.path)
                    continue
                s1 = State(st.scope, h, st.facts, st.path)
                s2 = cur
                j = self.join(c, State(Scope({}, None), h, st.facts, st.path), State(Scope({}, None), s2.heap, st.facts, st.path),
                              State(Scope({}, None), st.heap, st.facts, st.path))
                val = self.merge(c, v, val, s1, s2, j)
                cur = State(st.scope, j.heap, st.facts, st.path)
            heap = cur.heap
        # facts established in the callee on every normal path (assertions)
        st.heap = heap
        if r is not None and len(rets) == 1:
            st.facts = r.facts if len(r.facts) >= len(st.facts) else st.facts
        return val

    # --------------------------------------------------------------- entry API
    def run(self, modname, fname, args=(), kw=None, heap=None):
        """analyse one entry point; returns Outcome"""
        f = self.function(modname, fname) if isinstance(fname, str) else fname
        if f is None:
            raise Unmodelled("entry %s.%s not found" % (modname, fname))
        st = self.new_state(heap)
        return self.run_value(f, args, kw or {}, st)

    def new_state(self, heap=None):
        h = dict(self.modheap)
        if heap:
            h.update(heap)
        return State(Scope({"$frame": -1}, None), h, (), ())

    def run_value(self, f, args, kw, st):
        fr = Frame(None, self)
        h = st.heap
        try:
            v = self.call(f, list(args), dict(kw), st, fr, None)
            return Outcome(self, v, st, fr.raises)
        except PathEnd:
            return Outcome(self, None, st, fr.raises)


class Outcome(object):
    def __init__(self, interp, value, st, raises):
        self.interp = interp
        self.value = value
        self.st = st
        self.raises = raises


# --------------------------------------------------------------------------


def _as_load(t):
    t = ast.parse(ast.unparse(t), mode="eval").body
    return t


def pull_gate(o, q):
    """o - q with q taken out of gated branches; None if o is not q plus
    something independent of q"""
    qid = alg.the_atom(q).id
    g = o - q
    if qid not in alg.free_syms(g):
        return g
    out = ZERO
    found = False
    for m, c in o.t.items():
        a = alg.atom(m[0][0]) if len(m) == 1 and m[0][1] == 1 and c == 1 else None
        if a is not None and a.kind == "ite" and not found and qid in alg.atom_syms(a):
            ga, gb = pull_gate(a.args[1], q), pull_gate(a.args[2], q)
            if ga is None or gb is None:
                return None
            out = out + alg.ite(a.args[0], ga, gb)
            found = True
        else:
            out = out + E({m: c})
    if not found or qid in alg.free_syms(out):
        return None
    return out


def running_extremum(o, q):
    """(kind, e) when o is max/min of q and e, e independent of q"""
    qid = alg.the_atom(q).id
    if len(o.t) == 1:
        (m, c), = o.t.items()
        a = alg.atom(m[0][0]) if len(m) == 1 and m[0][1] == 1 and c == 1 else None
        if a is not None and a.kind == "ite" and a.args[0].op in ("lt", "le"):
            cnd, x, y = a.args
            e = y if x == q else x if y == q else None
            if e is None or qid in alg.free_syms(e):
                return None
            d = cnd.args[0]
            if d == q - e:          # q < e: then x
                return ("mx", e) if x == e else ("mn", e)
            if d == e - q:
                return ("mn", e) if x == e else ("mx", e)
            return None
    # (q + e +- |q - e|)/2
    for m, c in o.t.items():
        a = alg.atom(m[0][0]) if len(m) == 1 and m[0][1] == 1 else None
        if a is not None and (a.kind, a.args[0]) == ("fn", "abs") and qid in alg.atom_syms(a):
            if abs(F(c)) != F(1, 2):
                return None
            rest = o - E({m: c})
            e = rest * 2 - q
            if qid in alg.free_syms(e):
                return None
            d = a.args[1]
            if d == q - e or d == e - q:
                return ("mx" if c > 0 else "mn"), e
    return None


def assigned_names(body):
    out = set()
    stack = list(body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        stack.extend(ast.iter_child_nodes(n))
    return out


def fr_has_break(body):
    for n in body:
        for x in ast.walk(n):
            if isinstance(x, (ast.Break, ast.Return)):
                return True
    return False


def is_opaque_key(k):
    return isinstance(k, E) and is_opaque(k)


_isgen = {}


def is_generator(node):
    r = _isgen.get(node)
    if r is None:
        r = _isgen[node] = is_generator_(node)
    return r


def is_generator_(node):
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def flat_conds(c):
    if c.op in ("and", "or"):
        for x in c.args:
            for y in flat_conds(x):
                yield y
    elif c.op == "not":
        for y in flat_conds(c.args[0]):
            yield y
    else:
        yield c


def cell_atoms(e, names):
    """ids of el atoms on the named cell arrays, anywhere inside"""
    out = set()
    seen = set()

    def walk(x):
        if isinstance(x, E):
            for m in x.t:
                for aid, _ in m:
                    if aid in seen:
                        continue
                    seen.add(aid)
                    a = alg.atom(aid)
                    if a.kind == "el" and isinstance(a.args[0], str) and a.args[0] in names:
                        out.add(aid)
                    for y in a.args:
                        walk(y)
        elif isinstance(x, Cond):
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
        elif isinstance(x, alg.PWKey):
            walk(x.pieces)
    walk(e)
    return out


def mentions_cells(e, names):
    return bool(cell_atoms(e, set(names)))


class UpdArr(Arr):
    """array with one element replaced; remembers its history"""
    __slots__ = ("base", "idx", "val")


def update(d, idx, val, interp, st):
    facts = st.facts + interp.ctx.facts

    def get(j):
        if j == idx:
            return val
        dd = interp._decide(c_cmp("eq", j - idx), facts)
        if dd is True:
            return val
        old = d.at(j, lambda q: interp._decide(q, facts))
        if dd is False:
            return old
        if isinstance(old, E) and isinstance(val, E):
            return alg.ite(c_cmp("eq", j - idx), val, old)
        return opq("upd", j)
    # keep constant-length explicit sequences explicit
    c = idx.const()
    if d.pieces is not None and c is not None and d.n.const() is not None and all(p[1] == ONE for p in d.pieces):
        pcs = list(d.pieces)
        if 0 <= c < len(pcs):
            pcs[int(c)] = (num(c), ONE, lambda k, v=val: v)
            return Arr(d.kind, d.n, None, d.dtype, pcs, d.view, d.is2d)
    if d.n == ONE and c == 0:
        return Arr(d.kind, ONE, lambda j: val, d.dtype, None, d.view, isinstance(val, Arr))
    if c is not None and (d.pieces is not None or True) and isinstance(val, E) and not isinstance(d, UpdArr):
        r = interp.write_slice(d, idx, idx + ONE, Arr("nd", ONE, lambda j: val, d.dtype), st)
        if r is not None:
            u = UpdArr(r.kind, r.n, r._get, r.dtype, r.pieces, d.view, d.is2d)
            u.base, u.idx, u.val = d, idx, val
            return u
    u = UpdArr(d.kind, d.n, get, d.dtype, None, d.view, d.is2d or isinstance(val, Arr))
    u.base, u.idx, u.val = d, idx, val
    return u


def updates_of(c, base):
    """list of (idx, val) single-element updates leading from base to c"""
    out = []
    while c is not base:
        if not isinstance(c, UpdArr):
            return None
        out.append((c.idx, c.val))
        c = c.base
    out.reverse()
    return out
