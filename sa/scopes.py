"""Name binding over the syntax trees: scopes, possibly-assigned variables,
module attributes, attributes of self, signatures.  Each scan yields
(verdict, site, detail, key) with verdict "ok" or "bad"; whatever cannot be
resolved is "ok"."""
import ast
import builtins
import glob
import os
import symtable

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__", "__builtins__", "__loader__", "__class__", "__annotations__"}
LOCATIONS = sorted(glob.glob("/opt/venv/lib/python3*/site-packages"))


def function_names(pkg, mod):
    out = []

    def walk(body, pre):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.append(pre + x.name)
                walk(x.body, pre + x.name + ".")
    walk(pkg.trees[mod].body, "")
    return out


def site(pkg, mod, node, func=""):
    return "%s:%s %s" % (pkg.files[mod], getattr(node, "lineno", "?"), func)


# ---------------------------------------------------------------- bindings


def targets(t):
    if isinstance(t, ast.Name):
        yield t.id
    elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
            yield from targets(x)
    elif isinstance(t, ast.Starred):
        yield from targets(t.value)


def shallow(body):
    """statements and expressions of this scope, not of nested functions"""
    todo = list(body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo = list(ast.iter_child_nodes(x)) + todo


def bound(body):
    """(names bound in this scope, has a star import)"""
    out, star = set(), False
    for x in shallow(body):
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(x.name)
        elif isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            out.add(x.id)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                if a.name == "*":
                    star = True
                else:
                    out.add(a.asname or a.name.split(".")[0])
        elif isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
        elif isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
            out.add(x.name)
        elif isinstance(x, ast.MatchMapping) and x.rest:
            out.add(x.rest)
    return out, star


def module_names(pkg, mod):
    t = pkg.trees[mod]
    out, star = bound(t.body)
    for x in ast.walk(t):
        if isinstance(x, ast.Global):
            out |= set(x.names)
    if mod == "allantools":
        out |= {m.split(".", 1)[1] for m in pkg.trees if "." in m}
    if "__getattr__" in out:
        star = True
    for x in ast.walk(t):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("globals", "vars", "exec", "setattr"):
            if x.func.id in ("globals", "exec") or x.func.id == "vars" and not x.args:
                star = True
    return out, star


def names(pkg, mod):
    """names bound nowhere"""
    tree = pkg.trees[mod]
    glob_, star = module_names(pkg, mod)
    try:
        top = symtable.symtable(pkg.src[mod], pkg.files[mod], "exec")
    except SyntaxError:
        return
    unknown = set()
    used = {}

    def walk(tab, path):
        for sy in tab.get_symbols():
            if sy.is_referenced() and (sy.is_global() or tab.get_type() == "module") and sy.get_name() not in glob_ and sy.get_name() not in BUILTINS:
                used.setdefault((path, sy.get_name()), tab)
        for ch in tab.get_children():
            walk(ch, path + [ch.get_name()] if False else path + (ch.get_name(),))
    walk(top, ())
    count = 0
    guarded = guarded_nodes(tree, ("NameError", "Exception", "BaseException", None))
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
            count += 1
            yield "ok", "", "", ""
    for (path, n), tab in sorted(used.items(), key=lambda q: str(q[0])):
        if star:
            continue
        for x in ast.walk(tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id == n and id(x) not in guarded and in_scope(tree, x, path):
                yield "bad", site(pkg, mod, x, ".".join(path)), "name %r is not defined anywhere" % n, ""
                break


def in_scope(tree, node, path):
    """the node lies in the function of this qualified name"""
    body = tree
    for p in path:
        nxt = None
        for x in ast.walk(body):
            if x is not body and (getattr(x, "name", None) == p or isinstance(x, ast.Lambda) and p == "lambda" or
                                  isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and p in ("listcomp", "setcomp", "dictcomp", "genexpr", "genexp")):
                if any(y is node for y in ast.walk(x)):
                    nxt = x
                    break
        if nxt is None:
            return False
        body = nxt
    return any(y is node for y in ast.walk(body))


def guarded_nodes(tree, names_):
    """nodes inside try bodies that catch one of these exceptions"""
    out = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Try):
            hit = False
            for h in x.handlers:
                if h.type is None:
                    hit = True
                else:
                    for y in ast.walk(h.type):
                        if isinstance(y, ast.Name) and y.id in names_ or isinstance(y, ast.Attribute) and y.attr in names_:
                            hit = True
            if hit:
                for b in x.body:
                    out |= {id(y) for y in ast.walk(b)}
    return out


# ------------------------------------------------- possibly-assigned variables


class May(object):
    """forward analysis: the set of local variables some path has assigned"""

    def __init__(self, fn, local):
        self.local = local
        self.bad = []
        self.seen = 0
        self.fn = fn
        a = fn.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for v in (a.vararg, a.kwarg):
            if v is not None:
                start.add(v.arg)
        self.guard = guarded_nodes(fn, ("NameError", "UnboundLocalError", "Exception", "BaseException", None))
        self.loops = []
        self.block(fn.body, start)

    def use(self, e, cur):
        """reads of an expression; comprehension variables are their own scope"""
        if e is None or cur is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id in self.local:
                self.seen += 1
                if e.id not in cur and id(e) not in self.guard:
                    self.bad.append(e)
            return
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            inner = set()
            for k, g in enumerate(e.generators):
                self.hide(g.iter, cur, inner)
                inner |= set(targets(g.target))
                for c in g.ifs:
                    self.hide(c, cur, inner)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.hide(x, cur, inner)
            return
        if isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x is not None]:
                self.use(d, cur)
            return
        if isinstance(e, ast.NamedExpr):
            self.use(e.value, cur)
            cur.add(e.target.id)
            return
        for x in ast.iter_child_nodes(e):
            self.use(x, cur)

    def hide(self, e, cur, inner):
        self.use(e, set(cur) | inner)

    def store(self, t, cur):
        if isinstance(t, ast.Name):
            cur.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(x, cur)
        elif isinstance(t, ast.Starred):
            self.store(t.value, cur)
        else:
            self.use(t, cur)

    def block(self, body, cur):
        """None: the end of the block is not reached"""
        for x in body:
            if cur is None:
                return None
            cur = self.stmt(x, cur)
        return cur

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, x, cur):
        if isinstance(x, ast.Assign):
            self.use(x.value, cur)
            for t in x.targets:
                self.store(t, cur)
        elif isinstance(x, ast.AugAssign):
            if isinstance(x.target, ast.Name):
                self.use(ast.copy_location(ast.Name(x.target.id, ast.Load()), x.target), cur)
            else:
                self.use(x.target, cur)
            self.use(x.value, cur)
            self.store(x.target, cur)
        elif isinstance(x, ast.AnnAssign):
            if x.value is not None:
                self.use(x.value, cur)
                self.store(x.target, cur)
        elif isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in x.args.defaults + [q for q in x.args.kw_defaults if q is not None] + x.decorator_list:
                self.use(d, cur)
            cur.add(x.name)
        elif isinstance(x, ast.ClassDef):
            for d in x.bases + x.decorator_list:
                self.use(d, cur)
            cur.add(x.name)
        elif isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                cur.add(a.asname or a.name.split(".")[0])
        elif isinstance(x, ast.Return):
            self.use(x.value, cur)
            return None
        elif isinstance(x, ast.Raise):
            self.use(x.exc, cur)
            self.use(x.cause, cur)
            return None
        elif isinstance(x, ast.If):
            self.use(x.test, cur)
            return self.join(self.block(x.body, set(cur)), self.block(x.orelse, set(cur)))
        elif isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(x, ast.While):
                inner = set(cur) | bound(x.body)[0] | {q.target.id for q in ast.walk(x.test) if isinstance(q, ast.NamedExpr)}
                self.use(x.test, set(cur) | bound(x.body)[0])
            else:
                self.use(x.iter, cur)
                inner = set(cur) | bound(x.body)[0] | set(targets(x.target))
                if not isinstance(x.target, (ast.Name, ast.Tuple, ast.List)):
                    self.use(x.target, cur)
            # a name assigned later in the body may hold the value of the previous round
            first = self.first_round(x, cur)
            self.block(x.body, set(inner))
            out = set(inner) | first
            r = self.block(x.orelse, set(out)) if x.orelse else out
            return self.join(out, r)
        elif isinstance(x, ast.Try) or type(x).__name__ == "TryStar":
            start = set(cur)
            some = set(cur) | bound(x.body)[0]
            end = self.block(x.body, set(cur))
            if end is not None and x.orelse:
                end = self.block(x.orelse, end)
            for h in x.handlers:
                c = set(some)
                self.use(h.type, c)
                if h.name:
                    c.add(h.name)
                end = self.join(end, self.block(h.body, c))
            if x.finalbody:
                fin = set(some)
                for h in x.handlers:
                    fin |= bound(h.body)[0]
                fin |= bound(x.orelse)[0]
                f = self.block(x.finalbody, fin if end is None else fin | end)
                if f is None or end is None:
                    return None
                return end | bound(x.finalbody)[0]
            return end
        elif isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                self.use(i.context_expr, cur)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, cur)
            before = set(cur)
            end = self.block(x.body, cur)
            # a context manager may swallow the exception
            return end if end is not None else before | bound(x.body)[0]
        elif isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), cur)
                    cur.discard(t.id)
                else:
                    self.use(t, cur)
        elif isinstance(x, (ast.Break, ast.Continue)):
            return None
        elif type(x).__name__ == "Match":
            self.use(x.subject, cur)
            end = set(cur)
            for k in x.cases:
                c = set(cur) | bound([k.pattern])[0]
                self.use(k.guard, c)
                end = self.join(end, self.block(k.body, c))
            return end
        elif isinstance(x, ast.Assert):
            self.use(x.test, cur)
            self.use(x.msg, set(cur))
        elif isinstance(x, ast.Expr):
            self.use(x.value, cur)
        return cur

    def first_round(self, x, cur):
        """the first round of a loop finds nothing of a previous round: reads in the
        straight-line beginning of the body, before any branch"""
        c = set(cur)
        if not isinstance(x, ast.While):
            c |= set(targets(x.target))
        for y in x.body:
            if not isinstance(y, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr, ast.Import, ast.ImportFrom)):
                if isinstance(y, ast.If):
                    self.use(y.test, c)
                break
            self.stmt(y, c)
        return set(cur)


def functions(tree):
    """(qualified name, node, class or None)"""
    def walk(body, pre, cls):
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield pre + x.name, x, cls
                yield from walk(x.body, pre + x.name + ".", None)
            elif isinstance(x, ast.ClassDef):
                yield from walk(x.body, pre + x.name + ".", x)
            elif isinstance(x, (ast.If, ast.Try, ast.For, ast.While, ast.With)):
                for f in ("body", "orelse", "finalbody"):
                    yield from walk(getattr(x, f, []), pre, cls)
                for h in getattr(x, "handlers", []):
                    yield from walk(h.body, pre, cls)
    yield from walk(tree.body, "", None)


def locals_(pkg, mod):
    for q, f, cls in functions(pkg.trees[mod]):
        b, star = bound(f.body)
        for x in shallow(f.body):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                b -= set(x.names)
        # comprehension variables are bound in their own scope
        own = set()
        for x in shallow(f.body):
            if isinstance(x, ast.comprehension):
                own |= set(targets(x.target))
        assigned = set()
        for x in nocomp(f.body):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                assigned.add(x.id)
        b -= own - assigned
        inner = set()
        for x in ast.walk(f):
            if isinstance(x, ast.Nonlocal):
                inner |= set(x.names)
        a = f.args
        b |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        b -= inner
        m = May(f, b)
        for k in range(m.seen):
            yield "ok", "", "", ""
        done = set()
        for n in m.bad:
            if (n.id, n.lineno) in done:
                continue
            done.add((n.id, n.lineno))
            yield "bad", site(pkg, mod, n, q), "local variable %r is read but no assignment reaches this point" % n.id, ""


def nocomp(body):
    todo = list(body)
    while todo:
        x = todo.pop(0)
        yield x
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            continue
        todo = list(ast.iter_child_nodes(x)) + todo


# ---------------------------------------------------- attributes of modules

_ext = {}


def ext_module(path):
    """(names, complete) of an installed module, from its stub or source"""
    if path in _ext:
        return _ext[path]
    _ext[path] = (set(), False)
    rel = path.replace(".", "/")
    found = None
    for loc in LOCATIONS:
        for cand in (rel + "/__init__.pyi", rel + ".pyi", rel + "/__init__.py", rel + ".py"):
            p = os.path.join(loc, cand)
            if os.path.exists(p):
                found = p
                break
        if found:
            break
    if found is None:
        return _ext[path]
    r = file_names(path, found, 0)
    if found.endswith("i"):
        src = found[:-1]
        if os.path.exists(src):
            r2 = file_names(path, src, 0)
            # the stub decides, but what the source binds exists
            r = (r[0] | r2[0], r[1])
    if found.endswith(("__init__.py", "__init__.pyi")):
        d = os.path.dirname(found)
        sub = set()
        for f in os.listdir(d):
            b = f.split(".")[0]
            if os.path.isdir(os.path.join(d, f)) or f.endswith((".py", ".pyi", ".so")):
                sub.add(b)
        r = (r[0] | sub, r[1])
    _ext[path] = r
    return r


def file_names(path, file, depth):
    try:
        with open(file) as f:
            t = ast.parse(f.read())
    except (OSError, SyntaxError, ValueError):
        return set(), False
    out, star = bound(t.body)
    complete = True
    for x in shallow(t.body):
        if isinstance(x, ast.ImportFrom) and any(a.name == "*" for a in x.names):
            base = path if os.path.basename(file).startswith("__init__") else path.rsplit(".", 1)[0]
            for k in range(x.level - 1):
                base = base.rsplit(".", 1)[0]
            src = (base + "." + x.module if x.module else base) if x.level else x.module
            if depth > 3 or src == path:
                complete = False
                continue
            n, c = ext_module(src)
            out |= n
            complete = complete and bool(n)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("update",) and isinstance(x.func.value, ast.Call):
            complete = False
    return out, complete


def modules(pkg, mod):
    """attributes of modules that do not exist"""
    tree = pkg.trees[mod]
    alias = {}
    multi = set()
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                n = a.asname or a.name.split(".")[0]
                full = a.name if a.asname else a.name.split(".")[0]
                if alias.get(n, full) != full:
                    multi.add(n)
                alias[n] = full
        elif isinstance(x, ast.ImportFrom):
            base = ("allantools" + ("." + x.module if x.module else "")) if x.level else (x.module or "")
            for a in x.names:
                n = a.asname or a.name
                full = base + "." + a.name
                if full in pkg.trees and not (base == "allantools" and shadowed(pkg, a.name)):
                    alias[n] = full
                elif ext_is_module(full):
                    alias[n] = full
                elif base in pkg.trees:
                    names_, star = module_names(pkg, base)
                    if a.name != "*" and a.name not in names_ and not star and full not in pkg.trees:
                        yield "bad", site(pkg, mod, x), "%s is not defined by %s" % (a.name, base), ""
                    elif a.name != "*":
                        yield "ok", "", "", ""
                elif base.split(".")[0] in ("numpy", "scipy", "matplotlib"):
                    names_, complete = ext_module(base)
                    if names_ and complete and a.name != "*" and a.name not in names_ and not in_try(tree, x):
                        yield "bad", site(pkg, mod, x), "%s is not defined by %s" % (a.name, base), ""
                    else:
                        yield "ok", "", "", ""
    # an alias that is also assigned to is not followed
    for x in ast.walk(tree):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)) and x.id in alias:
            multi.add(x.id)
        elif isinstance(x, ast.arg) and x.arg in alias:
            multi.add(x.arg)
        elif isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name in alias:
            multi.add(x.name)
    # attributes that the package itself sets on a module exist
    stores = {(x.value.id, x.attr) for x in ast.walk(tree) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
    guarded = guarded_nodes(tree, ("AttributeError", "Exception", "BaseException", None))
    for x in ast.walk(tree):
        if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
            continue
        chain = []
        y = x
        while isinstance(y, ast.Attribute):
            chain.append(y.attr)
            y = y.value
        if not isinstance(y, ast.Name) or y.id not in alias or y.id in multi or id(x) in guarded or hasattr_guard(tree, x):
            continue
        chain.reverse()
        cur = alias[y.id]
        # only the last attribute of the chain is decided here, the inner ones by their own node
        for a in chain[:-1]:
            cur = cur + "." + a
        if (y.id, chain[-1]) in stores:
            continue
        if cur in pkg.trees:
            names_, star = module_names(pkg, cur)
            if chain[-1] not in names_ and not star and chain[-1] not in BUILTINS and not chain[-1].startswith("__"):
                yield "bad", site(pkg, mod, x), "module %s has no attribute %r" % (cur, chain[-1]), ""
            else:
                yield "ok", "", "", ""
        elif ext_is_module(cur):
            names_, complete = ext_module(cur)
            if names_ and complete and chain[-1] not in names_ and not chain[-1].startswith("__"):
                yield "bad", site(pkg, mod, x), "module %s has no attribute %r" % (cur, chain[-1]), ""
            else:
                yield "ok", "", "", ""
        elif cur in STD:
            import importlib
            try:
                real = importlib.import_module(cur)
            except ImportError:
                continue
            if not hasattr(real, chain[-1]):
                yield "bad", site(pkg, mod, x), "module %s has no attribute %r" % (cur, chain[-1]), ""
            else:
                yield "ok", "", "", ""


STD = ("os", "os.path", "json", "math", "cmath", "warnings", "itertools", "functools", "collections", "copy", "sys", "random", "time", "numbers", "operator", "fractions", "re")


def shadowed(pkg, name):
    """a name of the package that is bound to something other than the module"""
    return False


def ext_is_module(path):
    if path.split(".")[0] not in ("numpy", "scipy", "matplotlib"):
        return False
    rel = path.replace(".", "/")
    return any(os.path.exists(os.path.join(loc, rel + e)) for loc in LOCATIONS for e in ("/__init__.py", ".py", "/__init__.pyi", ".pyi"))


def in_try(tree, node):
    for x in ast.walk(tree):
        if isinstance(x, ast.Try) and x.handlers:
            for b in x.body:
                if any(y is node for y in ast.walk(b)):
                    return True
    return False


def hasattr_guard(tree, node):
    """the attribute is probed with hasattr/getattr somewhere"""
    for x in ast.walk(tree):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("hasattr", "getattr") and len(x.args) > 1 and \
                isinstance(x.args[1], ast.Constant) and x.args[1].value == node.attr:
            return True
    return False


# --------------------------------------------------------------- classes


def find_class(pkg, mod, name):
    for x in pkg.trees.get(mod, ast.Module([], [])).body:
        if isinstance(x, ast.ClassDef) and x.name == name:
            return x
    return None


def mro(pkg, mod, name):
    """[(module, class node)] of a class and its bases; linear"""
    out = []
    todo = [(mod, name)]
    while todo:
        m, n = todo.pop(0)
        c = find_class(pkg, m, n)
        if c is None or any(c is q[1] for q in out):
            continue
        out.append((m, c))
        for b in c.bases:
            if isinstance(b, ast.Name):
                todo.append((m, b.id))
    return out


def closed(pkg, mod, cls):
    """all bases are known"""
    for b in cls.bases + [k.value for k in cls.keywords]:
        if isinstance(b, ast.Name) and b.id == "object":
            continue
        if isinstance(b, ast.Name):
            c = find_class(pkg, mod, b.id)
            if c is None or not closed(pkg, mod, c):
                return False
            continue
        return False
    return not cls.decorator_list


def family(pkg, mod, cls):
    """bases and subclasses in this module"""
    fam = [c for _, c in mro(pkg, mod, cls.name)]
    for x in pkg.trees[mod].body:
        if isinstance(x, ast.ClassDef) and any(c is cls for _, c in mro(pkg, mod, x.name)):
            for _, c in mro(pkg, mod, x.name):
                if c not in fam:
                    fam.append(c)
    return fam


def selfs(pkg, mod):
    tree = pkg.trees[mod]
    outside = {x.attr for m in pkg.trees for x in ast.walk(pkg.trees[m]) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
    for cls in [x for x in tree.body if isinstance(x, ast.ClassDef)]:
        if not closed(pkg, mod, cls):
            continue
        fam = family(pkg, mod, cls)
        if not all(closed(pkg, mod, c) for c in fam):
            continue
        have = set(outside)
        dyn = False
        for c in fam:
            have |= bound(c.body)[0]
            for x in ast.walk(c):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("setattr", "vars"):
                    dyn = True
                if isinstance(x, ast.Attribute) and x.attr == "__dict__":
                    dyn = True
        if dyn or {"__getattr__", "__getattribute__", "__slots__"} & have:
            continue
        for f in cls.body:
            if not isinstance(f, ast.FunctionDef) or not f.args.args:
                continue
            if any("static" in ast.unparse(d) or "classmethod" in ast.unparse(d) for d in f.decorator_list):
                continue
            me = f.args.args[0].arg
            if any(isinstance(x, ast.Name) and x.id == me and isinstance(x.ctx, ast.Store) for x in ast.walk(f)):
                continue
            guarded = guarded_nodes(f, ("AttributeError", "Exception", "BaseException", None))
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name) and x.value.id == me:
                    if x.attr in have or x.attr.startswith("__") or id(x) in guarded or hasattr_guard(cls, x):
                        yield "ok", "", "", ""
                    else:
                        yield "bad", site(pkg, mod, x, cls.name + "." + f.name), "attribute %r of self is never assigned" % x.attr, ""


# ------------------------------------------------------------- signatures


def bindable(f, npos, kws, skip=0):
    """None, or why the call cannot be bound"""
    a = f.args
    names_ = [x.arg for x in a.posonlyargs + a.args][skip:]
    nonly = max(0, len(a.posonlyargs) - skip)
    if npos > len(names_) and a.vararg is None:
        return "takes %d positional arguments, %d given" % (len(names_), npos)
    got = set(names_[:npos])
    kwonly = [x.arg for x in a.kwonlyargs]
    for k in kws:
        if k in got:
            return "multiple values for %r" % k
        if k not in names_[nonly:] and k not in kwonly and a.kwarg is None:
            return "no parameter %r" % k
        got.add(k)
    nd = len(a.defaults)
    req = names_[:len(names_) - nd] if nd else names_
    for n in req:
        if n not in got:
            return "argument %r missing" % n
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in got:
            return "keyword argument %r missing" % x.arg
    return None


def plain(f):
    return all(ast.unparse(d).split("(")[0] in ("lru_cache", "functools.lru_cache", "cache", "functools.cache", "staticmethod", "classmethod") for d in f.decorator_list)


def single(tree, name):
    """the only binding of this name in a module, when it is a def or class"""
    hits = [x for x in tree.body if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name]
    if len(hits) != 1:
        return None
    for x in ast.walk(tree):
        if isinstance(x, ast.Global) and name in x.names:
            return None
    for x in shallow(tree.body):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
            return None
        if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == name and x is not hits[0]:
            return None
        if isinstance(x, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name) == name for a in x.names):
            return None
    return hits[0]


def resolve(pkg, mod, name, depth=0):
    """(module, def) of a name used in a module"""
    if depth > 4:
        return None
    t = pkg.trees.get(mod)
    if t is None:
        return None
    d = single(t, name)
    if d is not None:
        return mod, d
    for x in t.body:
        if isinstance(x, ast.ImportFrom) and (x.level or (x.module or "").split(".")[0] == "allantools"):
            base = ("allantools" + ("." + x.module if x.module else "")) if x.level else x.module
            for a in x.names:
                if (a.asname or a.name) == name:
                    return resolve(pkg, base, a.name, depth + 1)
    return None


def arity(pkg, mod):
    tree = pkg.trees[mod]
    mods = {}
    for x in ast.walk(tree):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.name in pkg.trees:
                    mods[a.asname or a.name] = a.name
        elif isinstance(x, ast.ImportFrom) and x.level:
            base = "allantools" + ("." + x.module if x.module else "")
            for a in x.names:
                if base + "." + a.name in pkg.trees:
                    mods[a.asname or a.name] = base + "." + a.name
    guarded = guarded_nodes(tree, ("TypeError", "Exception", "BaseException", None))
    for q, f, cls in functions(tree):
        own = bound(f.body)[0] | {x.arg for x in ast.walk(f) if isinstance(x, ast.arg)}
        me = f.args.args[0].arg if cls is not None and f.args.args and not any("static" in ast.unparse(d) for d in f.decorator_list) else None
        for x in shallow(f.body):
            if not isinstance(x, ast.Call) or id(x) in guarded:
                continue
            if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
                continue
            hit, skip = None, 0
            if isinstance(x.func, ast.Name) and x.func.id not in own:
                hit = resolve(pkg, mod, x.func.id)
            elif isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name):
                v = x.func.value.id
                if v in mods and v not in own - {v}:
                    hit = resolve(pkg, mods[v], x.func.attr)
                elif me is not None and v == me and closed(pkg, mod, cls):
                    for m_, c in mro(pkg, mod, cls.name):
                        ms = [y for y in c.body if isinstance(y, ast.FunctionDef) and y.name == x.func.attr]
                        if ms:
                            hit = (m_, ms[0]) if len(ms) == 1 else None
                            skip = 0 if hit and any("static" in ast.unparse(d) for d in ms[0].decorator_list) else 1
                            break
                    # an instance attribute of that name is called instead
                    if hit and any(isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == x.func.attr for y in ast.walk(tree)):
                        hit = None
            if hit is None:
                continue
            d = hit[1]
            if isinstance(d, ast.ClassDef):
                if not closed(pkg, hit[0], d):
                    continue
                ini = None
                for m_, c in mro(pkg, hit[0], d.name):
                    ini = ini or next((y for y in c.body if isinstance(y, ast.FunctionDef) and y.name == "__init__"), None)
                if ini is None or any(isinstance(y, ast.FunctionDef) and y.name == "__new__" for y in d.body):
                    continue
                d, skip = ini, 1
            if not plain(d):
                continue
            why = bindable(d, len(x.args), [k.arg for k in x.keywords], skip)
            if why:
                yield "bad", site(pkg, mod, x, q), "call of %s: %s" % (d.name, why), ""
            else:
                yield "ok", "", "", ""
