"""Frame conditions read off the source: which attributes of which classes a function may write (assign, or change the container they hold),
which of its parameters, and that nothing outlives the objects of one parser (module variables, class attributes, default values, caches).
Syntactic and flow-insensitive; aliases are followed through local variables, properties, return values and parameters, by name."""
import ast, builtins, enum, importlib, os, sys

MUT = {"append", "extend", "insert", "pop", "popitem", "clear", "update", "setdefault", "add", "discard", "remove", "sort", "reverse", "appendleft",
       "popleft", "extendleft", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__", "move_to_end", "rotate", "subtract"}
DEEP = {"get", "values", "items", "setdefault", "pop", "popitem", "__getitem__", "popleft"}
CACHES = {"cache", "lru_cache", "singledispatch", "memoize", "memoized", "cached"}
ANY, ROOT = "*", "<the object itself>"
PLAIN = {"str", "int", "bool", "float", "None", "bytes"}


class Fn:
    def __init__(self, mod, node, cls, outer, qual):
        self.mod, self.node, self.cls, self.outer, self.qual = mod, node, cls, outer, qual
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]
        self.decos = [ast.unparse(d.func if isinstance(d, ast.Call) else d).split(".")[-1] for d in node.decorator_list]
        self.name = node.name
        self.method = cls is not None and outer is None and "staticmethod" not in self.decos
        self.me = self.params[0] if self.method and self.params else None
        self.isclass = "classmethod" in self.decos
        self.loops, self.globals, self.nonlocals, self.binds, self.locals = set(), set(), set(), {}, set(self.params + self.kwonly)
        self.inner = []

    def self_of(self):
        """the name of self visible here and the class it is of (closures see the one of the method around them)"""
        f = self
        while f is not None:
            if f.me is not None:
                return f.me, f.cls, f.isclass
            f = f.outer
        return None, None, False


def own(node):
    """nodes of a function without those of functions defined in it (lambdas and comprehensions belong to it)"""
    todo = list(node.body) + node.args.defaults[:0]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Frame:
    def __init__(self, root):
        self.fns, self.classes, self.modules, self.bases = [], {}, {}, {}
        for d, _, fs in sorted(os.walk(root)):
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    name = os.path.relpath(p, os.path.dirname(root))[:-3].replace(os.sep, ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    try:
                        tree = ast.parse(open(p, encoding="utf-8").read())
                    except (SyntaxError, ValueError):
                        continue
                    self.load(name, tree)
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f.name, []).append(f)
        for f in self.fns:
            self.scan(f)
        self.loads = {n.attr for f in self.fns for n in own(f.node) if isinstance(n, ast.Attribute)}
        self.analyse()

    # ---------------------------------------------------------------- reading
    def load(self, mod, tree):
        names = {}
        self.modules[mod] = names
        for n in ast.walk(ast.Module([x for x in tree.body if not isinstance(x, (ast.FunctionDef, ast.ClassDef))], [])):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names[n.id] = n
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    names[(a.asname or a.name).split(".")[0]] = n

        def visit(body, cls, outer, qual):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Fn(mod, n, cls, outer, qual + n.name)
                    self.fns.append(f)
                    if outer is not None:
                        outer.inner.append(f)
                    if outer is None and cls is None:
                        names[n.name] = n
                    for s in own(n):
                        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            visit([s], cls, f, f.qual + ".")
                elif isinstance(n, ast.ClassDef):
                    if outer is None and cls is None:
                        names[n.name] = n
                    self.classes.setdefault(n.name, []).append((mod, n))
                    self.bases.setdefault(n.name, set()).update(ast.unparse(b).split(".")[-1].split("[")[0] for b in n.bases)
                    visit(n.body, n.name, None, qual + n.name + ".")
                elif isinstance(n, (ast.If, ast.Try, ast.With)) and outer is None:
                    main = isinstance(n, ast.If) and "__main__" in ast.unparse(n.test)
                    if not main:
                        visit([x for x in ast.iter_child_nodes(n) if isinstance(x, ast.stmt)], cls, outer, qual)
        visit(tree.body, None, None, "")

    def scan(self, f):
        """local names and what they are bound to"""
        def bind(t, v):
            if isinstance(t, ast.Name):
                f.locals.add(t.id)
                f.binds.setdefault(t.id, []).append(v)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, e in enumerate(t.elts):
                    bind(e.value if isinstance(e, ast.Starred) else e, v.elts[i] if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else v)
            elif isinstance(t, ast.Starred):
                bind(t.value, v)
        for n in own(f.node):
            if isinstance(n, ast.Global):
                f.globals.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                f.nonlocals.update(n.names)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                f.locals.add(n.target.id)
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("list", "sorted", "reversed", "enumerate", "zip", "iter", "tuple", "set") and it.args:
                    it = it.args[0]
                bind(n.target, it)
                f.loops.update(x.id for x in ast.walk(n.target) if isinstance(x, ast.Name))
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                f.locals.add(n.name)
            elif isinstance(n, ast.Lambda):
                f.locals.update(x.arg for x in n.args.posonlyargs + n.args.args + n.args.kwonlyargs)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                f.locals.add(n.name)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                f.locals.update((a.asname or a.name).split(".")[0] for a in n.names)
        f.locals -= f.globals | f.nonlocals

    # ---------------------------------------------------------------- classes
    def above(self, c, seen=None):
        seen = set() if seen is None else seen
        if c not in seen:
            seen.add(c)
            for b in self.bases.get(c, ()):
                self.above(b, seen)
        return seen

    def related(self, c):
        return self.above(c) | {d for d in self.bases if c in self.above(d)}

    # ---------------------------------------------------------------- what an expression may be (part of)
    def roots(self, f, e, seen=frozenset()):
        if e is None or len(seen) > 40:
            return set()
        key = (id(f), id(e))
        if key in seen:
            return set()
        seen = seen | {key}
        if isinstance(e, ast.Name):
            g, me = f, f.self_of()
            if me[0] == e.id:
                return {("classattr", me[1], "")} if me[2] else set()
            while g is not None:
                if e.id in g.locals:
                    out = set()
                    if e.id in g.params + g.kwonly:
                        out.add(("param", g, e.id))
                    for v in g.binds.get(e.id, ()):
                        out |= self.roots(g, v, seen)
                    if g is not f:
                        out.add(("outer", g, e.id))
                    return out
                g = g.outer
            if e.id in self.modules.get(f.mod, {}) or not hasattr(builtins, e.id):
                return {("global", f.mod, e.id)}
            return set()
        if isinstance(e, ast.Attribute):
            me, c, isc = f.self_of()
            v = e.value
            if isinstance(v, ast.Name) and v.id == me and not isc:
                return self.attr(f, c, e.attr, seen)
            if self.is_class(f, v):
                return {("classattr", self.is_class(f, v), e.attr)}
            if isinstance(v, ast.Name) and self.is_module(f, v.id):
                return {("global", self.is_module(f, v.id), e.attr)}
            if "log" in ast.unparse(v).lower():      # the logging module's own objects
                return set()
            return self.attr(f, None, e.attr, seen)
        if isinstance(e, ast.Subscript):
            return self.roots(f, e.value, seen)
        if isinstance(e, ast.Starred):
            return self.roots(f, e.value, seen)
        if isinstance(e, (ast.IfExp,)):
            return self.roots(f, e.body, seen) | self.roots(f, e.orelse, seen)
        if isinstance(e, ast.BoolOp):
            return set().union(*(self.roots(f, v, seen) for v in e.values))
        if isinstance(e, ast.NamedExpr):
            return self.roots(f, e.value, seen)
        if isinstance(e, ast.Call):
            out = set()
            if isinstance(e.func, ast.Attribute) and e.func.attr in DEEP:
                out |= self.roots(f, e.func.value, seen)
            if isinstance(e.func, ast.Name) and e.func.id in ("getattr",) and len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                out |= self.attr(f, None, e.args[1].value, seen)
            for g in self.callees(f, e):
                for n in own(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        for r in self.roots(g, n.value, seen):
                            if r[0] == "param":
                                a = self.argument(g, e, r[2])
                                if a is not None:
                                    out |= self.roots(f, a, seen)
                            elif r[0] != "outer":
                                out.add(r)
            return out
        return set()

    def attr(self, f, c, a, seen):
        out = {("attr", c, a)}
        for g in self.byname.get(a, ()):
            if "property" in g.decos and (c is None or g.cls in self.related(c)):
                for n in own(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= {r for r in self.roots(g, n.value, seen) if r[0] != "param"}
        return out

    def is_class(self, f, v):
        me, c, isc = f.self_of()
        if isinstance(v, ast.Name):
            if v.id == me:
                return c if isc else None
            return v.id if v.id in self.classes and not any(v.id in g.params for g in self.chain(f)) else None
        if isinstance(v, ast.Attribute) and v.attr == "__class__":
            return c or "?"
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "type" and len(v.args) == 1:
            return c or "?"
        return None

    def chain(self, f):
        while f is not None:
            yield f
            f = f.outer

    def is_module(self, f, name):
        if any(name in g.params for g in self.chain(f)):
            return None
        m = sys.modules.get(f.mod)
        o = getattr(m, name, None) if m is not None else None
        return o.__name__ if type(o) is type(sys) else None

    # ---------------------------------------------------------------- calls
    def callees(self, f, call):
        fn = call.func
        me, c, isc = f.self_of()
        if isinstance(fn, ast.Name):
            if fn.id in self.classes:
                return [g for g in self.byname.get("__init__", ()) if g.cls in self.above(fn.id)]
            return [g for g in self.byname.get(fn.id, ()) if g.cls is None or g.outer is not None]
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Name) and fn.value.id == me:
                return [g for g in self.byname.get(fn.attr, ()) if g.method and g.cls in self.related(c)]
            if isinstance(fn.value, ast.Call) and ast.unparse(fn.value.func) == "super":
                return [g for g in self.byname.get(fn.attr, ()) if g.method and c and g.cls in self.above(c)]
            k = self.is_class(f, fn.value)
            if k:
                return [g for g in self.byname.get(fn.attr, ()) if g.cls in self.related(k)]
            if isinstance(fn.value, ast.Name) and self.is_module(f, fn.value.id):
                return [g for g in self.byname.get(fn.attr, ()) if g.cls is None]
            if fn.attr in MUT or fn.attr in DEEP:
                return [g for g in self.byname.get(fn.attr, ()) if g.method and g.params[1:]] if fn.attr not in ("get", "update", "add", "insert", "append", "items") else []
            return [g for g in self.byname.get(fn.attr, ()) if g.cls is not None and g.outer is None]
        return []

    def argument(self, g, call, param):
        """the expression given for a parameter"""
        for k in call.keywords:
            if k.arg == param:
                return k.value
        if param in g.params:
            i = g.params.index(param)
            if g.me is not None and not (isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name) and call.func.value.id in self.classes and not g.isclass):
                i -= 1
            if 0 <= i < len(call.args) and not any(isinstance(a, ast.Starred) for a in call.args[:i + 1]):
                return call.args[i]
        return None

    # ---------------------------------------------------------------- writes
    def analyse(self):
        self.writes = []        # (function, kind, root, line, right hand side)
        for f in self.fns:
            self.collect(f)
        # parameters changed, through calls
        self.pmut = {(r[1], r[2]) for f, k, r, l, v in self.writes if k == "change" and r[0] == "param"}
        while True:
            new = []
            for f in self.fns:
                for n in own(f.node):
                    if isinstance(n, ast.Call):
                        for g in self.callees(f, n):
                            for p in g.params + g.kwonly:
                                if (g, p) in self.pmut:
                                    a = self.argument(g, n, p)
                                    for r in self.roots(f, a) if a is not None else ():
                                        w = (f, "change", r, n.lineno, None)
                                        if (f, "change", r) not in self.known:
                                            self.known.add((f, "change", r))
                                            new.append(w)
            if not new:
                break
            self.writes += new
            self.pmut |= {(r[1], r[2]) for f, k, r, l, v in new if r[0] == "param"}

    def collect(self, f):
        self.known = getattr(self, "known", set())

        def put(kind, r, line, value=None):
            self.known.add((f, kind, r))
            self.writes.append((f, kind, r, line, value))

        def store(t, value):
            if isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    store(e, None)
            elif isinstance(t, ast.Starred):
                store(t.value, None)
            elif isinstance(t, ast.Attribute):
                me, c, isc = f.self_of()
                k = self.is_class(f, t.value)
                if k:
                    put("rebind", ("classattr", k, t.attr), t.lineno, value)
                elif isinstance(t.value, ast.Name) and t.value.id == me:
                    put("rebind", ("attr", c, t.attr), t.lineno, value)
                elif isinstance(t.value, ast.Name) and (self.is_module(f, t.value.id) or any(r[0] == "global" and r[2] in self.modules[f.mod] and
                                                        isinstance(self.modules[f.mod][r[2]], ast.FunctionDef) for r in self.roots(f, t.value))):
                    put("rebind", ("global", f.mod, ast.unparse(t)), t.lineno, value)
                else:
                    put("rebind", ("attr", None, t.attr), t.lineno, value)
                    for r in self.roots(f, t.value):
                        if r[0] == "global":
                            put("change", r, t.lineno)
            elif isinstance(t, ast.Subscript):
                for r in self.roots(f, t.value):
                    put("change", r, t.lineno)
            elif isinstance(t, ast.Name):
                if t.id in f.globals:
                    put("rebind", ("global", f.mod, t.id), t.lineno, value)
                elif t.id in f.nonlocals:
                    put("rebind", ("outer", f.outer, t.id), t.lineno, value)
        for n in own(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    store(t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                store(n.target, n.value)
            elif isinstance(n, ast.AugAssign):
                store(n.target, None)
                if isinstance(n.target, ast.Name) and (isinstance(n.value, (ast.List, ast.Set, ast.Dict, ast.ListComp, ast.SetComp, ast.DictComp)) or isinstance(n.op, ast.BitOr)
                                                       or isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("list", "set", "dict")):
                    for r in self.roots(f, n.target):
                        if r[0] in ("attr", "global", "classattr"):
                            put("change", r, n.lineno)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                store(n.target, None)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    store(t, None)
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        store(i.optional_vars, None)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT and not (n.func.attr in self.byname and isinstance(n.func.value, ast.Name) and n.func.value.id in f.loops) \
                        and not (self.is_class(f, n.func.value) and n.func.attr in self.byname):
                    for r in self.roots(f, n.func.value):
                        if not (r[0] == "global" and r[2] in ("sys", "os", "logging", "re", "json", "warnings")):
                            put("change", r, n.lineno)
                if isinstance(n.func, ast.Name) and n.func.id in ("next", "setattr", "delattr", "heappush", "heappop") and n.args:
                    if n.func.id in ("setattr", "delattr"):
                        k = self.is_class(f, n.args[0])
                        me, c, isc = f.self_of()
                        for name in self.texts(f, n.args[1]) if len(n.args) > 1 else ["*"]:
                            put("rebind", ("classattr", k, name) if k else ("attr", c if isinstance(n.args[0], ast.Name) and n.args[0].id == me else None, name), n.lineno)
                    for r in self.roots(f, n.args[0]):
                        if r[0] != "param":
                            put("change", r, n.lineno)

    def texts(self, f, e):
        """the texts an expression can be: a constant, or a variable of a loop over constants"""
        if isinstance(e, ast.Constant):
            return [e.value]
        out = []
        for v in f.binds.get(e.id, ()) if isinstance(e, ast.Name) else ():
            for x in v.elts if isinstance(v, (ast.Tuple, ast.List, ast.Set)) else [v]:
                for y in x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]:
                    if isinstance(y, ast.Constant) and isinstance(y.value, str):
                        out.append(y.value)
        return out or ["*"]

    # ---------------------------------------------------------------- results
    def init_only(self):
        """methods that run only while an object is made"""
        out = {f for f in self.fns if f.name == "__init__" and f.method}
        used = {}
        for f in self.fns:
            for n in own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    used.setdefault(n.attr, set()).add(f)
        while True:
            new = {f for f in self.fns if f.method and f not in out and used.get(f.name) and used[f.name] <= out and not f.name.startswith("__") and f.name not in ("clear", "reset")}
            if not new:
                return out
            out |= new

    def quiet(self):
        """functions that run only while an object is made or cleared"""
        out = self.init_only() | {f for f in self.fns if f.method and f.name == "clear"}
        used = {}
        for f in self.fns:
            for n in own(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    used.setdefault(n.attr, set()).add(f)
        while True:
            new = {f for f in self.fns if f.method and f not in out and used.get(f.name) and used[f.name] <= out and not f.name.startswith("__")}
            if not new:
                return out
            out |= new

    def receivers(self):
        """{method: names of the attributes that hold the objects it is called on; ANY when that is not known}"""
        quiet = self.quiet()
        out = {f: set() for f in self.fns if f.method}
        inside = {}
        for g in self.fns:
            me = g.self_of()[0]
            funcs = {id(n.func) for n in own(g.node) if isinstance(n, ast.Call)}
            for n in own(g.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    v = n.func.value
                    for f in self.callees(g, n):
                        if f not in out or g in quiet:
                            continue
                        if isinstance(v, ast.Name) and v.id == me or isinstance(v, ast.Call) and ast.unparse(v.func) == "super":
                            inside.setdefault(f, set()).add(g)
                        elif isinstance(v, ast.Attribute):
                            out[f].add(v.attr)
                        else:
                            r = self.roots(g, v)
                            names = {x[2] for x in r if x[0] == "attr"}
                            out[f] |= names if r and len(names) == len(r) and not (isinstance(v, ast.Name) and v.id in g.loops) else {ANY}
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in funcs:
                    for f in self.byname.get(n.attr, ()):
                        if f in out:
                            if "property" in f.decos and isinstance(n.value, ast.Name) and n.value.id == me:
                                inside.setdefault(f, set()).add(g)
                            elif "property" in f.decos and isinstance(n.value, ast.Attribute):
                                out[f].add(n.value.attr)
                            else:
                                out[f].add(ANY)
        while True:
            more = False
            for f, gs in inside.items():
                for g in gs:
                    while g.outer is not None:
                        g = g.outer
                    new = (out.get(g) or set()) - out[f]
                    if new:
                        out[f] |= new
                        more = True
            if not more:
                return out

    def written(self):
        """{attribute: {class or None: {kind: {attributes holding the object, ANY}}}} of what is written after an object is made, other than by clear"""
        if not hasattr(self, "_written"):
            quiet, rec = self.quiet(), self.receivers()
            quiet |= {f for f in self.fns if f.name.startswith(("set_", "register_")) and f.name not in self.loads}     # settings made by the caller
            out = {}
            for f, kind, r, line, v in self.writes:
                if r[0] == "attr" and f not in quiet:
                    g = f
                    while g.outer is not None:
                        g = g.outer
                    where = rec.get(g, {ANY}) if r[1] is not None else {ANY}
                    out.setdefault(r[2], {}).setdefault(r[1], {}).setdefault(kind, set()).update(where | {ROOT})
            self._written = out
        return self._written

    def of(self, cls, via=None):
        """{attribute: kinds} for one class (by its name), for an object held by the attribute via (ANY: by anything)"""
        out = {}
        rel = self.related(cls)
        for a, m in self.written().items():
            k = {kind for c, v in m.items() if c is None or c in rel for kind, where in v.items() if via in (None, ANY) or via in where or ANY in where}
            if k:
                out[a] = k
        return out

    def mine(self, cls):
        """the attributes among them that are written through self (or cls) in the class or one related to it"""
        rel = self.related(cls)
        return {a for a, m in self.written().items() if any(c in rel for c in m)}

    def once(self, f, r, line, value):
        """an assignment made only while the variable is still None, of a value that depends on nothing but constants"""
        if value is None:
            return False
        me = f.self_of()[0]
        for n in ast.walk(value):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in f.locals and n.id != me:
                return False
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and not f.isclass:
                return False
        for n in own(f.node):
            if isinstance(n, ast.If) and any(x is value for b in n.body for x in ast.walk(b)):
                t = ast.unparse(n.test)
                if t.endswith(" is None") or t.startswith("not "):
                    return True
        return False

    def obligations(self):
        """-> [(function, [what is wrong])]"""
        bad = {}

        def no(f, line, what):
            bad.setdefault(f, []).append("line %s: %s" % (line, what))
        inits = self.init_only()
        for f, kind, r, line, v in self.writes:
            if r[0] == "global" and not self.once(f, r, line, v):
                if isinstance(self.modules.get(r[1], {}).get(r[2].split(".")[0]), (ast.Import, ast.ImportFrom)) and not r[1].startswith("latex2json"):
                    continue
                no(f, line, "changes the module variable %s" % r[2])
            elif r[0] == "classattr" and r[2] and not self.once(f, r, line, v):
                no(f, line, "changes the class attribute %s.%s" % (r[1], r[2]))
            elif r[0] == "outer" and r[1] is not None and (r[1] in inits or self.escapes(r[1], f)):
                no(f, line, "changes the variable %s of the closure made in %s" % (r[2], r[1].qual))
        for f in self.fns:
            if set(f.decos) & CACHES and not self.plain(f):
                no(f, f.node.lineno, "results are cached: what it returns is shared")
            a = f.node.args
            pos = a.posonlyargs + a.args
            for p, d in list(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if isinstance(d, (ast.Dict, ast.List, ast.Set, ast.DictComp, ast.ListComp, ast.Call)) and not (isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] in ("compile", "tuple", "frozenset", "getLogger", "str", "int")):
                    if (f, p) in self.pmut:
                        no(f, d.lineno, "changes the default value of %s" % p)
                    for g, kind, r, line, v in self.writes:
                        if g is f and kind == "rebind" and r[0] == "attr" and v is not None and any(x[0] == "param" and x[2] == p for x in self.roots(f, v)) and "change" in self.of(r[1] or "?").get(r[2], ()):
                            no(f, line, "keeps the default value of %s in %s, which is changed later" % (p, r[2]))
        # class attributes that are changed through self must be made anew by each object
        made = {}
        for f in inits:
            for g, kind, r, line, v in self.writes:
                if g is f and kind == "rebind" and r[0] == "attr":
                    made.setdefault(f.cls, set()).add(r[2])
        for f, kind, r, line, v in self.writes:
            if kind == "change" and r[0] == "attr" and r[1] is not None:
                cl = [(m, n) for c in self.above(r[1]) for m, n in self.classes.get(c, ())]
                at = any(isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and not isinstance(s.value, ast.Constant) and any(isinstance(t, ast.Name) and t.id == r[2] for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
                         for m, n in cl for s in n.body)
                if at and not any(r[2] in made.get(c, ()) for c in self.above(r[1])):
                    no(f, line, "changes the class attribute %s, which all objects share" % r[2])
        # attributes taken from module variables must not be changed in place
        for f, kind, r, line, v in self.writes:
            if kind == "rebind" and r[0] == "attr" and v is not None and r[1] is not None:
                src = [x for x in self.roots(f, v) if x[0] in ("global", "classattr") and x[2]]
                if src and "change" in self.of(r[1]).get(r[2], ()):
                    no(f, line, "keeps %s in %s, which is changed in place" % (src[0][2], r[2]))
        # objects with state that modules and classes keep
        for owner, a, o in self.kept():
            for f in self.fns:
                if any(isinstance(n, ast.Name) and n.id == a and a not in f.locals and (f.mod == owner or f.mod.startswith("latex2json")) or isinstance(n, ast.Attribute) and n.attr == a
                       for n in own(f.node)):
                    no(f, f.node.lineno, "uses %s of %s, an object with state that is not of one instance" % (a, owner))
        return [(f, bad.get(f, [])) for f in self.fns]

    def kept(self):
        """(module or class, name, object) of the objects with state that live outside instances"""
        out = []

        def held(o, depth=0):
            c = type(o)
            if depth > 3:
                return False
            if isinstance(o, (list, tuple, set, frozenset)):
                return any(held(x, depth + 1) for x in list(o)[:200])
            if isinstance(o, dict):
                return any(held(x, depth + 1) for x in list(o.values())[:200])
            if not (c.__module__ or "").startswith("latex2json") or isinstance(o, (type, enum.Enum)):
                return False
            return bool(self.of(c.__name__)) or any(held(x, depth + 1) for x in vars(o).values()) if hasattr(o, "__dict__") else False
        for m in sorted(self.modules):
            mod = sys.modules.get(m)
            for a, o in sorted(vars(mod).items()) if mod is not None else ():
                if a.startswith("__"):
                    continue
                if isinstance(o, type) and o.__module__ == m and not issubclass(o, enum.Enum):
                    out += [(o.__name__, b, x) for b, x in vars(o).items() if not b.startswith("__") and held(x)]
                elif held(o):
                    out.append((m, a, o))
        return out

    def escapes(self, outer, inner):
        """is the function defined in another one kept or returned by it?"""
        names = {g.name for g in self.chain(inner)} | {inner.name}
        for n in own(outer.node):
            v = n.value if isinstance(n, (ast.Return, ast.Assign)) else None
            if v is not None and any(isinstance(x, ast.Name) and x.id in names for x in ([v] + (list(v.elts) if isinstance(v, (ast.Tuple, ast.List)) else []))):
                if isinstance(n, ast.Return) or any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in n.targets):
                    return True
        return False

    def plain(self, f):
        """is what a cached function returns immutable, and does it depend on its arguments only?"""
        r = f.node.returns
        ok = r is not None and all(isinstance(n, (ast.Name, ast.Constant, ast.Attribute, ast.Subscript, ast.BinOp, ast.Load, ast.BitOr, ast.Tuple)) for n in ast.walk(r)) \
            and {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} <= PLAIN | {"Optional", "Tuple", "tuple", "re", "Union", "Pattern", "Match", "frozenset", "FrozenSet"}
        return ok and not f.method


_cache = {}


def frame():
    import latex2json
    root = os.path.dirname(os.path.abspath(latex2json.__file__)) if getattr(latex2json, "__file__", None) else list(latex2json.__path__)[0]
    if root not in _cache:
        _cache[root] = Frame(root)
    return _cache[root]
