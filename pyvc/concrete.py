"""Executable side of the contracts: the same clauses that are proved are compiled to Python and run on the real functions.

Used for (1) the bounded contract checks, (2) throwing away loop-invariant candidates that a sample run refutes
(dropping a candidate is always sound; the remaining ones are still proved)."""
import ast, copy, importlib, itertools, random, sys, types
from . import spec as S
from .calls import _alts

sys.setrecursionlimit(20000)


class _Lazy(ast.NodeTransformer):
    """implies(a, b) -> (not a) or b, so that b is only evaluated where a holds"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "implies" and len(n.args) == 2:
            return ast.copy_location(ast.BoolOp(ast.Or(), [ast.UnaryOp(ast.Not(), n.args[0]), n.args[1]]), n)
        return n


def compile_expr(e):
    e = ast.fix_missing_locations(ast.Expression(_Lazy().visit(copy.deepcopy(e))))
    return compile(e, "<contract>", "eval")


def lazy_spec(sp):
    """recompile an @spec with lazy implies"""
    if getattr(sp, "_lazy", False):
        return
    sp._lazy = True
    t = copy.deepcopy(sp.ast)
    t.decorator_list = []
    t.returns = None
    for a in t.args.args:
        a.annotation = None
    m = ast.fix_missing_locations(ast.Module([_Lazy().visit(t)], []))
    d = {}
    exec(compile(m, "<spec %s>" % sp.name, "exec"), sp.globals, d)
    sp.py = d[sp.name]


def prepare():
    for s in S.SPECS.values():
        lazy_spec(s)


class Skip(Exception):
    pass


# ------------------------------------------------------------------ sample inputs
def gen_type(ty, c, rng, part):
    al = getattr(c.cls, "alphabet", None) or ["{", "}", "\\", " ", "a", "[", "]", "\n", "%", "$", "&"]
    alt = rng.choice(_alts(ty.replace(" ", "")))
    if alt == "str":
        return "".join(rng.choice(al) for _ in range(rng.randrange(0, getattr(c.cls, "maxlen", 9))))
    if alt == "chr":
        return rng.choice([a for a in al if len(a) == 1])
    if alt in ("int", "nat"):
        return rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8] + ([-1] if alt == "int" else []))
    if alt == "bool":
        return rng.random() < 0.5
    if alt == "none":
        return None
    if alt == "inf":
        return float("inf")
    t = ast.parse(alt, mode="eval").body
    if alt == "list":
        alt, t = "list[str]", ast.parse("list[str]", mode="eval").body
    if isinstance(t, ast.Subscript):
        args = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
        if t.value.id == "list":
            return [gen_type(ast.unparse(args[0]), c, rng, part) for _ in range(rng.randrange(0, 4))]
        if t.value.id == "tuple":
            return tuple(gen_type(ast.unparse(a), c, rng, part) for a in args)
    if isinstance(t, ast.Constant):
        return t.value
    raise Skip("no generator for type %s" % ty)


def resolve(c):
    """the real callable: (owner class or None, function)"""
    m = importlib.import_module(c.mod)
    o, parts = m, c.qual.split(".")
    for p in parts[:-1]:
        o = getattr(o, p)
    raw = o.__dict__[parts[-1]] if isinstance(o, type) else getattr(o, parts[-1])
    return (o if isinstance(o, type) else None), raw


def params_of(c):
    from .engine import SRC
    f = SRC.find(c.mod, c.qual)
    ps = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
    return f, ps


def gen_args(c, rng):
    """dict of arguments satisfying requires, or None"""
    if hasattr(c.cls, "sample"):
        return c.cls.sample(rng)
    f, ps = params_of(c)
    out = {}
    g = getattr(c.cls, "gen", {})
    for p in ps:
        if p == "self":
            out[p] = c.cls.make(rng) if hasattr(c.cls, "make") else resolve(c)[0]()
            continue
        if p in g:
            out[p] = g[p](rng, out) if callable(g[p]) else rng.choice(g[p])
            continue
        if p not in c.types:
            raise Skip("untyped parameter %s" % p)
        out[p] = gen_type(c.types[p], c, rng, out)
    return out


class Clauses:
    """compiled clauses of one contract"""

    def __init__(self, c):
        prepare()
        self.c = c
        self.req = [(ast.unparse(e), compile_expr(e)) for e in c.requires]
        self.ens = [(n, ast.unparse(e), compile_expr(e)) for n, e in c.ensures]
        self.onr = [(n, ast.unparse(e), compile_expr(e)) for n, e in c.onraise]

    def ok_pre(self, env):
        return all(eval(k, self.c.globs, env) for _, k in self.req)

    def pre_env(self, args):
        env = {}
        for p, v in args.items():
            if p == "self":
                for a in self.c.attr_types:
                    if hasattr(v, a):
                        env["pre_" + a] = copy.deepcopy(getattr(v, a))
            else:
                env[p] = copy.deepcopy(v)
        return env

    def post_env(self, env, args, result):
        e = dict(env)
        e["result"] = result
        if "self" in args:
            for a in self.c.attr_types:
                if hasattr(args["self"], a):
                    e["post_" + a] = getattr(args["self"], a)
        for p in self.c.mut:
            e[p + "_out"] = args[p]
        return e

    def check(self, args):
        """run the real function once -> None or (clause, explanation); Skip when requires is false"""
        env = self.pre_env(args)
        if not self.ok_pre(env):
            raise Skip("requires")
        owner, fn = resolve(self.c)
        if isinstance(fn, (staticmethod, classmethod)):
            fn = fn.__get__(None, owner)
        from .stmts import exc_class
        try:
            r = fn(**args)
        except Exception as e:
            for x in self.c.raises:
                if isinstance(e, exc_class(x, self.c.mod)):
                    for n, txt, k in self.onr:
                        if not eval(k, self.c.globs, dict(env)):
                            return ("exceptional ensures %s: %s" % (n, txt), "raised %r" % (e,))
                    return None
            return ("no exception", "raised %s: %s" % (type(e).__name__, e))
        if not conforms(r, self.c.returns):
            return ("result type", "declared %s, returned %r" % (self.c.returns, r))
        e2 = self.post_env(env, args, r)
        for n, txt, k in self.ens:
            if not eval(k, self.c.globs, e2):
                return ("ensures %s: %s" % (n, txt), "returned %r" % (r,))
        return None


def conforms(v, ty):
    base = ty.replace(" ", "")
    for a in _alts(base):
        if a in ("any", "unk"):
            return True
        if a == "str" and isinstance(v, str): return True
        if a == "chr" and isinstance(v, str) and len(v) == 1: return True
        if a in ("int", "nat") and isinstance(v, int): return a == "int" or v >= 0
        if a == "bool" and isinstance(v, bool): return True
        if a == "none" and v is None: return True
        if a in ("dict", "emptydict") and isinstance(v, dict): return True
        if a == "list" and isinstance(v, list): return True
        if a == "pat" and hasattr(v, "finditer"): return True
        t = ast.parse(a, mode="eval").body
        if isinstance(t, ast.Subscript):
            args = [ast.unparse(x) for x in (t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice])]
            if t.value.id == "list" and isinstance(v, list) and all(conforms(x, args[0]) for x in v): return True
            if t.value.id == "tuple" and isinstance(v, tuple) and len(v) == len(args) and all(conforms(x, y) for x, y in zip(v, args)): return True
            if t.value.id == "dict" and isinstance(v, dict): return True
            if t.value.id == "obj": return True
        elif not isinstance(t, ast.Name):
            return True
    return False


# ------------------------------------------------------------------ loop-head traces
class _Instr(ast.NodeTransformer):
    def __init__(self):
        self.loops = []

    def visit_While(self, n):
        self.generic_visit(n)
        self.loops.append(n.lineno)
        k = ast.Constant(n.lineno)
        n.test = ast.BoolOp(ast.And(), [ast.Call(ast.Name("__head__", ast.Load()), [k], []), n.test])
        return [ast.Expr(ast.Call(ast.Name("__enter__", ast.Load()), [k], [])), n]

    def visit_For(self, n):
        self.generic_visit(n)
        self.loops.append(n.lineno)
        kind = "count"
        if isinstance(n.iter, ast.Call):
            f = n.iter.func
            nm = f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")
            kind = {"range": "range", "finditer": "finditer"}.get(nm, "count")
        k = ast.Constant(n.lineno)
        n.iter = ast.Call(ast.Name("__iter__", ast.Load()), [k, ast.Constant(kind), n.iter], [])
        return n

    def visit_Lambda(self, n):
        return n


class Stop(Exception):
    pass


def snap(v, memo=None):
    """shallow copy; the same object in several variables stays one object"""
    if isinstance(v, (list, dict, set)):
        if memo is None:
            return copy.copy(v)
        if id(v) not in memo:
            memo[id(v)] = copy.copy(v)
        return memo[id(v)]
    return v


def traces(c, want=300, seed=7, maxheads=800):
    """{loop line: [(params at function entry, locals at loop entry, locals at loop head)]} from sample runs, or {}"""
    if getattr(c.cls, "notrace", False):
        return {}
    try:
        fnode, ps = params_of(c)
        owner, raw = resolve(c)
    except Exception:
        return {}
    fn = copy.deepcopy(fnode)
    fn.decorator_list = []
    ins = _Instr()
    fn = ins.visit(fn)
    if not ins.loops:
        return {}
    heads = {l: [] for l in ins.loops}
    state = dict(entry={}, loop={}, n=0, gh={})

    def env_of(fr):
        memo = {}
        d = {k: snap(v, memo) for k, v in fr.f_locals.items() if not k.startswith("__")}
        s = d.get("self")
        if s is not None:
            for a, v in list(vars(s).items()):
                d["self." + a] = snap(v, memo)
        d.update(state["gh"])
        return d

    def enter(k):
        state["loop"][k] = env_of(sys._getframe(1))

    def rec(k, fr):
        state["n"] += 1
        if state["n"] > 3000:
            raise Stop()
        if len(heads[k]) < maxheads:
            heads[k].append((state["entry"], state["loop"].get(k, {}), env_of(fr)))

    def head(k):
        rec(k, sys._getframe(1))
        return True

    def it(k, kind, seq):
        g = "$k%d" % k
        if kind == "range" and isinstance(seq, range):
            state["gh"][g] = seq.start
        else:
            state["gh"][g] = 0
        first = True
        n = 0
        for x in seq:
            fr = sys._getframe(1)
            if first:
                state["loop"][k] = env_of(fr)
                first = False
            rec(k, fr)
            yield x
            n += 1
            state["gh"][g] = seq.start + n * seq.step if kind == "range" and isinstance(seq, range) else (x.end() if kind == "finditer" else n)
        fr = sys._getframe(1)
        if first:
            state["loop"][k] = env_of(fr)
        rec(k, fr)

    m = importlib.import_module(c.mod)
    g = dict(m.__dict__)
    g.update(__enter__=enter, __head__=head, __iter__=it)
    mod = ast.fix_missing_locations(ast.Module([fn], []))
    d = {}
    try:
        exec(compile(mod, "<trace>", "exec"), g, d)
    except Exception:
        return {}
    f = d[fn.name]
    cl = Clauses(c)
    rng = random.Random(seed)
    done = 0
    for _ in range(want * 20):
        if done >= want:
            break
        try:
            args = gen_args(c, rng)
            if args is None:
                continue
            env = cl.pre_env(args)
            if not cl.ok_pre(env):
                continue
            state.update(entry=env, loop={}, n=0, gh={})
            done += 1
            f(**args)
        except (Skip, NotImplementedError):
            if done == 0 and _ > 50:
                return {}
        except Stop:
            pass
        except RecursionError:
            pass
        except Exception:
            pass
    return heads
