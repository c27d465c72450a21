"""Specification language: pure Python functions (executable) translated to logic.

@spec functions are recursive one-expression definitions; their Python text is executed by the bounded
contract checks and translated to fuel-guarded axioms for the proofs, so there is a single definition.
"""
import ast, inspect, re, textwrap
import z3
from . import logic as L

SPECS = {}
LEMMAS = {}


class SpecError(Exception):
    pass


SORT = {"Str": L.Str, "Int": L.I, "Bool": L.B, "List": L.Lst, "Chr": L.I, "Pat": L.Pat, "Val": L.Val}

# ---- builtin predicates usable in specs, executable versions ---------------------------------------
Str = StrM = str
Int = IntV = IntM = IntF = int
ListS = ListT = list
Bool = bool
List = list
Chr = str
Pat = object
Val = object


def implies(a, b):
    return (not a) or b


def code(s, i):
    return s[i]


def isalpha(c):
    return c.isalpha()


def isspace(c):
    return c.isspace()


def lsp(s):
    return len(s) - len(s.lstrip())


def rsp(s):
    return len(s.rstrip())


def strip(s):
    return s.strip()


def append(l, x):
    return l + [x]


def isinf(x):
    return x == float("inf")


def fin(x):
    return 0 if x == float("inf") else x


def lines(s):
    return s.splitlines()


def joined(l):
    return "".join(l)


def joins(sep, l):
    return sep.join(l)


def rstrip(s):
    return s.rstrip()


def lower(s):
    return s.lower()


def vstr(v):
    return v


def rx(p):
    import re
    return re.compile(p)


def field(name, v):
    return getattr(v, name)


def show(n):
    return str(n)


def reescape(s):
    import re
    return re.escape(s)


def nonempty(p):
    from . import rxfacts
    return rxfacts.facts(p).minw > 0


def find(s, t, k=0):
    return s.find(t, k)


def startswith(s, m, k=0):
    return s.startswith(m, k)


def ends(s, m):
    return s.endswith(m)


def found(p, t, k):
    return p.search(t, k) is not None


def mstart(p, t, k):
    return p.search(t, k).start()


def mend(p, t, k):
    return p.search(t, k).end()


def mfound(p, t, k):
    return p.match(t, k) is not None


def mmend(p, t, k):
    m = p.match(t, k)
    return m.end() if m is not None else k


def mgroup(p, t, k, g):
    m = p.search(t, k)
    return m.group(g) if m is not None else None


def same(a, b):
    """the same list object"""
    return a is b


def last(l):
    """last element of a non-empty list"""
    return l[len(l) - 1]


def setlast(l, v):
    """the list with its last element replaced"""
    return l[:len(l) - 1] + [v]


def tup0(v):
    """first component of a tuple"""
    return v[0]


class SpecFn:
    def __init__(self, fn, abstract=False):
        self.py = fn
        self.abstract = abstract
        self.name = fn.__name__
        src = textwrap.dedent(inspect.getsource(fn))
        t = ast.parse(src).body[0]
        self.ast = t
        body = [s for s in t.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if abstract:
            body = [ast.Return(ast.Constant(0))]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            raise SpecError("spec %s must be a single return" % self.name)
        self.expr = body[0].value
        self.params = [a.arg for a in t.args.args]
        self.sorts = [a.annotation.id for a in t.args.args]
        self.ret = t.returns.id
        self.globals = fn.__globals__
        self.recursive = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == self.name
                             for n in ast.walk(self.expr))
        self.opaque = False
        if abstract:
            self.f = z3.Function("S_" + self.name, *[SORT[s] for s in self.sorts], SORT[self.ret])
        else:
            self.f = z3.Function("S_" + self.name, L.Fuel, *[SORT[s] for s in self.sorts], SORT[self.ret])
        SPECS[self.name] = self

    def __call__(self, *a):
        return self.py(*a)

    def callees(self):
        out = set()
        for n in ast.walk(self.expr):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in SPECS:
                out.add(n.func.id)
        return out

    def scc(self):
        return {n for n in closure_of(self.callees() | {self.name}) if self.name in closure_of(SPECS[n].callees()) or n == self.name}

    def apply(self, args, fuel, scc=None):
        if self.abstract:
            return self.f(*args)
        if self.recursive or self.opaque:
            return self.f(fuel, *args)
        tr = Tr(dict(zip(self.params, [wrap(s, a) for s, a in zip(self.sorts, args)])), fuel, globs=self.globals, scc=scc)
        return unwrap(tr.ev(self.expr), self.ret)

    def axioms(self):
        if self.abstract or (not self.recursive and not self.opaque):
            return []
        vs = [z3.Const("x_" + p, SORT[s]) for p, s in zip(self.params, self.sorts)]
        l = z3.Const("ly", L.Fuel)
        tr = Tr(dict(zip(self.params, [wrap(s, v) for s, v in zip(self.sorts, vs)])), l, globs=self.globals, scc=self.scc())
        body = unwrap(tr.ev(self.expr), self.ret)
        head = self.f(L.Fuel.fs(l), *vs)
        if not self.recursive:
            h0 = self.f(l, *vs)
            return [z3.ForAll([l] + vs, h0 == body, patterns=[h0]), z3.ForAll([l] + vs, head == self.f(l, *vs), patterns=[head])]
        return [z3.ForAll([l] + vs, head == body, patterns=[head]),
                z3.ForAll([l] + vs, head == self.f(l, *vs), patterns=[head])]


def spec(fn=None, decreases=None, opaque=False, abstract=False):
    """opaque: a non-recursive definition kept as a function symbol with a defining axiom instead of being expanded in place"""
    if fn is None:
        def deco(f):
            s = SpecFn(f, abstract)
            s.opaque = opaque
            s.decreases = ast.parse(decreases, mode="eval").body if decreases else None
            return s
        return deco
    return SpecFn(fn)


class T:
    """typed logical term in specs"""
    __slots__ = ("k", "t", "lit", "ref")

    def __init__(self, k, t, lit=None, ref=None):
        self.k, self.t, self.lit, self.ref = k, t, lit, ref

    def __repr__(self):
        return "T(%s,%s)" % (self.k, self.t)


def wrap(sort, t):
    if isinstance(t, T):
        return t
    return T({"Str": "str", "Int": "int", "Bool": "bool", "List": "list", "Chr": "chr", "Pat": "pat", "Val": "val"}[sort], t)


def unwrap(v, sort):
    if sort == "Chr":
        return as_chr(v)
    if sort == "Str":
        return as_str(v)
    if sort == "Val":
        return box(v)
    if sort == "Bool":
        return as_bool(v)
    if sort == "Int" and v.k == "bool":
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    if sort == "List" and v.k == "tuplelit":
        return as_list(v)
    return v.t


LITS = {}


def lit_str(s):
    """term for a literal string, with its defining facts registered in LITFACTS"""
    if s == "":
        return L.sempty
    if len(s) == 1:
        return L.chs(z3.IntVal(ord(s)))
    if s not in LITS:
        c = z3.Const("lit%d" % len(LITS), L.Str)
        LITS[s] = c
    return LITS[s]


def str_parts(t):
    """flatten a concatenation term -> list of literal strings and other terms (adjacent literals joined)"""
    out = []
    inv = {c.get_id(): s for s, c in LITS.items()}

    def go(t):
        if t.decl().name() == "cat":
            go(t.arg(0))
            go(t.arg(1))
            return
        s = "" if t.eq(L.sempty) else inv.get(t.get_id())
        if s is None and t.decl().name() == "chs" and z3.is_int_value(t.arg(0)):
            s = chr(t.arg(0).as_long())
        if s is not None and out and isinstance(out[-1], str):
            out[-1] += s
        elif s is not None:
            out.append(s)
        else:
            out.append(t)
    go(t)
    return out


def same_part(x, y):
    return x.eq(y) if z3.is_expr(x) and z3.is_expr(y) else not z3.is_expr(x) and not z3.is_expr(y) and x == y


PATFACTS = {}


def pat_name(p):
    """name of the constant of a compiled pattern: printable in SMT-LIB, one per text and flags"""
    import hashlib
    return "pat_%s_%s" % ("".join(c for c in p.pattern if c.isascii() and c.isalnum())[:20], hashlib.sha1(("%s %d" % (p.pattern, p.flags)).encode("utf-8", "surrogatepass")).hexdigest()[:12])


def pat_term(s=None, t=None, flags=None):
    """pattern term of a literal pattern text, or of a text term built from literals and re.escape(...) pieces"""
    import re
    if t is not None:
        parts = str_parts(t)
        if len(parts) == 1 and isinstance(parts[0], str):
            s = parts[0]
        elif not parts:
            s = ""
    if s is not None:
        p = re.compile(s)
        c = z3.Const(pat_name(p), L.Pat)
        reg_pat(c, p)
        return c, p
    r = None
    for x in parts:
        x = lit_str(x) if isinstance(x, str) else x
        r = x if r is None else L.cat(r, x)
    c = L.mkpat(r)
    # re.escape(x) is a plain sequence of literals: replacing it by nothing bounds the width from below
    if all(isinstance(x, str) or x.decl().name() == "re_escape" for x in parts) and \
            not any(isinstance(x, str) and x[:1] in "*+?{" and i > 0 for i, x in enumerate(parts)):
        try:
            from . import rxfacts
            if rxfacts.facts(re.compile("".join(x for x in parts if isinstance(x, str)))).minw > 0:
                PATFACTS[c.sexpr()] = L.rx_nonempty(c)
        except re.error:
            pass
    return c, None


def reg_pat(c, p):
    from . import rxfacts
    k = c.sexpr()
    if k not in PATFACTS:
        PATFACTS[k] = L.rx_nonempty(c) if rxfacts.facts(p).minw > 0 else z3.BoolVal(True)


def lit_facts():
    fs = []
    for s, c in LITS.items():
        fs.append(L.slen(c) == len(s))
        for i, ch in enumerate(s):
            fs.append(L.at(c, i) == ord(ch))
    return fs


def char_facts():
    fs = []
    for o in list(range(128)):
        ch = chr(o)
        for p, f in ((L.isws, "isspace"), (L.isalpha, "isalpha"), (L.isdigit, "isdigit"), (L.isupper, "isupper"), (L.islower, "islower")):
            fs.append(p(z3.IntVal(o)) == bool(getattr(ch, f)()))
    return fs


def as_chr(v):
    if v.k == "chr":
        return v.t
    if v.k == "str":
        if v.lit is not None and len(v.lit) == 1:
            return z3.IntVal(ord(v.lit))
        return L.at(v.t, 0)
    raise SpecError("chr expected: %r" % v)


def as_str(v):
    if v.k == "chr":
        return L.chs(v.t)
    if v.k == "str":
        return v.t
    if v.k == "val":
        return L.Val.vs(v.t)
    raise SpecError("str expected: %r" % v)


def as_bool(v):
    if v.k == "bool":
        return v.t
    if v.k == "int":
        return v.t != 0
    if v.k == "str":
        return L.slen(v.t) > 0
    if v.k == "list":
        return L.llen(v.t) > 0
    raise SpecError("bool expected: %r" % v)


def as_list(v):
    if v.k == "list":
        return v.t
    if v.k == "tuplelit":
        t = L.lnil
        for x in v.t:
            t = L.snoc(t, box(x))
        return t
    raise SpecError("list expected %r" % v)


def box(v):
    V = L.Val
    if v.k == "val":
        return v.t
    if v.k == "int":
        return V.vint(v.t)
    if v.k == "bool":
        return V.vbool(v.t)
    if v.k in ("str", "chr"):
        return V.vstr(as_str(v))
    if v.k == "none":
        return V.vnone
    if v.k == "tuplelit":
        return V.vtup(as_list(v))
    if v.k == "list":
        return V.vtup(v.t)
    if v.k == "dict":
        return V.vref(z3.IntVal(v.t[2]))
    raise SpecError("cannot box %r" % v)


EXT = []   # extensionality side facts requested while translating


def eq_terms(a, b):
    """logical equality of two typed terms"""
    for x, y in ((a, b), (b, a)):
        if x.k == "none":
            if y.k == "none":
                return z3.BoolVal(True)
            if y.k == "val":
                return y.t == L.Val.vnone
            return z3.BoolVal(False)
    if a.k == "val" or b.k == "val":
        return box(a) == box(b)
    if a.k == "tuplelit" and b.k == "tuplelit":
        if len(a.t) != len(b.t):
            return z3.BoolVal(False)
        return z3.And([eq_terms(x, y) for x, y in zip(a.t, b.t)])
    if a.k in ("list", "tuplelit") and b.k in ("list", "tuplelit"):
        return as_list(a) == as_list(b)
    if a.k in ("str", "chr") and b.k in ("str", "chr"):
        if a.k == "chr" and (b.k == "chr" or (b.lit is not None and len(b.lit) == 1)):
            return a.t == as_chr(b)
        if b.k == "chr" and a.lit is not None and len(a.lit) == 1:
            return b.t == as_chr(a)
        for x, y in ((a, b), (b, a)):
            if x.k == "str" and x.lit is not None:
                if y.k == "str" and y.lit is not None:
                    return z3.BoolVal(x.lit == y.lit)
                yt = as_str(y)
                return z3.And([L.slen(yt) == len(x.lit)] + [L.at(yt, i) == ord(ch) for i, ch in enumerate(x.lit)])
            if x.k == "chr":
                yt = as_str(y)
                return z3.And(L.slen(yt) == 1, L.at(yt, 0) == x.t)
        ta, tb = as_str(a), as_str(b)
        if ta.eq(tb):
            return z3.BoolVal(True)
        if z3.is_app(ta) and z3.is_app(tb) and ta.decl().name() == tb.decl().name() == "cat":
            # the common front of two concatenations decides nothing: cancelled
            pa, pb = str_parts(ta), str_parts(tb)
            while pa and pb and same_part(pa[0], pb[0]):
                pa, pb = pa[1:], pb[1:]
            while pa and pb and same_part(pa[-1], pb[-1]):
                pa, pb = pa[:-1], pb[:-1]
            if not any(z3.is_expr(x) for x in pa + pb):
                return z3.BoolVal("".join(pa) == "".join(pb))
        d = L.sdiff(ta, tb)
        EXT.append(z3.Or(ta == tb, L.slen(ta) != L.slen(tb),
                         z3.And(0 <= d, d < L.slen(ta), L.at(ta, d) != L.at(tb, d))))
        return ta == tb
    if a.k in ("int", "bool") and b.k in ("int", "bool"):
        x = a.t if a.k == "int" else z3.If(a.t, z3.IntVal(1), z3.IntVal(0))
        y = b.t if b.k == "int" else z3.If(b.t, z3.IntVal(1), z3.IntVal(0))
        if a.k == b.k:
            return a.t == b.t
        return x == y
    if a.k == b.k == "pat":
        return a.t == b.t
    if "inf" in (a.k, b.k):
        return z3.BoolVal(a.k == b.k)
    if {a.k, b.k} <= {"int", "bool", "str", "chr", "list", "tuplelit"}:
        return z3.BoolVal(False)
    raise SpecError("cannot compare %r %r" % (a, b))


class Tr:
    """translate a pure expression under env (name -> T or python const) with given fuel for recursive specs"""

    def __init__(self, env, fuel=None, globs=None, scc=None):
        self.env = env
        self.scc = scc
        self.fuel = fuel if fuel is not None else L.fuel(L.FUEL)
        self.globs = globs or {}

    def bool(self, e):
        return as_bool(self.ev(e))

    def ev(self, e):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise SpecError("spec: unsupported %s" % type(e).__name__)
        return m(e)

    def ev_Constant(self, e):
        return const(e.value)

    def ev_Name(self, e):
        if e.id in self.env:
            v = self.env[e.id]
            return v if isinstance(v, T) else const(v)
        if e.id in self.globs and isinstance(self.globs[e.id], (int, str, bool, type(None), re.Pattern)):
            return const(self.globs[e.id])
        raise SpecError("spec: unknown name %s" % e.id)

    def ev_Tuple(self, e):
        return T("tuplelit", [self.ev(x) for x in e.elts])

    def ev_List(self, e):
        return T("list", as_list(T("tuplelit", [self.ev(x) for x in e.elts])))

    def ev_BoolOp(self, e):
        vs = []
        for x in e.values:              # as in Python: what follows a decided operand is not evaluated
            v = self.bool(x)
            vs.append(v)
            if z3.is_false(v) if isinstance(e.op, ast.And) else z3.is_true(v):
                return T("bool", v)
        return T("bool", z3.And(vs) if isinstance(e.op, ast.And) else z3.Or(vs))

    def ev_UnaryOp(self, e):
        if isinstance(e.op, ast.Not):
            return T("bool", z3.Not(self.bool(e.operand)))
        if isinstance(e.op, ast.USub):
            return T("int", -self.ev(e.operand).t)
        raise SpecError("unary")

    def ev_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, ast.Add):
            if a.k in ("str", "chr") or b.k in ("str", "chr"):
                if a.lit is not None and b.lit is not None:
                    return const(a.lit + b.lit)
                return T("str", L.cat(as_str(a), as_str(b)))
            if a.k in ("list", "tuplelit") and b.k == "tuplelit" or a.k == "list" and b.k == "list":
                if isinstance(e.right, ast.List):
                    t = as_list(a)
                    for x in e.right.elts:
                        t = L.snoc(t, box(self.ev(x)))
                    return T("list", t)
                return T("list", L.lcat(as_list(a), as_list(b)))
        x = a.t if a.k == "int" else z3.If(a.t, z3.IntVal(1), z3.IntVal(0))
        y = b.t if b.k == "int" else z3.If(b.t, z3.IntVal(1), z3.IntVal(0))
        op = {ast.Add: lambda: x + y, ast.Sub: lambda: x - y, ast.Mult: lambda: x * y, ast.Mod: lambda: x % y,
              ast.FloorDiv: lambda: x / y}.get(type(e.op))
        if not op:
            raise SpecError("binop")
        return T("int", op())

    def ev_Compare(self, e):
        out = []
        l = e.left
        a = self.ev(l)
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r)
            out.append(self.cmp(op, a, b))
            a = b
        return T("bool", z3.And(out) if len(out) > 1 else out[0])

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.Is)):
            return eq_terms(a, b)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return z3.Not(eq_terms(a, b))
        x, y = a.t, b.t
        if isinstance(op, ast.Lt): return x < y
        if isinstance(op, ast.LtE): return x <= y
        if isinstance(op, ast.Gt): return x > y
        if isinstance(op, ast.GtE): return x >= y
        if isinstance(op, (ast.In, ast.NotIn)) and b.k == "dict" and a.lit is not None:
            if a.lit in b.t[0]:
                r = b.t[0][a.lit] is not None
            elif b.t[1]:
                raise SpecError("key %r unknown" % a.lit)
            else:
                r = False
            return z3.BoolVal(r == isinstance(op, ast.In))
        if isinstance(op, (ast.In, ast.NotIn)) and b.k == "str" and a.k in ("str", "chr"):
            r = L.sfind(as_str(b), as_str(a), 0) >= 0
            return r if isinstance(op, ast.In) else z3.Not(r)
        if isinstance(op, ast.In) and b.k == "tuplelit":
            return z3.Or([eq_terms(a, z) for z in b.t])
        raise SpecError("cmp %s" % type(op).__name__)

    def ev_IfExp(self, e):
        c = z3.simplify(self.bool(e.test))
        if z3.is_true(c):
            return self.ev(e.body)
        if z3.is_false(c):
            return self.ev(e.orelse)
        return ite(c, self.ev(e.body), self.ev(e.orelse))

    def ev_Subscript(self, e):
        v = self.ev(e.value)
        if v.k == "dict":
            k = e.slice.value if isinstance(e.slice, ast.Constant) else None
            if v.t[0].get(k) is None:
                raise SpecError("key %r not known to be in the dict" % k)
            return v.t[0][k]
        if v.k == "tuplelit":
            i = e.slice.value if isinstance(e.slice, ast.Constant) else None
            if i is None:
                raise SpecError("tuple index")
            return v.t[i]
        if isinstance(e.slice, ast.Slice):
            lo = self.ev(e.slice.lower).t if e.slice.lower else z3.IntVal(0)
            if v.k == "list":
                hi = self.ev(e.slice.upper).t if e.slice.upper else None
                t = v.t if hi is None else L.ltake(v.t, hi)
                return T("list", t if e.slice.lower is None else L.ldrop(t, lo))
            s = as_str(v)
            hi = self.ev(e.slice.upper).t if e.slice.upper else L.slen(s)
            return T("str", L.sub(s, lo, hi))
        i = self.ev(e.slice).t
        if v.k == "str":
            return T("chr", L.at(v.t, i))
        if v.k == "list":
            return T("val", L.lat(v.t, i))
        raise SpecError("subscript %r" % v)

    def ev_Attribute(self, e):
        v = self.ev(e.value)
        if v.k == "dict" and v.t[0].get(e.attr) is not None:
            return v.t[0][e.attr]
        raise SpecError("attribute %s" % e.attr)

    def ev_Call(self, e):
        if not isinstance(e.func, ast.Name):
            raise SpecError("call")
        n = e.func.id
        if n in SPECS:
            s = SPECS[n]
            args = [unwrap(self.ev(a), srt) for a, srt in zip(e.args, s.sorts)]
            fuel = self.fuel
            if self.scc is not None and n not in self.scc:
                if s.recursive or s.opaque:
                    fuel = L.fuel(L.FUEL)
                return wrap(s.ret, s.apply(args, fuel, self.scc))
            return wrap(s.ret, s.apply(args, fuel, self.scc))
        if n == "implies" and z3.is_false(z3.simplify(self.bool(e.args[0]))):
            return T("bool", z3.BoolVal(True))
        a = [self.ev(x) for x in e.args]
        if n == "len":
            if a[0].k == "tuplelit":
                return const(len(a[0].t))
            if a[0].k == "list":
                return T("int", L.llen(a[0].t))
            if a[0].lit is not None:
                return const(len(a[0].lit))
            return T("int", L.slen(as_str(a[0])))
        if n == "implies":
            return T("bool", z3.Implies(as_bool(a[0]), as_bool(a[1])))
        if n == "isspace":
            return T("bool", L.isws(as_chr(a[0])))
        if n == "isalpha":
            return T("bool", L.isalpha(as_chr(a[0])))
        if n == "isdigit":
            return T("bool", L.isdigit(as_chr(a[0])))
        if n == "ord":
            return T("int", as_chr(a[0]))
        if n == "field":
            return T("str", L.field(a[0].lit)(box(a[1])))
        if n == "show":             # str() of an integer
            x = z3.simplify(a[0].t)
            return const(str(x.as_long())) if z3.is_int_value(x) else T("str", L.i2s(a[0].t))
        if n == "chr":
            return T("chr", a[0].t)
        if n == "lsp":
            return T("int", L.lsp(as_str(a[0])))
        if n == "rsp":
            return T("int", L.rsp(as_str(a[0])))
        if n == "lower":
            return T("str", L.slower(as_str(a[0])))
        if n == "strip":
            return T("str", L.sstrip(as_str(a[0])))
        if n == "rstrip":
            s = as_str(a[0])
            return T("str", L.sub(s, 0, L.rsp(s)))
        if n == "append":
            return T("list", L.snoc(as_list(a[0]), box(a[1])))
        if n == "joins":
            return T("str", L.joinS(as_str(a[0]), as_list(a[1])))
        if n == "joined":
            return T("str", L.joinE(as_list(a[0])))
        if n == "rx":
            if a[0].k == "pat":
                if a[0].t.sexpr() in PATFACTS:
                    EXT.append(PATFACTS[a[0].t.sexpr()])
                return a[0]
            c, _ = pat_term(s=a[0].lit) if a[0].lit is not None else pat_term(t=as_str(a[0]))
            k = c.sexpr()
            if k in PATFACTS:
                EXT.append(PATFACTS[k])
            return T("pat", c)
        if n == "reescape":
            return T("str", L.re_escape(as_str(a[0])))
        if n == "nonempty":
            if a[0].t.sexpr() in PATFACTS:
                EXT.append(PATFACTS[a[0].t.sexpr()])
            return T("bool", L.rx_nonempty(a[0].t))
        if n == "find":
            a = [self.ev(x) for x in e.args]
            return T("int", L.sfind(as_str(a[0]), as_str(a[1]), a[2].t if len(a) > 2 else z3.IntVal(0)))
        if n == "startswith":
            s, m = as_str(a[0]), a[1]
            k = a[2].t if len(a) > 2 else z3.IntVal(0)
            if m.lit is not None:
                return T("bool", z3.And([L.slen(s) >= k + len(m.lit)] + [L.at(s, k + i) == ord(ch) for i, ch in enumerate(m.lit)]))
            return T("bool", z3.And(k + L.slen(as_str(m)) <= L.slen(s), eq_terms(T("str", L.sub(s, k, k + L.slen(as_str(m)))), m)))
        if n == "ends":
            s, m = as_str(a[0]), as_str(a[1])
            return T("bool", z3.And(L.slen(m) <= L.slen(s), eq_terms(T("str", L.sub(s, L.slen(s) - L.slen(m), L.slen(s))), a[1])))
        if n in ("found", "mstart", "mend"):
            f = {"found": L.rx_found, "mstart": L.rx_start, "mend": L.rx_end}[n]
            return T("bool" if n == "found" else "int", f(a[0].t, z3.IntVal(1), as_str(a[1]), a[2].t))
        if n in ("mfound", "mmend"):
            f = {"mfound": L.rx_found, "mmend": L.rx_end}[n]
            return T("bool" if n == "mfound" else "int", f(a[0].t, z3.IntVal(0), as_str(a[1]), a[2].t))
        if n == "same":
            return T("bool", z3.BoolVal(a[0].ref is not None and a[0].ref == a[1].ref))
        if n == "mgroup":
            x = (a[0].t, z3.IntVal(1), as_str(a[1]), a[2].t, a[3].t)
            return T("val", z3.If(L.rx_gset(*x), L.Val.vstr(L.sub(as_str(a[1]), L.rx_gs(*x), L.rx_ge(*x))), L.Val.vnone))
        if n == "last":
            l = as_list(a[0])
            return T("val", L.lat(l, L.llen(l) - 1))
        if n == "setlast":
            return T("list", L.snoc(L.linit(as_list(a[0])), box(a[1])))
        if n == "tup0":
            return T("val", L.lat(L.Val.vt(box(a[0])), z3.IntVal(0)))
        if n == "lines":
            return T("list", L.splitl(as_str(a[0])))
        if n == "vstr":
            return T("str", L.Val.vs(box(a[0])))
        if n == "min":
            return T("int", z3.If(a[0].t <= a[1].t, a[0].t, a[1].t))
        if n == "max":
            return T("int", z3.If(a[0].t >= a[1].t, a[0].t, a[1].t))
        if n == "isinf":
            return T("bool", z3.BoolVal(a[0].k == "inf"))
        if n == "fin":
            return const(0) if a[0].k == "inf" else a[0]
        if n == "forall":
            raise SpecError("forall")
        raise SpecError("spec: unknown function %s" % n)


def ite(c, a, b):
    if a.k == b.k and a.k in ("int", "bool", "chr", "list", "val", "pat"):
        return T(a.k, z3.If(c, a.t, b.t))
    if a.k in ("str", "chr") and b.k in ("str", "chr"):
        return T("str", z3.If(c, as_str(a), as_str(b)))
    if a.k == "tuplelit" and b.k == "tuplelit" and len(a.t) == len(b.t):
        return T("tuplelit", [ite(c, x, y) for x, y in zip(a.t, b.t)])
    if {a.k, b.k} <= {"list", "tuplelit"}:
        return T("list", z3.If(c, as_list(a), as_list(b)))
    return T("val", z3.If(c, box(a), box(b)))


def const(v):
    if v is None:
        return T("none", None)
    if isinstance(v, bool):
        return T("bool", z3.BoolVal(v))
    if isinstance(v, int):
        return T("int", z3.IntVal(v))
    if isinstance(v, str):
        return T("str", lit_str(v), v)
    if isinstance(v, tuple):
        return T("tuplelit", [const(x) for x in v])
    if hasattr(v, "finditer"):
        c = z3.Const(pat_name(v), L.Pat)
        reg_pat(c, v)
        EXT.append(PATFACTS[c.sexpr()])
        return T("pat", c)
    raise SpecError("const %r" % (v,))


def closure_of(names, hide=()):
    """specs reachable from names; hidden ones keep their symbol but get no defining axiom"""
    out, todo = [], list(names)
    while todo:
        n = todo.pop()
        if n in out or n not in SPECS or n in hide:
            continue
        out.append(n)
        todo += list(SPECS[n].callees())
    return out


def names_in(node):
    return {n.func.id for n in ast.walk(node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)} | \
           {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


class Lemma:
    """requires => ensures for all parameters; proved by induction on `measure` (a natural number) when given."""

    def __init__(self, fn, trigger, measure=None, uses=(), requires=None, hide=(), fuel=3):
        self.fuel = fuel
        self.trusted = False
        self.name = fn.__name__
        src = textwrap.dedent(inspect.getsource(fn))
        t = ast.parse(src).body[0]
        body = [s for s in t.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        self.reqs = [s.test for s in body[:-1]]          # leading asserts are hypotheses
        self.goal = body[-1].value
        self.params = [a.arg for a in t.args.args]
        self.sorts = [a.annotation.id for a in t.args.args]
        self.trigger = ast.parse(trigger, mode="eval").body
        self.measure = ast.parse(measure, mode="eval").body if measure else None
        self.uses = list(uses)
        self.hide = tuple(hide)
        self.py = fn
        self.ast = t
        LEMMAS[self.name] = self

    def base_names(self):
        return names_in(self.ast) | names_in(self.trigger)

    def spec_names(self):
        return closure_of(self.base_names())

    def _parts(self, vs, l):
        tr = Tr(dict(zip(self.params, [wrap(s, v) for s, v in zip(self.sorts, vs)])), l, globs=self.py.__globals__)
        EXT.clear()
        req = [tr.bool(r) for r in self.reqs]
        goal = tr.bool(self.goal)
        meas = tr.ev(self.measure).t if self.measure is not None else None
        return req, goal, meas, tr

    def axiom(self):
        vs = [z3.Const("l_%s_%s" % (self.name, p), SORT[s]) for p, s in zip(self.params, self.sorts)]
        l = z3.Const("lyl", L.Fuel)
        req, goal, _, tr = self._parts(vs, l)
        trg = self._trig(tr)
        body = z3.Implies(z3.And(req), goal) if req else goal
        return self._forall(vs, l, body, trg)

    def _trig(self, tr):
        elts = self.trigger.elts if isinstance(self.trigger, ast.Tuple) else [self.trigger]
        out = []
        for e in elts:
            v = tr.ev(e)
            out.append(v.t)
        return out

    def _forall(self, vs, l, body, trg):
        pat = z3.MultiPattern(*trg) if len(trg) > 1 else trg[0]
        used = any(_mentions(t, l) for t in trg)
        if used:
            return z3.ForAll([l] + vs, body, patterns=[pat])
        return z3.ForAll(vs, z3.substitute(body, (l, L.fuel(L.FUEL))), patterns=[pat])

    def obligations(self):
        """list of (hyps, goal)"""
        vs = [z3.Const("g_%s_%s" % (self.name, p), SORT[s]) for p, s in zip(self.params, self.sorts)]
        req, goal, meas, _ = self._parts(vs, L.fuel(self.fuel))
        hyps = list(req) + list(EXT)
        if meas is not None:
            ws = [z3.Const("h_%s_%s" % (self.name, p), SORT[s]) for p, s in zip(self.params, self.sorts)]
            l = z3.Const("lyh", L.Fuel)
            r2, g2, m2, tr2 = self._parts(ws, l)
            body = z3.Implies(z3.And(r2 + [0 <= m2, m2 < meas]), g2)
            hyps.append(self._forall(ws, l, body, self._trig(tr2)))
            # well-founded induction over integers bounded below: negative measures are handled as base case
        return hyps, goal


def _mentions(t, v):
    if t.eq(v):
        return True
    return any(_mentions(c, v) for c in t.children())


def lemma(trigger, measure=None, uses=(), hide=(), fuel=3):
    return lambda fn: Lemma(fn, trigger, measure, uses, hide=hide, fuel=fuel)


def axiom(trigger, sample=None, **k):
    """an assumed fact about uninterpreted (abstract) specs, i.e. about code outside the repository; reported as an assumption,
    tried on random arguments sample(rng) on every run"""
    def deco(fn):
        l = Lemma(fn, trigger, **k)
        l.trusted = True
        l.sample = sample
        return l
    return deco
