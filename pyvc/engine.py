"""pyvc: path-based verification-condition generator for a subset of Python, over the real source (ast)."""
import ast, builtins, importlib, itertools, os, re, sys, types as pytypes
import z3
from . import logic as L, spec as S, rxfacts
from .spec import T
from .values import *

REPO = os.environ.get("VERIF_REPO", "/repo")
MAXPATHS = 4000


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


# ------------------------------------------------------------------------------------ source access
class Source:
    def __init__(self):
        self.mods = {}
        self.hash = {}

    def module(self, name):
        if name not in self.mods:
            m = importlib.import_module(name)
            with open(m.__file__, encoding="utf-8") as f:
                text = f.read()
            self.mods[name] = (m, ast.parse(text), m.__file__)
        return self.mods[name]

    def find(self, mod, qual):
        m, tree, path = self.module(mod)
        scope = tree.body
        parts = qual.split(".")
        node = None
        for i, p in enumerate(parts):
            node = None
            for n in _walk_defs(scope):
                if n.name == p:
                    node = n            # last definition wins, as at run time
            if node is None:
                raise Unsupported("source of %s:%s not found" % (mod, qual))
            scope = node.body
        return node


def _walk_defs(body):
    for n in body:
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            yield n
        elif isinstance(n, (ast.If, ast.Try)):
            for b in ("body", "orelse", "finalbody"):
                yield from _walk_defs(getattr(n, b, []) or [])


SRC = Source()


# ------------------------------------------------------------------------------------ contracts
class Template:
    def __init__(self, name, holes, expr, globs, cond=None):
        self.name, self.holes, self.expr, self.globs = name, holes, expr, globs


class Contract:
    """built from a class body in contracts/*.py (see contract())"""
    reg = {}

    def __init__(self, cls):
        import inspect, textwrap
        self.name = cls.__name__
        self.target = cls.target
        self.mod, self.qual = cls.target.split("#")[0].split(":")
        self.types = getattr(cls, "types", {})
        self.returns = getattr(cls, "returns", "any")
        self.raises = tuple(getattr(cls, "raises", ()))
        self.uses = list(getattr(cls, "uses", ()))
        self.total = getattr(cls, "total", True)
        self.split = getattr(cls, "split", {})
        self.attr_types = getattr(cls, "attr_types", {})
        self.self_cls = getattr(cls, "self_cls", None)
        self.trusted = getattr(cls, "trusted", False)
        self.mut = getattr(cls, "mut", {})
        self.inlines = getattr(cls, "inlines", ())      # functions whose own bodies are used although they have a contract
        self.assumes = getattr(cls, "assumes", {})      # callee contract -> why its precondition holds (recorded as an assumption)
        self.globs = sys.modules[cls.__module__].__dict__
        self.cls = cls
        self.requires, self.ensures, self.templates, self.measures, self.onraise = [], [], [], [], []
        self.pyfuncs = {}
        self.extern = {}
        for k in reversed(cls.__mro__):
            self.extern.update(k.__dict__.get("extern", {}))
        nodes = [ast.parse(textwrap.dedent(inspect.getsource(k))) for k in cls.__mro__ if k is not object and "_generated" not in k.__dict__]
        self.names = {n.id for t in nodes for n in ast.walk(t) if isinstance(n, ast.Name)}
        seen = set()
        body = []
        for t in nodes:                 # an inherited clause counts unless the same name is redefined
            new = [n for n in t.body[0].body if isinstance(n, ast.FunctionDef) and n.name not in seen]
            seen |= {n.name for n in new}
            body += new
        for n in body:
            if not isinstance(n, ast.FunctionDef):
                continue
            stm = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if n.name == "requires":
                self.requires += _conj(stm)
                self.req_params = [a.arg for a in n.args.args]
            elif n.name.startswith("ensures"):
                self.ensures += [(n.name, e) for e in _conj(stm)]
            elif n.name.startswith("onraise"):
                self.onraise += [(n.name, e) for e in _conj(stm)]
            elif n.name.startswith("inv"):
                holes = [(a.arg, a.annotation.id) for a in n.args.args if a.annotation is not None]
                for e in _conj(stm):
                    self.templates.append(Template(n.name, holes, e, self.globs))
            elif n.name.startswith("measure"):
                holes = [(a.arg, a.annotation.id) for a in n.args.args if a.annotation is not None]
                self.measures.append(Template(n.name, holes, stm[0].value, self.globs))
        Contract.reg[self.target] = self


def _conj(stm):
    out = []
    for s in stm:
        if isinstance(s, ast.Return):
            v = s.value
            if isinstance(v, ast.Tuple):
                out += v.elts
            else:
                out.append(v)
        elif isinstance(s, ast.Assert):
            out.append(s.test)
    return out


CLASS_ATTRS = {}
DEBUG = bool(os.environ.get("PYVC_DEBUG"))


def attrs(path, **types):
    """declared attribute types of the objects of a class ("module:Class")"""
    CLASS_ATTRS[path] = types


def class_of(path):
    mod, q = path.split(":")
    o = importlib.import_module(mod)
    for p in q.split("."):
        o = getattr(o, p)
    return o


def contract(cls):
    return Contract(cls)


# ------------------------------------------------------------------------------------ state
class State:
    __slots__ = ("frames", "heap", "pc", "fid", "entry")

    def __init__(self):
        self.frames, self.heap, self.pc, self.fid = {}, {}, [], 0
        self.entry = None

    def copy(self):
        s = State()
        s.frames = {k: (dict(v[0]), v[1]) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.fid = self.fid
        s.entry = self.entry
        return s

    @property
    def env(self):
        return self.frames[self.fid][0]

    def assume(self, *fs):
        s = self.copy()
        s.pc += [f for f in fs if f is not None]
        return s


class Engine:
    def __init__(self, timeout=4000, log=None):
        self.log = log or (lambda *a: None)
        self.timeout = timeout
        self.assumptions = set()
        self.reset(None)

    # ---------------------------------------------------------------- set-up
    def reset(self, contract):
        self.c = contract
        self.ids = itertools.count(1)
        self.obl = []
        self.recording = True
        self.paths = 0
        self.loop_depth = 0
        self.inline_stack = []
        self.solver = None
        self.used_contracts = set()
        self.inlined = set()
        self.deadline = None
        self.shape_mode = False
        self.filters = {}
        self.no_positions = set()
        self.positions = []
        self.unk_match = False
        self.collect = []

    def fresh_id(self):
        return next(self.ids)

    def fint(self, n="i"):
        return z3.Int("%s!%d" % (n, self.fresh_id()))

    def fbool(self, n="b"):
        return z3.Bool("%s!%d" % (n, self.fresh_id()))

    def fstr(self, n="s"):
        return z3.Const("%s!%d" % (n, self.fresh_id()), L.Str)

    def flst(self, n="l"):
        return z3.Const("%s!%d" % (n, self.fresh_id()), L.Lst)

    def new_solver(self, names, lemmas):
        extra = []
        for n in S.closure_of(names, getattr(self.c.cls, "hide", ())):
            extra += S.SPECS[n].axioms()
        for l in lemmas:
            extra.append(S.LEMMAS[l].axiom())
        extra += S.char_facts()
        self.solver = L.Solver(extra, self.timeout)
        self.litn = 0
        return self.solver

    def sync_lits(self):
        """facts about literals created since the solver was built"""
        if len(S.LITS) != self.litn:
            items = list(S.LITS.items())[self.litn:]
            fs = []
            for s, c in items:
                fs.append(L.slen(c) == len(s))
                for i, ch in enumerate(s):
                    fs.append(L.at(c, i) == ord(ch))
            self.solver.add_axioms(fs)
            self.litn = len(S.LITS)
        for ch in list(getattr(self, "newchars", ())):
            pass

    # ---------------------------------------------------------------- solving
    def feasible(self, st):
        self.sync_lits()
        self.check_deadline()
        return self.solver.feasible(st.pc)

    def check_deadline(self):
        import time
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget of this function exhausted")

    def valid(self, st, goal, timeout=None):
        if timeout is None:
            timeout = getattr(self.c.cls, "effort", 400) if self.c is not None else 400
        self.sync_lits()
        self.check_deadline()
        return self.solver.valid(st.pc, goal, timeout)

    def oblige(self, st, goal, kind, where):
        """record (and, when recording, prove) an obligation"""
        if not self.recording:
            return True
        g = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(goal)
        self.sync_lits()
        self.check_deadline()
        if z3.is_true(g):
            status, be, det = "valid", "simplifier", ""
        else:
            status, be, det = self.solver.prove(st.pc, goal)
            if status != "valid" and self.c is not None and getattr(self.c.cls, "join", 0):
                m = self.solver.model
                if self.by_cases(list(st.pc), goal, 3):
                    status, det = "valid", ""
                else:
                    self.solver.model = m
        self.obl.append(dict(kind=kind, where=where, status=status, backend=be, detail=det,
                             goal=str(goal)[:400] if status != "valid" else "",
                             model=self.solver.model if status != "valid" else None, st=st if status != "valid" else None))
        return status == "valid"

    def by_cases(self, pc, goal, depth):
        """states were joined: prove the goal for every alternative of the last disjunction of the path condition"""
        i = next((i for i in range(len(pc) - 1, -1, -1) if z3.is_or(pc[i]) and any(z3.is_and(a) for a in pc[i].children())), None)
        if i is None or depth == 0:
            return False
        for a in pc[i].children():
            alt = pc[:i] + pc[i + 1:] + (list(a.children()) if z3.is_and(a) else [a])
            self.check_deadline()
            if self.solver.prove(alt, goal)[0] != "valid" and not self.by_cases(alt, goal, depth - 1):
                if DEBUG:
                    print("alternative", depth, [str(x)[:300] for x in alt[-12:]])
                return False
        return True

    # ---------------------------------------------------------------- forks
    def fork(self, st, cond):
        """-> [(state, bool)] of the feasible branches of a logical condition"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        out = []
        for val, f in ((True, cond), (False, z3.Not(cond))):
            s = st.assume(f)
            if val is False and not out or self.feasible(s):     # one of the two is
                out.append((s, val))
        self.paths += 1
        if self.paths > MAXPATHS * 10:
            raise Budget("too many paths")
        return out

    def bind(self, results, fn):
        out = []
        for st, v in results:
            if isinstance(v, VRaise):
                out.append((st, v))
            else:
                out += fn(st, v)
        return out

    def evs(self, st, exprs):
        """evaluate a list of expressions left to right -> [(st, [values]) | (st, VRaise)]"""
        res = [(st, [])]
        for e in exprs:
            nxt = []
            for s, vs in res:
                if isinstance(vs, VRaise):
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ev(s, e):
                    nxt.append((s2, v if isinstance(v, VRaise) else vs + [v]))
            res = nxt
        return res

    def need(self, st, ok, exc, why, node):
        """definedness: -> list of (state, None) on success plus (state, VRaise) when it may fail"""
        c = z3.simplify(ok)
        if z3.is_true(c):
            return [(st, None)]
        bad = st.assume(z3.Not(ok))
        out = []
        if self.feasible(bad):
            out.append((bad, VRaise(exc, "%s (line %s)" % (why, getattr(node, "lineno", "?")))))
        elif self.recording:
            self.obl.append(dict(kind="definedness", where="%s line %s" % (why, getattr(node, "lineno", "?")), status="valid", backend="z3", detail="", goal=""))
        good = st.assume(ok)
        if not out or self.feasible(good):
            out.insert(0, (good, None))
        return out

    # ---------------------------------------------------------------- conversions
    def to_T(self, st, v):
        if isinstance(v, VInt):
            return T("int", v.t)
        if isinstance(v, VBool):
            return T("bool", v.t)
        if isinstance(v, VStr):
            if v.lit is not None:
                return S.const(v.lit)
            if v.ch is not None:
                return T("chr", v.ch)
            return T("str", v.t)
        if isinstance(v, VNone):
            return T("none", None)
        if isinstance(v, VTup):
            return T("tuplelit", [self.to_T(st, x) for x in v.items])
        if isinstance(v, VPat):
            return T("pat", v.t)
        if isinstance(v, VPy) and isinstance(v.o, re.Pattern):
            return T("pat", self.as_pat(v).t)
        if isinstance(v, VPy) and isinstance(v.o, (str, int, bool, tuple)):
            return S.const(v.o)
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HList):
                return T("list", self.list_term(st, h), ref=v.id)
            if isinstance(h, HTail):
                t = h.pre
                for x in h.items:
                    t = L.snoc(t, self.box(st, x))
                return T("list", t)
            if isinstance(h, HDict):
                return T("dict", ({k: (None if x is ABSENT else self.to_T(st, x)) for k, x in h.items.items()}, h.open, v.id))
            if isinstance(h, HObj):
                return T("dict", ({k: self.to_T(st, x) for k, x in h.attrs.items() if not (isinstance(x, VRef) and isinstance(st.heap[x.id], HObj))}, True, v.id))
            return T("val", L.Val.vref(z3.IntVal(v.id)))
        if isinstance(v, VInf):
            return T("inf", None)
        if isinstance(v, VUnk):
            return T("val", v.t)
        return T("val", L.Val.vopq(z3.IntVal(id(v) % 10 ** 9)))

    def box(self, st, v):
        if isinstance(v, VRef):
            return L.Val.vref(z3.IntVal(v.id))
        return S.box(self.to_T(st, v))

    def list_term(self, st, h):
        if h.items is None:
            return h.term
        t = L.lnil
        for x in h.items:
            t = L.snoc(t, self.box(st, x))
        return t

    def unbox(self, st, t, kind):
        """Val term -> Value of the declared element kind"""
        if kind == "str":
            return VStr(L.Val.vs(t))
        if kind == "int":
            return VInt(L.Val.vi(t))
        if kind == "bool":
            return VBool(L.Val.vb(t))
        if kind == "pat":
            return VPat(L.vpat(t))
        if isinstance(kind, tuple) and kind[0] == "tuple":
            lt = L.Val.vt(t)
            return VTup([self.unbox(st, L.lat(lt, i), k) for i, k in enumerate(kind[1:])])
        return VUnk("element", term=t)

    def kind_fact(self, t, kind):
        """facts that make boxed element t be of kind"""
        if kind == "str":
            return [t == L.Val.vstr(L.Val.vs(t))]
        if kind == "int":
            return [t == L.Val.vint(L.Val.vi(t))]
        if isinstance(kind, tuple) and kind[0] == "tuple":
            lt = L.Val.vt(t)
            fs = [t == L.Val.vtup(lt), L.llen(lt) == len(kind) - 1]
            tt = L.lnil
            for i, k in enumerate(kind[1:]):
                fs += self.kind_fact(L.lat(lt, i), k)
                tt = L.snoc(tt, L.lat(lt, i))
            fs.append(lt == tt)
            return fs
        return []

    def kind_of(self, st, v):
        if isinstance(v, VStr):
            return "str"
        if isinstance(v, VBool):
            return "bool"
        if isinstance(v, VInt):
            return "int"
        if isinstance(v, VTup):
            return ("tuple",) + tuple(self.kind_of(st, x) for x in v.items)
        return "any"

    def fresh(self, st, ty, name="v"):
        """fresh values of a declared type -> [(state, Value)]"""
        if isinstance(ty, str):
            ty = ast.parse(ty, mode="eval").body
        if isinstance(ty, ast.Constant) and ty.value is None:
            return [(st, VNone())]
        if isinstance(ty, ast.BinOp):
            return self.fresh(st, ty.left, name) + self.fresh(st.copy(), ty.right, name)
        if isinstance(ty, ast.Name):
            n = ty.id
            if n == "int":
                return [(st, VInt(self.fint(name)))]
            if n == "nat":
                t = self.fint(name)
                return [(st.assume(t >= 0), VInt(t))]
            if n == "bool":
                return [(st, VBool(self.fbool(name)))]
            if n == "str":
                return [(st, VStr(self.fstr(name)))]
            if n == "chr":
                return [(st, VStr(ch=self.fint(name)))]
            if n == "none":
                return [(st, VNone())]
            if n == "inf":
                return [(st, VInf())]
            if n == "pat":
                return [(st, VPat(z3.Const("%s!%d" % (name, self.fresh_id()), L.Pat)))]
            if n == "any":
                return [(st, VUnk(name))]
            if n == "dict":
                return [self.alloc(st, HDict({}, open=True))]
            if n == "emptydict":
                return [self.alloc(st, HDict({}, open=False))]
            if n == "list":
                return [self.alloc(st, HList(None, self.flst(name), "any"))]
            raise Unsupported("type %s" % n)
        if isinstance(ty, ast.Subscript):
            n = ty.value.id
            args = ty.slice.elts if isinstance(ty.slice, ast.Tuple) else [ty.slice]
            if n == "obj":
                tys, at = dict(CLASS_ATTRS.get(args[0].value, {})), {}
                for a, ty2 in tys.items():          # parts of an object exist from the start (other attributes when first read)
                    if ty2.startswith("obj["):
                        (st, at[a]), = self.fresh(st, ty2, a)
                return [self.alloc(st, HObj(class_of(args[0].value), at, tys))]
            if n == "tail":
                out = []
                for s, v in self.fresh(st, args[0], name):
                    out.append(self.alloc(s, HTail(self.flst(name), [v])))
                return out
            if n == "opt":
                return self.fresh(st, args[0], name) + [(st.copy(), VNone())]
            if n == "list":
                return [self.alloc(st, HList(None, self.flst(name), self.kind_ty(args[0])))]
            if n == "tuple":
                res = [(st, [])]
                for i, a in enumerate(args):
                    res = [(s2, vs + [v]) for s, vs in res for s2, v in self.fresh(s, a, "%s%d" % (name, i))]
                return [(s, VTup(vs)) for s, vs in res]
            if n == "dict":
                # dict[key: type, ...]  given as dict["type:str", "content:any?"]
                items, types = {}, {}
                res = [(st, {})]
                for a in args:
                    k, tys = a.value.split(":", 1)
                    optional = tys.endswith("?")
                    tys = tys.rstrip("?")
                    nxt = []
                    for s, it in res:
                        if optional:
                            nxt.append((s.copy(), {**it, k: ABSENT}))
                        if tys == "absent":
                            nxt.append((s, {**it, k: ABSENT}))
                        elif tys.startswith("="):
                            nxt.append((s, {**it, k: VStr(lit=tys[1:])}))
                        else:
                            for s2, v in self.fresh(s, tys, k):
                                nxt.append((s2, {**it, k: v}))
                    res = nxt
                return [self.alloc(s, HDict(it, open=True)) for s, it in res]
        raise Unsupported("type expr %s" % ast.dump(ty))

    def kind_ty(self, a):
        if isinstance(a, ast.Name):
            return a.id if a.id in ("str", "int", "bool", "pat") else "any"
        if isinstance(a, ast.Subscript) and a.value.id == "tuple":
            return ("tuple",) + tuple(self.kind_ty(x) for x in a.slice.elts)
        return "any"

    def alloc(self, st, obj):
        i = self.fresh_id()
        st = st.copy()
        st.heap[i] = obj
        return st, VRef(i)

    def as_pat(self, v):
        if isinstance(v, VPat):
            return v
        if isinstance(v, VPy) and isinstance(v.o, re.Pattern):
            key = S.pat_name(v.o)
            c = z3.Const(key, L.Pat)
            S.reg_pat(c, v.o)
            return VPat(c, v.o)
        if isinstance(v, VPy) and isinstance(v.o, str):
            return self.as_pat(VPy(re.compile(v.o)))
        if isinstance(v, VStr):
            if v.lit is not None:
                return self.as_pat(VPy(re.compile(v.lit)))
            c, o = S.pat_term(t=v.t)
            p = VPat(c, o)
            p.width = getattr(v, "patwidth", None)
            return p
        if isinstance(v, VUnk):
            return VPat(z3.Const("pat_unk%d" % self.fresh_id(), L.Pat))
        raise Unsupported("pattern %r" % v)

    def lift(self, o):
        """concrete Python constant -> Value"""
        if o is None:
            return VNone()
        if isinstance(o, SymKey):
            return o.v
        if isinstance(o, bool):
            return VBool(o)
        if isinstance(o, int) and not hasattr(o, "_flag_mask_"):
            return VInt(int(o))
        if isinstance(o, str) and type(o) is str:
            return VStr(lit=o)
        if isinstance(o, str):
            return VStr(lit=str.__str__(o) if not hasattr(o, "value") else o.value)
        if isinstance(o, float) and o == float("inf"):
            return VInf()
        if isinstance(o, re.Pattern):
            return self.as_pat(VPy(o))
        if isinstance(o, tuple):
            return VTup([self.lift(x) for x in o])
        return VPy(o)

    # ---------------------------------------------------------------- truthiness
    def truth(self, st, v, node=None):
        """-> logical term of bool(v), or list of (state,bool) when it must fork"""
        v = self.attr_of_unknown(v)
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VInt):
            return v.t != 0
        if isinstance(v, VStr):
            if v.lit is not None:
                return z3.BoolVal(len(v.lit) > 0)
            return L.slen(v.t) > 0
        if isinstance(v, VNone):
            return z3.BoolVal(False)
        if isinstance(v, VTup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, (VMatch, VPat, VClos, VBound, VInf)):
            return z3.BoolVal(True)
        if isinstance(v, VPy):
            return z3.BoolVal(bool(v.o))
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HList):
                if h.items is not None:
                    return z3.BoolVal(len(h.items) > 0)
                return L.llen(h.term) > 0
            if isinstance(h, HTail):
                return z3.BoolVal(True) if h.items else L.llen(h.pre) > 0
            if isinstance(h, HDict):
                if any(x is not ABSENT for x in h.items.values()):
                    return z3.BoolVal(True)
                if not h.open:
                    return z3.BoolVal(False)
                return self.fbool("dict_truth")
            return z3.BoolVal(True)
        if isinstance(v, VUnk):
            return z3.And(v.truth, z3.Not(v.isnone))
        if isinstance(v, VGenIter):
            return z3.BoolVal(True)
        raise Unsupported("truth of %r" % v)

    def cond(self, st, e):
        """evaluate expression as a condition -> [(state, True/False) | (state, VRaise)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res = [(st, isand)]
            for x in e.values:
                nxt = []
                for s, b in res:
                    if isinstance(b, VRaise) or b != isand:
                        nxt.append((s, b))
                    else:
                        nxt += self.cond(s, x)
                res = nxt
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, VRaise) else (not b)) for s, b in self.cond(st, e.operand)]
        out = []
        for s, v in self.ev(st, e):
            if isinstance(v, VRaise):
                out.append((s, v))
            else:
                t = self.truth(s, v)
                S.EXT.clear()
                out += self.fork(s, t)
        return out

    def flush(self, st):
        if S.EXT:
            st = st.assume(*S.EXT)
            S.EXT.clear()
        return st
