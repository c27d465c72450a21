"""Driver: verify a contract against the current source of its function; prove lemmas; check spec definitions."""
import ast, hashlib, itertools, time, traceback
import z3
from . import logic as L, spec as S, live
from .spec import T
from .values import *
from .engine import Engine, Contract, Unsupported, Budget, SRC, State
from .exprs import Exprs
from .calls import Calls, _alts
from .models import Models
from .stmts import Stmts, exc_class


class Verifier(Stmts, Calls, Models, Exprs, Engine):
    maxpaths = 600

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.effects = set()
        self.loop_ents = {}

    def verify(self, c, budget=60):
        """-> result dict"""
        t0 = time.time()
        self.reset(c)
        self.effects = set()
        self.loop_ents = {}
        self.lives, self.lived, self.keepalive = {}, set(), []
        self.assumptions = set()
        self.deadline = t0 + budget
        res = dict(target=c.target, contract=c.name, obligations=[], status="", detail="", backend={}, assumptions=[], time=0)
        try:
            fnode = SRC.find(c.mod, c.qual)
            res["sha"] = hashlib.sha256(ast.dump(fnode).encode()).hexdigest()[:16]
            names = {n for n in c.names if n in S.SPECS}
            for lm in c.uses:
                names |= S.LEMMAS[lm].base_names()
            called = self.callee_specs(c)
            self.new_solver(names | called, c.uses)
            self.run(c, fnode)
            bad = [o for o in self.obl if o["status"] != "valid"]
            res["status"] = "failed" if bad else "proved"
            if not self.obl or not any(o["kind"].startswith("ensures") or o["kind"] == "no exception" or o["kind"] == "termination" for o in self.obl):
                res["status"], res["detail"] = "failed", "no obligation was generated (vacuous)"
            if not self.returned:
                res["status"], res["detail"] = "failed", "no path reaches the end of the function (vacuous)"
        except (Unsupported, Budget, S.SpecError) as e:
            res["status"], res["detail"] = "unsupported", "%s: %s" % (type(e).__name__, e)
        except Exception as e:
            res["status"], res["detail"] = "unsupported", "engine error %r\n%s" % (e, traceback.format_exc()[-1500:])
        res["obligations"] = [{k: o.get(k) for k in ("kind", "where", "status", "backend", "detail", "goal")} for o in self.obl]
        res["failed"] = [o for o in self.obl if o["status"] != "valid"]
        res["assumptions"] = sorted(self.assumptions)
        res["inlined"] = sorted(self.inlined)
        res["uses_contracts"] = sorted(self.used_contracts)
        res["time"] = round(time.time() - t0, 2)
        if self.solver:
            res["backend"] = dict(self.solver.backend)
            res["queries"] = self.solver.queries
            res["solver_time"] = round(self.solver.time, 2)
        return res

    def callee_specs(self, c):
        out = set()
        for dep in getattr(c.cls, "calls", ()):
            out |= {n for n in Contract.reg[dep].names if n in S.SPECS}
        return out

    def run(self, c, fnode):
        self.returned = False
        params = [a.arg for a in fnode.args.posonlyargs + fnode.args.args + fnode.args.kwonlyargs]
        if fnode.args.vararg:
            params.append(fnode.args.vararg.arg)
        if fnode.args.kwarg:
            params.append(fnode.args.kwarg.arg)
        for p in c.types:
            if p not in params:
                raise Unsupported("contract names parameter %s, which the function no longer has" % p)
        st0 = State()
        fid = self.fresh_id()
        st0.frames[fid] = ({}, {"mod": c.mod, "parent": None})
        st0.fid = fid
        st0.entry = {}
        states = [st0]
        for p in params:
            nxt = []
            for s in states:
                if p == "self" and not (isinstance(c.types.get("self"), str) and c.types["self"].startswith("obj[") and not c.attr_types):
                    cls = self.self_class(c)
                    s2, r = self.alloc(s, HObj(cls, {}, dict(c.attr_types)))
                    s2.env[p] = r
                    nxt.append(s2)
                    continue
                for s2, v in self.fresh(s, c.types.get(p, "any"), p):
                    s2 = s2.copy()
                    s2.env[p] = v
                    nxt.append(s2)
            states = nxt
        for st in states:
            d = {p: st.env[p] for p in params}
            self.one(c, fnode, st, d)

    def self_class(self, c):
        m = SRC.module(c.mod)[0]
        o = m
        for p in c.qual.split(".")[:-1]:
            o = getattr(o, p)
        return o

    def pre_attrs(self, c, st, d):
        """materialise declared attributes of self -> [(state, {name: T})]"""
        if "self" not in d or not c.attr_types:
            return [(st, {})]
        res = [(st, {})]
        for a in c.attr_types:
            nxt = []
            for s, e in res:
                for s2, v in self.attr(s, d["self"], a, ast.Constant(value=None, lineno=0)):
                    nxt.append((s2, {**e, "pre_" + a: self.to_T(s2, v)}))
            res = nxt
        return res

    def one(self, c, fnode, st, d):
        for st, pre in self.pre_attrs(c, st, d):
            self.one1(c, fnode, st, d, pre)

    def one1(self, c, fnode, st, d, pre):
        S.EXT.clear()
        env = {n: self.to_T(st, v) for n, v in d.items()}
        env.update(pre)
        st = st.copy()
        st.entry = env
        tr = S.Tr(env, globs=c.globs)
        hyps = [tr.bool(r) for r in c.requires]
        S.EXT.clear()
        st = st.assume(*hyps)
        if not self.feasible(st):
            return
        self.ghost = {n: d[p] for n, p in getattr(c.cls, "ghosts", {}).items()}
        self.declare_locals(st, fnode)
        self.inline_stack = [c.target]
        self.note_loops(fnode)
        outs = self.block(st, fnode.body)
        for kind, s, p in outs:
            if kind == "next":
                kind, p = "return", VNone()
            if kind == "return":
                if not self.feasible(s):
                    continue
                self.returned = True
                self.check_return(c, s, p, env, d, fnode)
            elif kind == "raise":
                mod = c.mod
                rc = exc_class(p.exc, mod)
                if any(issubclass(rc, exc_class(x, mod)) for x in c.raises):
                    self.returned = True
                    self.check_raise(c, s, p, env, d)
                    continue
                why = next((x for k, x in c.assumes.items() if p.why.startswith(k)), None)
                if why is not None:
                    self.assumptions.add("no %s in %s: %s" % (p.exc, c.target, why))
                    continue
                self.oblige(s, z3.BoolVal(False), "no exception", "%s: %s" % (p.exc, p.why))
            else:
                raise Unsupported("%s outside loop" % kind)

    def note_loops(self, fnode):
        if isinstance(fnode, ast.Lambda) or id(fnode) in self.lived:
            return
        self.lived.add(id(fnode))
        lv = live.Live(fnode)
        for i in list(lv.after) + list(lv.head):
            self.lives[i] = lv
        self.keepalive.append(fnode)

    def check_raise(self, c, s, p, env, d):
        if not c.onraise:
            return
        tr = S.Tr(dict(env), globs=c.globs)
        for n, x in c.onraise:
            S.EXT.clear()
            g = tr.bool(x)
            self.oblige(self.flush(s), g, "exceptional postcondition %s" % n, "%s: %s" % (p.exc, p.why))

    def conform(self, st, v, ty):
        """result value of the declared return type -> list of states/values or None when it does not conform"""
        base = ty.replace(" ", "")
        if base == "any":
            return v
        for a in _alts(base):
            t = ast.parse(a, mode="eval").body
            if a == "str" and isinstance(v, VStr): return v
            if a == "chr" and isinstance(v, VStr) and v.ch is not None: return v
            if a in ("int", "nat") and isinstance(v, (VInt, VBool)): return self.num(v)
            if a == "bool" and isinstance(v, VBool): return v
            if a == "none" and isinstance(v, VNone): return v
            if a == "pat" and isinstance(v, VPat): return v
            if a == "list" and isinstance(v, VRef) and isinstance(st.heap[v.id], HList): return v
            if a in ("dict", "emptydict") and isinstance(v, VRef) and isinstance(st.heap[v.id], HDict): return v
            if isinstance(t, ast.Subscript):
                n = t.value.id
                args = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
                if n == "list" and isinstance(v, VRef) and isinstance(st.heap[v.id], HList):
                    h = st.heap[v.id]
                    k = self.kind_ty(args[0])
                    if k == "any" or (h.items is not None and not h.items):
                        return v
                    if self.join_elem(st, h) == k:
                        return v
                    return None
                if n == "tuple" and isinstance(v, VTup) and len(v.items) == len(args):
                    vs = [self.conform(st, x, ast.unparse(a2)) for x, a2 in zip(v.items, args)]
                    if all(x is not None for x in vs):
                        return VTup(vs)
                if n == "dict" and isinstance(v, VRef) and isinstance(st.heap[v.id], HDict):
                    return v
        if isinstance(v, VUnk):
            self.assumptions.add("result of unknown type has the declared type %s" % base)
            return v
        return None

    def post_env(self, c, s, d):
        e = {}
        if "self" in d:
            for a in c.attr_types:
                h = s.heap[d["self"].id]
                v = h.attrs.get(a)
                if v is not None:
                    e["post_" + a] = self.to_T(s, v)
        for pn in c.mut:
            e[pn + "_out"] = self.to_T(s, d[pn])
        return e

    def check_return(self, c, s, v, env, d, fnode):
        S.EXT.clear()
        w = self.conform(s, v, c.returns)
        if w is None:
            self.oblige(s, z3.BoolVal(False), "ensures: result type", "declared %s, returned %r" % (c.returns, v))
            return
        e2 = dict(env)
        e2["result"] = self.to_T(s, w)
        e2.update(self.post_env(c, s, d))
        tr = S.Tr(e2, globs=c.globs)
        for name, x in c.ensures:
            try:
                g = tr.bool(x)
            except S.SpecError as e:
                # shapes that make the clause meaningless on this path (e.g. None result): the clause is false
                raise Unsupported("clause %s: %s" % (name, e))
            s2 = self.flush(s)
            self.oblige(s2, g, "ensures " + name, "%s: %s" % (c.qual, ast.unparse(x)[:200]))
        if not c.ensures:
            self.oblige(s, z3.BoolVal(True), "ensures", "no exception, declared result type")


def prove_lemma(lm, timeout=6000):
    t0 = time.time()
    if lm.trusted:
        return dict(lemma=lm.name, status="assumed", backend=None, detail="axiom", time=0)
    hyps, goal = lm.obligations()
    extra = []
    names = lm.base_names()
    for u in lm.uses:
        extra.append(S.LEMMAS[u].axiom())
        names |= S.LEMMAS[u].base_names()
    for n in S.closure_of(names, lm.hide):
        extra += S.SPECS[n].axioms()
    extra += S.char_facts() + S.lit_facts()
    sv = L.Solver(extra, timeout)
    st, be, det = sv.prove(hyps, goal)
    return dict(lemma=lm.name, status="proved" if st == "valid" else "failed", backend=be, detail=det, time=round(time.time() - t0, 2))


def check_spec(sp):
    """recursive definitions must be consistent: tail recursive (always has a model) or decreasing a measure"""
    if sp.abstract:
        return dict(spec=sp.name, status="proved", how="uninterpreted")
    if not sp.recursive:
        return dict(spec=sp.name, status="proved", how="not recursive")
    if tail_only(sp.expr, sp.name):
        return dict(spec=sp.name, status="proved", how="tail recursive")
    if getattr(sp, "decreases", None):
        vs = [z3.Const("d_" + p, S.SORT[s]) for p, s in zip(sp.params, sp.sorts)]
        env = dict(zip(sp.params, [S.wrap(s, v) for s, v in zip(sp.sorts, vs)]))
        m0 = S.Tr(env).ev(sp.decreases).t
        goals = []

        def walk(e, conds):
            if isinstance(e, ast.IfExp):
                walk(e.test, conds)
                c = S.Tr(env).bool(e.test)
                walk(e.body, conds + [c])
                walk(e.orelse, conds + [z3.Not(c)])
                return
            if isinstance(e, ast.BoolOp):
                cs = list(conds)
                for x in e.values:
                    walk(x, cs)
                    c = S.Tr(env).bool(x)
                    cs = cs + [c if isinstance(e.op, ast.And) else z3.Not(c)]
                return
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == sp.name:
                env2 = dict(zip(sp.params, [S.wrap(s, S.unwrap(S.Tr(env).ev(a), s)) for a, s in zip(e.args, sp.sorts)]))
                m1 = S.Tr(env2).ev(sp.decreases).t
                goals.append((list(conds), z3.And(m0 >= 0, m1 < m0)))
            for ch in ast.iter_child_nodes(e):
                walk(ch, conds)
        walk(sp.expr, [])
        extra = []
        for n in S.closure_of([sp.name]):
            if n != sp.name:
                extra += S.SPECS[n].axioms()
        sv = L.Solver(extra + S.char_facts() + S.lit_facts())
        ok = all(sv.prove(h, g)[0] == "valid" for h, g in goals)
        return dict(spec=sp.name, status="proved" if ok and goals else "failed", how="decreases", goals=len(goals))
    return dict(spec=sp.name, status="failed", how="no termination argument")


def tail_only(e, name):
    def has(x):
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == name for n in ast.walk(x))
    if isinstance(e, ast.IfExp):
        return not has(e.test) and tail_only(e.body, name) and tail_only(e.orelse, name)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == name:
        return not any(has(a) for a in e.args)
    return not has(e)
