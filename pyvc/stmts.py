"""Statements, loops (invariant inference), exceptions (mixin of Engine)."""
import ast, builtins, itertools, os
import z3
from . import logic as L, spec as S
from .spec import T
from .values import *
from .models import is_model
from .engine import Unsupported, Budget, SRC, Contract, State
from .exprs import UNBOUND, _join_kinds
from .calls import assigned_names
from . import rxfacts, concrete

MAXSHAPES = 12
UNROLL = 80
DEBUG = bool(os.environ.get("PYVC_DEBUG"))


def exc_class(name, mod=None):
    if hasattr(builtins, name):
        return getattr(builtins, name)
    if name.startswith("re."):
        import re
        return re.error
    if mod is not None:
        m = SRC.module(mod)[0]
        o = m
        for p in name.split("."):
            o = getattr(o, p, None)
        if isinstance(o, type):
            return o
    if "." in name:
        import sys
        o = sys.modules.get(name.rpartition(".")[0])
        o = getattr(o, name.rpartition(".")[2], None)
        if isinstance(o, type):
            return o
    return Exception


class Stmts:
    def block(self, st, stmts):
        """-> [(kind, state, payload)]"""
        live = [st]
        out = []
        for s in stmts:
            nxt = []
            for x in live:
                for k, s2, p in self.stmt(x, s):
                    if k == "next":
                        nxt.append(s2)
                    else:
                        out.append((k, s2, p))
            live = self.tidy(nxt, s)
            if len(live) + len(out) > self.maxpaths:
                raise Budget("path explosion (line %s)" % getattr(s, "lineno", "?"))
        return out + [("next", s, None) for s in live]

    def tidy(self, states, s):
        """several states after statement s: forget local variables that are not read any more, join equal states"""
        if len(states) < 2:
            return states
        lv = self.lives.get(id(s))
        if lv is None:
            return states
        keep = lv.after[id(s)]
        nxt = []
        for x in states:
            env, meta = x.frames[x.fid]
            dead = [n for n, v in env.items() if n not in keep and v is not UNBOUND and n in meta.get("locals", ())]
            if dead:
                x = x.copy()
                e = x.frames[x.fid][0]
                for n in dead:
                    e[n] = UNBOUND
            nxt.append(x)
        return [o[1] for o in self.merge([("next", x, None) for x in nxt], gc=True)]

    def stmt(self, st, s):
        self.check_deadline()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s line %s" % (type(s).__name__, s.lineno))
        return m(st, s)

    def after(self, results, fn):
        """results of ev -> outcomes; fn(state, value) -> outcomes"""
        out = []
        for s, v in results:
            if isinstance(v, VRaise):
                out.append(("raise", s, v))
            else:
                out += fn(s, v)
        return out

    # ------------------------------------------------------------------ simple statements
    def s_Pass(self, st, s):
        return [("next", st, None)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, st, s):
        if isinstance(s.value, ast.Constant):
            return [("next", st, None)]
        return self.after(self.ev(st, s.value), lambda s2, v: [("next", s2, None)])

    def s_Return(self, st, s):
        if s.value is None:
            return [("return", st, VNone())]
        return self.after(self.ev(st, s.value), lambda s2, v: [("return", s2, v)])

    def s_Break(self, st, s):
        return [("break", st, None)]

    def s_Continue(self, st, s):
        return [("continue", st, None)]

    def s_Assign(self, st, s):
        def k(s2, v):
            res = [("next", s2, None)]
            for t in s.targets:
                nxt = []
                for kd, s3, p in res:
                    if kd == "next":
                        nxt += self.assign(s3, t, v)
                    else:
                        nxt.append((kd, s3, p))
                res = nxt
            return res
        return self.after(self.ev(st, s.value), k)

    def s_AnnAssign(self, st, s):
        if s.value is None:
            return [("next", st, None)]
        return self.after(self.ev(st, s.value), lambda s2, v: self.assign(s2, s.target, v))

    def s_AugAssign(self, st, s):
        load = ast.copy_location(_as_load(s.target), s)

        def k(s2, vs):
            a, b = vs
            if isinstance(s.op, ast.Add) and isinstance(a, VRef) and isinstance(s2.heap[a.id], HList) and not isinstance(s2.heap[a.id], HSet):
                return self.after(self.list_method(s2, a, s2.heap[a.id], "extend", [b], {}, s), lambda s3, _: [("next", s3, None)])
            return self.after(self.binop(s2, type(s.op), a, b, s), lambda s3, v: self.assign(s3, s.target, v))
        return self.after(self.evs(st, [load, s.value]), k)

    def setvar(self, st, name, v):
        st = st.copy()
        fid = st.fid
        while True:
            env, meta = st.frames[fid]
            if name in meta.get("nonlocal", ()):
                fid = meta["parent"]
                if fid is None:
                    raise Unsupported("assignment to module global %s" % name)
                continue
            if name in env or fid == st.fid:
                env[name] = v
                return st
            fid = meta["parent"]

    def assign(self, st, t, v):
        if isinstance(t, ast.Name):
            return [("next", self.setvar(st, t.id, v), None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                vs = [VUnk("unpack") for _ in t.elts]
            elif isinstance(v, VTup) or isinstance(v, VRef) and isinstance(st.heap[v.id], HList) and st.heap[v.id].items is not None:
                vs = v.items if isinstance(v, VTup) else st.heap[v.id].items
                if len(vs) != len(t.elts):
                    return [("raise", st, VRaise("ValueError", "unpacking line %s" % getattr(t, "lineno", "?")))]
            elif isinstance(v, VUnk):
                vs = [VUnk("unpack") for _ in t.elts]
            elif isinstance(v, VNone) or isinstance(v, (VInt, VBool)):
                return [("raise", st, VRaise("TypeError", "cannot unpack line %s" % getattr(t, "lineno", "?")))]
            elif isinstance(v, VPy) and isinstance(v.o, (tuple, list)):
                vs = [self.lift(x) for x in v.o]
            else:
                vs = [VUnk("unpack") for _ in t.elts]
            res = [("next", st, None)]
            for tt, vv in zip(t.elts, vs):
                nxt = []
                for kd, s, p in res:
                    nxt += self.assign(s, tt.value if isinstance(tt, ast.Starred) else tt, vv) if kd == "next" else [(kd, s, p)]
                res = nxt
            return res
        if isinstance(t, ast.Attribute):
            def k(s, o):
                if isinstance(o, VRef) and isinstance(s.heap[o.id], HObj):
                    s = s.copy()
                    h = s.heap[o.id]
                    s.heap[o.id] = HObj(h.cls, {**h.attrs, t.attr: v}, h.types)
                    return [("next", s, None)]
                if isinstance(o, VNone):
                    return [("raise", s, VRaise("AttributeError", "None.%s" % t.attr))]
                if isinstance(o, VPy):
                    self.effects.add("writes attribute %s of shared object %r" % (t.attr, o.o))
                self.assumptions.add("attribute writes to untracked objects do not affect tracked state")
                return [("next", s, None)]
            return self.after(self.ev(st, t.value), k)
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                def ks(s, o):
                    if isinstance(o, VRef) and isinstance(s.heap[o.id], HList):
                        w = s.heap.get(v.id) if isinstance(v, VRef) else None
                        if t.slice.lower is None and t.slice.upper is None and t.slice.step is None and isinstance(w, HList) and not isinstance(w, HSet):
                            s = s.copy()
                            s.heap[o.id] = w
                            return [("next", s, None)]
                        s = s.copy()
                        s.heap[o.id] = type(s.heap[o.id])(None, self.flst("slc"), "any")
                    return [("next", s, None)]
                return self.after(self.ev(st, t.value), ks)
            return self.after(self.evs(st, [t.value, t.slice]), lambda s, vs: self.setitem(s, vs[0], vs[1], v, t))
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v)
        raise Unsupported("assignment target %s" % type(t).__name__)

    def setitem(self, st, o, i, v, node):
        if isinstance(o, VRef):
            h = st.heap[o.id]
            if isinstance(h, HTail):
                raise Unsupported("assignment to an element of a list with an unknown beginning")
            if isinstance(h, HDict):
                ks = self.keys_of(st, o, i)
                if ks is None:
                    st = st.copy()
                    st.heap[o.id] = HDict({}, True, h.deflt, h.types)
                    return [("next", st, None)]
                return [("next", self.dict_set(s, o, k, v), None) for s, k in ks]
            if isinstance(h, HList):
                i = self.num(i)
                if not isinstance(i, VInt):
                    st = st.copy()
                    st.heap[o.id] = HList(None, self.flst("upd"), "any")
                    return [("next", st, None)]
                if h.items is not None and i.c is not None and -len(h.items) <= i.c < len(h.items):
                    its = list(h.items)
                    its[i.c] = v
                    st = st.copy()
                    st.heap[o.id] = HList(its)
                    return [("next", st, None)]
                t = self.list_term(st, h)
                n = L.llen(t)
                out = []
                for s, neg in self.fork(st, i.t < 0):
                    j = i.t + n if neg else i.t
                    for s2, r in self.need(s, z3.And(0 <= j, j < n), "IndexError", "list assignment", node):
                        if r is not None:
                            out.append(("raise", s2, r))
                        else:
                            s2 = s2.copy()
                            kind = self.join_elem(s2, HList([v]), h) if h.items is None or h.items else "any"
                            s2.heap[o.id] = HList(None, L.lupd(t, j, self.box(s2, v)), kind)
                            out.append(("next", s2, None))
                return out
        if isinstance(o, VNone):
            return [("raise", st, VRaise("TypeError", "None item assignment"))]
        if isinstance(o, VStr):
            return [("raise", st, VRaise("TypeError", "str item assignment"))]
        if isinstance(o, VPy):
            self.effects.add("writes item of shared object")
        self.assumptions.add("item writes to untracked objects do not affect tracked state")
        return [("next", st, None)]

    def s_Delete(self, st, s):
        res = [("next", st, None)]
        for t in s.targets:
            nxt = []
            for kd, s2, p in res:
                if kd != "next":
                    nxt.append((kd, s2, p))
                elif isinstance(t, ast.Subscript):
                    def k(s3, vs):
                        o, i = vs
                        if isinstance(o, VRef) and isinstance(s3.heap[o.id], HDict):
                            ks = self.keys_of(s3, o, i)
                            if ks is None:
                                s3 = s3.copy()
                                s3.heap[o.id] = HDict({}, True)
                                return [("next", s3, None), ("raise", s3, VRaise("KeyError", "del"))]
                            out = []
                            for s5, kk in ks:
                                for s4, x in self.dict_lookup(s5, o, kk):
                                    if x is ABSENT:
                                        out.append(("raise", s4, VRaise("KeyError", "del %r" % kk)))
                                    else:
                                        out.append(("next", self.dict_set(s4, o, kk, ABSENT), None))
                            return out
                        if isinstance(o, VRef) and isinstance(s3.heap[o.id], HList):
                            h = s3.heap[o.id]
                            lo, hi = (i.items if isinstance(t.slice, ast.Slice) else (i, i))
                            s3 = s3.copy()
                            s3.heap[o.id] = HList(None, self.flst("del"), "any")
                            known = h.items is not None and not isinstance(h, HSet) and all(isinstance(x, VNone) or isinstance(x, VInt) and x.c is not None for x in (lo, hi))
                            if known and isinstance(t.slice, ast.Slice):
                                if t.slice.step is None:
                                    its = list(h.items)
                                    del its[getattr(lo, "c", None):getattr(hi, "c", None)]
                                    s3.heap[o.id] = HList(its)
                            elif known and isinstance(lo, VInt):
                                its = list(h.items)
                                if not -len(its) <= lo.c < len(its):
                                    return [("raise", s3, VRaise("IndexError", "del line %s" % t.lineno))]
                                del its[lo.c]
                                s3.heap[o.id] = HList(its)
                        return [("next", s3, None)]
                    sl = t.slice if not isinstance(t.slice, ast.Slice) else ast.Tuple(elts=[x if x is not None else ast.Constant(value=None) for x in (t.slice.lower, t.slice.upper)], ctx=ast.Load())
                    nxt += self.after(self.evs(s2, [t.value, sl]), k)
                elif isinstance(t, ast.Name):
                    nxt.append(("next", self.setvar(s2, t.id, UNBOUND), None))
                else:
                    nxt.append(("next", s2, None))
            res = nxt
        return res

    def s_Assert(self, st, s):
        out = []
        for s2, b in self.cond(st, s.test):
            if isinstance(b, VRaise):
                out.append(("raise", s2, b))
            elif b:
                out.append(("next", s2, None))
            else:
                out.append(("raise", s2, VRaise("AssertionError", "line %s" % s.lineno)))
        return out

    def s_Import(self, st, s):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname is None:
                m = importlib.import_module(a.name.split(".")[0])
            st = self.setvar(st, (a.asname or a.name).split(".")[0], VPy(m))
        return [("next", st, None)]

    def s_ImportFrom(self, st, s):
        import importlib
        m = importlib.import_module(s.module)
        for a in s.names:
            st = self.setvar(st, a.asname or a.name, self.lift(getattr(m, a.name)))
        return [("next", st, None)]

    def s_FunctionDef(self, st, s):
        return [("next", self.setvar(st, s.name, VClos(s, st.fid, self.curmod(st), s.name)), None)]

    def s_If(self, st, s):
        out = []
        for s2, b in self.cond(st, s.test):
            if isinstance(b, VRaise):
                out.append(("raise", s2, b))
            else:
                out += self.block(s2, s.body if b else s.orelse)
        return self.merge(out)

    def merge(self, outs, gc=False):
        """join 'next' outcomes whose stores are identical: the path conditions are disjoined
        (gc: objects made in this activation that no variable reaches any more do not count)"""
        nx = [o for o in outs if o[0] == "next"]
        if len(nx) < 2:
            return outs
        rest = [o for o in outs if o[0] != "next"]
        groups = []
        for o in nx:
            for g in groups:
                if _same_store(g[0][1], o[1], gc):
                    g.append(o)
                    break
            else:
                groups.append([o])
        res = []
        for g in groups:
            if len(g) == 1:
                res.append(g[0])
                continue
            pcs = [x[1].pc for x in g]
            k = 0
            while all(len(p) > k for p in pcs) and all(p[k] is pcs[0][k] for p in pcs):
                k += 1
            s = g[0][1].copy()
            s.pc = list(pcs[0][:k])
            alts = [z3.And(p[k:]) if len(p) > k else z3.BoolVal(True) for p in pcs]
            s.pc.append(z3.Or(alts))
            res.append(("next", s, None))
        lim = getattr(self.c.cls, "join", 0) if self.c is not None else 0
        if lim and len(res) > lim:
            res = self.join(res)
        return rest + res

    def join(self, outs):
        """contracts with `join = n` (only sizes and positions matter): when more than n states meet, those that differ only in numbers,
        texts, truth values and tokens become one; the numbers and texts stay tied to the path conditions, the tokens become unknown"""
        groups = {}
        for o in outs:
            groups.setdefault(_signature(o[1]), []).append(o[1])
        res = []
        for g in groups.values():
            if len(g) == 1:
                res.append(("next", g[0], None))
                continue
            pcs = [x.pc for x in g]
            k = 0
            while all(len(p) > k for p in pcs) and all(p[k] is pcs[0][k] for p in pcs):
                k += 1
            s = g[0].copy()
            alts = [list(p[k:]) for p in pcs]
            memo = {}
            self.join_new = {}
            for f in s.frames:
                env = s.frames[f][0]
                for n in list(env):
                    env[n] = self.join_vals([x.frames[f][0][n] for x in g], g, alts, memo, n)
            for x in g[1:]:
                for i, h in x.heap.items():
                    s.heap.setdefault(i, h)
            s.heap.update(self.join_new)
            s.pc = list(pcs[0][:k]) + [z3.Or([z3.And(a) if a else z3.BoolVal(True) for a in alts])]
            res.append(("next", s, None))
        return res

    def join_vals(self, vs, g, alts, memo, name):
        v = vs[0]
        if all(x is v for x in vs) and not isinstance(v, (VRef, VTup)):
            return v
        if isinstance(v, VTup):
            return VTup([self.join_vals([x.items[i] for x in vs], g, alts, memo, name) for i in range(len(v.items))])
        if isinstance(v, VRef):
            if all(isinstance(x, VRef) and x.id == v.id for x in vs) and _same_heap(v, g):
                return v
        if isinstance(v, VRef) and isinstance(g[0].heap.get(v.id), HObj) or v is UNBOUND:
            return v
        if isinstance(v, VRef) and all(isinstance(x, VRef) and isinstance(g[j].heap.get(x.id), HDict) for j, x in enumerate(vs)):
            # a dict with the same keys in every state: joined key by key (one joined dict for one combination of dicts)
            ids = ("dict",) + tuple(x.id for x in vs)
            if ids not in memo:
                hs = [g[j].heap[x.id] for j, x in enumerate(vs)]
                items = {k: ABSENT if hs[0].items[k] is ABSENT else self.join_vals([h.items[k] for h in hs], g, alts, memo, k) for k in hs[0].items}
                i = self.fresh_id()
                self.join_new[i] = HDict(items, open=hs[0].open)
                memo[ids] = VRef(i)
            return memo[ids]
        if isinstance(v, (VRef, VUnk)):
            return VUnk("joined " + name)
        if all(_same_val(v, x) for x in vs[1:]):
            return v
        if isinstance(v, (VInt, VBool, VStr)):
            key = tuple(x.t.get_id() for x in vs)
            if key not in memo:
                memo[key] = t = self.fint("j_" + name) if isinstance(v, VInt) else self.fbool("j_" + name) if isinstance(v, VBool) else self.fstr("j_" + name)
                for a, x in zip(alts, vs):
                    a.append(t == x.t)
            r = type(v)(memo[key])
            if isinstance(v, VStr) and all(getattr(x, "alpha", False) for x in vs):
                r.alpha = True
            return r
        return v

    def s_Raise(self, st, s):
        if s.exc is None:
            cur = getattr(self, "cur_exc", None)
            return [("raise", st, cur[-1] if cur else VRaise("RuntimeError", "re-raise"))]
        name = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
        nm = ast.unparse(name)
        if isinstance(s.exc, ast.Name) and s.exc.id not in dir(builtins):
            for v in (self.lookup(st, s.exc.id),):
                if isinstance(v, VUnk) and hasattr(v, "exc"):
                    return [("raise", st, v.exc)]
        return [("raise", st, VRaise(nm, "raise statement line %s" % s.lineno))]

    def catches(self, st, h, r):
        if h.type is None:
            return True
        names = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        mod = self.curmod(st)
        rc = exc_class(r.exc, mod)
        for n in names:
            c = exc_class(ast.unparse(n), mod)
            if issubclass(rc, c):
                return True
        return False

    def s_Try(self, st, s):
        self.try_depth = getattr(self, "try_depth", 0) + 1
        try:
            body = self.block(st, s.body)
        finally:
            self.try_depth -= 1
        out = []
        for k, s2, p in self.merge_raises(body, s, "caught"):
            if k == "raise":
                for h in s.handlers:
                    if self.catches(s2, h, p):
                        if h.name:
                            v = VUnk("exception")
                            v.exc = p
                            s2 = self.setvar(s2, h.name, v)
                        self.cur_exc = getattr(self, "cur_exc", []) + [p]
                        try:
                            out += self.block(s2, h.body)
                        finally:
                            self.cur_exc = self.cur_exc[:-1]
                        break
                else:
                    out.append((k, s2, p))
            elif k == "next" and s.orelse:
                out += self.block(s2, s.orelse)
            else:
                out.append((k, s2, p))
        if s.finalbody:
            fin = []
            for k, s2, p in self.merge_raises(out, s, "final"):
                for k2, s3, p2 in self.block(s2, s.finalbody):
                    fin.append((k, s3, p) if k2 == "next" else (k2, s3, p2))
            out = fin
        return out

    def merge_raises(self, outs, s, which):
        """outcomes that raise the same exception in the same store (but for local variables that are not read any more) become one"""
        lv = self.lives.get(id(s))
        groups = {}
        for o in outs:
            if o[0] == "raise":
                groups.setdefault((o[2].exc, o[1].fid), []).append(o)
        if lv is None or all(len(g) == 1 for g in groups.values()):
            return outs
        res = [o for o in outs if o[0] != "raise"]
        keep = getattr(lv, which)[id(s)]
        for g in groups.values():
            nxt = []
            for k, x, p in g:
                env, meta = x.frames[x.fid]
                x = x.copy()
                for n, v in env.items():
                    if n not in keep and v is not UNBOUND and n in meta.get("locals", ()):
                        x.frames[x.fid][0][n] = UNBOUND
                    elif n.startswith("$k"):
                        del x.frames[x.fid][0][n]
                nxt.append(("next", x, None))
            res += [("raise", x, g[0][2]) for k, x, p in self.merge(nxt, gc=True)]
        return res

    def s_With(self, st, s):
        return self.with_items(st, s, 0)

    def with_items(self, st, s, i):
        if i == len(s.items):
            return self.block(st, s.body)
        it = s.items[i]

        def go(s2, v):
            if it.optional_vars is None:
                return self.with_items(s2, s, i + 1)
            out = []
            for kd, s3, p in self.assign(s2, it.optional_vars, v):
                out += self.with_items(s3, s, i + 1) if kd == "next" else [(kd, s3, p)]
            return out
        return self.after(self.ev(st, it.context_expr), lambda s2, v: self.run_ctx(s2, v, go) if isinstance(v, VCtx) else go(s2, self.enter(s2, v)))

    def run_ctx(self, st, v, go):
        """with statement over a @contextmanager generator: its own body is executed, the block of the with statement where it yields"""
        caller = st.fid
        if self.inline_stack.count(v.key) > 0:
            raise Unsupported("recursive use of context manager %s" % v.key)
        self.inlined.add(v.key)
        hooks, stack = getattr(self, "hooks", []), list(self.inline_stack)
        out = []
        for s, vals in self.bind_args(st, v.node.args, v.args, v.kws, v.mod, v.node, v.parent):
            if isinstance(vals, VRaise):
                out.append(("raise", s, vals))
                continue
            s = s.copy()
            fid = self.fresh_id()
            s.frames[fid] = (dict(vals), {"parent": v.parent, "mod": v.mod, "mark": self.fresh_id()})
            s.fid = fid
            self.declare_locals(s, v.node)
            self.note_loops(v.node)
            self.hooks = hooks + [(fid, caller, go)]
            self.inline_stack = stack + [v.key]
            try:
                res = self.block(s, v.node.body)
            finally:
                self.hooks, self.inline_stack = hooks, stack
            for kind, s2, p in res:
                s2 = s2.copy()
                env = s2.frames[fid][0]
                pend, ret = env.get("$pend"), env.get("$ret")
                s2.fid = caller
                s2.frames.pop(fid)
                if kind == "raise":
                    out.append((kind, s2, p))
                elif pend is None:
                    out.append(("raise", s2, VRaise("RuntimeError", "context manager %s did not yield" % v.key)))
                else:
                    out.append((pend.lit, s2, ret if pend.lit == "return" else None))
        return self.merge(out)

    def e_Yield(self, st, e):
        hooks = getattr(self, "hooks", [])
        if not hooks or hooks[-1][0] != st.fid or "$pend" in st.frames[st.fid][0]:
            raise Unsupported("yield line %s" % e.lineno)
        fid, caller, go = hooks[-1]

        def k(s, v):
            s = s.copy()
            s.fid = caller
            self.hooks = hooks[:-1]
            try:
                res = go(s, v)
            finally:
                self.hooks = hooks
            out = []
            for kind, s2, p in res:
                s2 = s2.copy()
                s2.fid = fid
                env = s2.frames[fid][0]
                env["$pend"] = VStr(lit="next" if kind == "raise" else kind)
                if kind == "return":
                    env["$ret"] = p
                out.append((s2, p if kind == "raise" else VNone()))
            return out
        return self.bind(self.ev(st, e.value) if e.value is not None else [(st, VNone())], k)

    def enter(self, st, v):
        return v if isinstance(v, (VUnk, VRef)) else VUnk("context manager")

    # ------------------------------------------------------------------ loops
    def s_While(self, st, s):
        lim = getattr(self.c.cls, "unwind", 0) if self.c is not None else 0
        if lim:
            return self.unwind(st, s, lim)
        return self.loop(st, s, lambda x: self.cond(x, s.test), lambda x: [("next", x, None)], lambda x: x, s.body, s.orelse, [], True)

    def s_For(self, st, s):
        return self.after(self.ev(st, s.iter), lambda s2, it: self.for_over(s2, s, it))

    def for_over(self, st, s, it):
        items = None
        if isinstance(it, VPy) and isinstance(it.o, (list, tuple, set, frozenset, dict, str)):
            items = [self.lift(x) for x in (sorted(it.o, key=repr) if isinstance(it.o, (set, frozenset)) else it.o)]
        elif isinstance(it, VTup):
            items = it.items
        elif isinstance(it, VStr) and it.lit is not None:
            items = [VStr(lit=c) for c in it.lit]
        elif isinstance(it, VRef):
            h = st.heap[it.id]
            if isinstance(h, HList) and not isinstance(h, HSet) and h.items is not None:
                items = list(h.items)
            if isinstance(h, HDict) and not h.open:
                items = [self.lift(k) for k, v in h.items.items() if v is not ABSENT]
        elif isinstance(it, VGenIter):
            if it.kind == "enumerate" and it.start.c is not None:
                inner = self.const_items(st, it.of)
                if inner is not None:
                    items = [VTup([VInt(i + it.start.c), x]) for i, x in enumerate(inner)]
            if it.kind == "reversed":
                inner = self.const_items(st, it.of)
                if inner is not None:
                    items = inner[::-1]
            if it.kind == "range" and it.lo.c is not None and it.hi.c is not None:
                items = [VInt(i) for i in range(it.lo.c, it.hi.c, it.step)]
        if isinstance(it, VRef) and isinstance(st.heap[it.id], HObj) and is_model(st.heap[it.id].cls):
            items = self.model_fields(st, st.heap[it.id])
        if isinstance(it, VRef) and isinstance(st.heap[it.id], HTail):
            raise Unsupported("loop over a list with an unknown beginning (line %s)" % s.lineno)
        if isinstance(it, VNone):
            return [("raise", st, VRaise("TypeError", "iterating None line %s" % s.lineno))]
        if isinstance(it, (VInt, VBool)):
            return [("raise", st, VRaise("TypeError", "iterating int line %s" % s.lineno))]
        lim = getattr(self.c.cls, "unroll", UNROLL) if self.c is not None else UNROLL
        if items is not None and len(items) <= lim:
            return self.unroll(st, s, items)
        if items is not None and all(isinstance(x, VStr) for x in items):
            # any number of iterations with arbitrary texts
            return self.loop(st, s, lambda x: self.fork(x, self.fbool("more")), lambda x: self.assign(x, s.target, VStr(self.fstr("element"))),
                             lambda x: x, s.body, s.orelse, [], False)
        g = "$k%d" % s.lineno

        def kk(x):
            return x.env[g].t

        def bindt(x, v):
            return self.assign(x, s.target, v)
        if isinstance(it, VStr):
            st0 = self.setvar(st, g, VInt(0))
            return self.loop(st0, s, lambda x: self.fork(x, kk(x) < L.slen(it.t)), lambda x: bindt(x, VStr(ch=L.at(it.t, kk(x)))),
                             lambda x: self.setvar(x, g, VInt(kk(x) + 1)), s.body, s.orelse, [g], False)
        if isinstance(it, VRef) and isinstance(st.heap[it.id], HList) and not isinstance(st.heap[it.id], HSet):
            st0 = self.setvar(st, g, VInt(0))
            return self.loop_list(st0, s, it, g, kk, None)
        if isinstance(it, VGenIter) and it.kind == "enumerate":
            of = it.of
            st0 = self.setvar(st, g, VInt(0))
            if isinstance(of, VStr):
                return self.loop(st0, s, lambda x: self.fork(x, kk(x) < L.slen(of.t)),
                                 lambda x: bindt(x, VTup([VInt(kk(x) + it.start.t), VStr(ch=L.at(of.t, kk(x)))])),
                                 lambda x: self.setvar(x, g, VInt(kk(x) + 1)), s.body, s.orelse, [g], False)
            if isinstance(of, VRef) and isinstance(st.heap[of.id], HList):
                return self.loop_list(st0, s, of, g, kk, it.start)
        if isinstance(it, VGenIter) and it.kind == "range":
            st0 = self.setvar(st, g, it.lo)
            c = (lambda x: self.fork(x, kk(x) < it.hi.t)) if it.step > 0 else (lambda x: self.fork(x, kk(x) > it.hi.t))
            return self.loop(st0, s, c, lambda x: bindt(x, VInt(kk(x))), lambda x: self.setvar(x, g, VInt(kk(x) + it.step)),
                             s.body, s.orelse, [g], False)
        if isinstance(it, VGenIter) and it.kind == "finditer":
            subj = it.subj
            if isinstance(subj, VStr) and it.pat.o is not None and rxfacts.facts(it.pat.o).minw > 0:
                st0 = self.setvar(st, g, VInt(0))

                def c(x):
                    out = []
                    for s2, v in self.re_match(x, it.pat, "search", subj, x.env[g], s):
                        if isinstance(v, VRaise):
                            out.append((s2, v))
                        elif isinstance(v, VNone):
                            out.append((s2, False))
                        else:
                            s2 = self.setvar(s2, g + "m", v)
                            out.append((s2, True))
                    return out
                return self.loop(st0, s, c, lambda x: bindt(x, x.env[g + "m"]), lambda x: self.setvar(x, g, VInt(x.env[g + "m"].end)),
                                 s.body, s.orelse, [g], False)
        # unknown iterable: any number of iterations with arbitrary elements
        pair = isinstance(it, VGenIter) and getattr(it, "pair", False)

        def elem(x):
            if isinstance(it, VGenIter) and it.kind == "finditer" and isinstance(it.subj, VStr):
                k0 = self.fint("mk")
                mv = VMatch(it.pat, 1, it.subj, k0)
                x = x.assume(k0 >= 0, L.rx_found(*mv.a))
                return x, mv
            return x, (VTup([VUnk("key"), VUnk("value")]) if pair else VUnk("element"))

        def bnd(x):
            x, v = elem(x)
            return bindt(x, v)
        return self.loop(st, s, lambda x: self.fork(x, self.fbool("more")), bnd, lambda x: x, s.body, s.orelse, [], False)

    def const_items(self, st, v):
        if isinstance(v, VTup):
            return v.items
        if isinstance(v, VPy) and isinstance(v.o, (list, tuple, str)):
            return [self.lift(x) for x in v.o]
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList) and not isinstance(st.heap[v.id], HSet):
            return st.heap[v.id].items
        return None

    def loop_list(self, st0, s, ref, g, kk, enum_start):
        def lt(x):
            return self.list_term(x, x.heap[ref.id])

        def bnd(x):
            h = x.heap[ref.id]
            kind = self.join_elem(x, h)
            el = L.lat(lt(x), kk(x))
            x = x.assume(*self.kind_fact(el, kind))
            v = self.unbox(x, el, kind)
            return self.assign(x, s.target, v if enum_start is None else VTup([VInt(kk(x) + enum_start.t), v]))
        hid = ref.id
        outs = self.loop(st0, s, lambda x: self.fork(x, kk(x) < L.llen(lt(x))), bnd,
                         lambda x: self.setvar(x, g, VInt(kk(x) + 1)), s.body, s.orelse, [g], False, frozen=hid)
        return outs

    def unwind(self, st, s, lim):
        """a loop that ends after at most lim iterations, which is checked: beyond, the state must be contradictory"""
        live, out = [st], []
        for n in range(lim + 1):
            nxt = []
            for x in live:
                if not self.feasible(x):
                    continue
                if n == lim and any(b is True and self.feasible(y) for y, b in self.cond(x, s.test)):
                    raise Unsupported("loop with more than %d iterations (line %s)" % (lim, s.lineno))
                backs, others, exits = self.iterate(x, lambda h: self.cond(h, s.test), lambda h: [("next", h, None)], lambda h: h, s.body, s)
                nxt += [e for _, e in backs]
                out += others
                for e in exits:
                    out += self.block(e, s.orelse)
            live = [o[1] for o in self.merge([("next", x, None) for x in nxt])]
            if len(live) + len(out) > self.maxpaths:
                raise Budget("path explosion in unwound loop line %s" % s.lineno)
        return self.merge(out)

    def unroll(self, st, s, items):
        live = [st]
        out = []
        for v in items:
            nxt = []
            for x in live:
                for k, s2, p in self.assign(x, s.target, v):
                    if k != "next":
                        out.append((k, s2, p))
                        continue
                    for k3, s3, p3 in self.block(s2, s.body):
                        if k3 in ("next", "continue"):
                            nxt.append(s3)
                        elif k3 == "break":
                            out.append(("next", s3, None))
                        else:
                            out.append((k3, s3, p3))
            live = [o[1] for o in self.merge([("next", x, None) for x in nxt])]
            if len(live) + len(out) > self.maxpaths:
                raise Budget("path explosion in unrolled loop line %s" % s.lineno)
        for x in live:
            out += self.block(x, s.orelse)
        return self.merge(out)

    def dead_vars(self, node, body, names):
        """variables of names that are not read any more when control is at the loop's head"""
        lv = self.lives.get(id(node))
        return set() if lv is None else set(names) - lv.head.get(id(node), set(names))

    # ---- the general loop rule
    def loop(self, st, node, cond, bindt, post, body, orelse, ghosts, need_measure, frozen=None):
        rec = self.recording
        self.recording = False
        forced = []
        try:
            prev, self.unk_match = self.unk_match, False
            locs = self.loop_locs(st, node, cond, bindt, post, body, ghosts)
            lost, self.unk_match = self.unk_match, prev
            if lost and not self.shape_mode and id(node) not in self.no_positions:
                # what is matched stays expressible if the positions the slices start at stay inside the texts: suppose so, then check
                forced = self.slice_positions(node)
                if forced:
                    locs = self.loop_locs(st, node, cond, bindt, post, body, ghosts, forced)
            if frozen is not None and ("list", frozen) in locs:
                raise Unsupported("list modified while iterated (line %s)" % node.lineno)
            H = self.havoc(st, locs)
            if self.shape_mode:
                out = []
                for h in H:
                    if self.feasible(h):
                        _, others, exits = self.iterate(h, cond, bindt, post, body, node)
                        out += others
                        for s2 in exits:
                            out += self.block(s2, orelse)
                return out
            cands = self.candidates(st, locs, node)
            flt = self.filters.get(id(node))
            if flt is not None:
                cands = [c for c in cands if c[0] in flt]
            cands = self.refute(node, cands)
            cands += [("position %s in %s" % (p, x), lambda e, x=x, p=p: self.in_text(e, x, p), None) for x, p in forced]
            ents = [c for c in cands if self.holds(st, c)]
            if DEBUG:
                print("loop", node.lineno, "not established:", [c[0] for c in cands if c not in ents and c[0].startswith("inv")])
            saved = dict(self.filters)
            while True:
                fails = set()
                self.collect.append({})
                heads = []
                for h in H:
                    h = self.assume_cands(h, ents)
                    if not self.feasible(h):
                        continue
                    heads.append(h)
                    backs = self.iterate(h, cond, bindt, post, body, node)[0]
                    for hb, e in backs:
                        fs = []
                        for c in ents:
                            if c[0] in fails:
                                continue
                            f = c[1](e)
                            ext = list(S.EXT)
                            S.EXT.clear()
                            if f is None or z3.is_true(z3.simplify(f)):
                                continue
                            fs.append((c, f, ext))
                        if not fs:
                            continue
                        if len(fs) > 1 and self.valid(e.assume(*[x for _, _, ext in fs for x in ext]), z3.And([f for _, f, _ in fs])):
                            continue
                        for c, f, ext in fs:
                            if not self.valid(e.assume(*ext), f):
                                fails.add(c[0])
                got = self.collect.pop()
                self.filters.update(got)
                if DEBUG:
                    print("loop", node.lineno, "not preserved:", [x for x in fails if x.startswith("inv")])
                if not fails:
                    break
                ents = [c for c in ents if c[0] not in fails]
            names = {c[0] for c in ents}
            if not all("position %s in %s" % (p, x) in names for x, p in forced):
                self.filters = saved
                self.no_positions.add(id(node))
                self.recording = rec
                return self.loop(st, node, cond, bindt, post, body, orelse, ghosts, need_measure, frozen)
            self.loop_ents[node.lineno] = [c[0] for c in ents]
        finally:
            self.recording = rec
        for d in self.collect:
            d[id(node)] = d.get(id(node), set()) | names
        out = []
        allbacks = []
        for h in heads:
            backs, others, exits = self.iterate(h, cond, bindt, post, body, node)
            allbacks += backs
            out += others
            for s2 in exits:
                out += self.block(s2, orelse)
        self.filters = saved
        if rec:
            self.obl.append(dict(kind="loop invariant", where="loop line %d: %d inferred conjuncts established and preserved" % (node.lineno, len(ents)),
                                 status="valid", backend="z3", detail="", goal=""))
            if need_measure and allbacks and (self.c is None or self.c.total):
                self.termination(st, node, allbacks, locs)
        return out

    def iterate(self, h, cond, bindt, post, body, node):
        """one iteration from head state h -> (back edges [(entry-of-body state, end state)], other outcomes, exit states)"""
        backs, others, exits = [], [], []
        for s, b in cond(h):
            if isinstance(b, VRaise):
                others.append(("raise", s, b))
                continue
            if not b:
                exits.append(s)
                continue
            for k0, s0, p0 in bindt(s):
                if k0 != "next":
                    others.append((k0, s0, p0))
                    continue
                for k, e, p in self.block(s0, body):
                    if k in ("next", "continue"):
                        backs.append((s, post(e)))
                    elif k == "break":
                        others.append(("next", e, None))
                    else:
                        others.append((k, e, p))
        return backs, others, exits

    def shape(self, st, v, base):
        if isinstance(v, VInt):
            return ("int",)
        if isinstance(v, VBool):
            return ("bool",)
        if isinstance(v, VStr):
            return ("chr",) if v.ch is not None else ("str",)
        if isinstance(v, VNone):
            nm = v.of is not None and z3.is_int_value(v.of.k) and self.match_var(st, v.of)
            return ("nonev", _Box(v.of.pat, v.of.pat.o), nm, v.of.mode.as_long(), v.of.k.as_long()) if nm else ("none",)
        if v is UNBOUND:
            return ("unbound",)
        if v is ABSENT:
            return ("absent",)
        if isinstance(v, VTup):
            return ("tup",) + tuple(self.shape(st, x, base) for x in v.items)
        if isinstance(v, VRef):
            if v.id in base.heap:
                return ("ref", v.id)
            h = st.heap[v.id]
            if isinstance(h, HSet):
                return ("newset",)
            if isinstance(h, HList):
                return ("newlist", self.join_elem(st, h) if (h.items is None or h.items) else "none!")
            if isinstance(h, HDict):
                return ("newdict",)
            return ("unk",)
        if isinstance(v, (VPy, VClos, VInf, VGenIter)):
            return ("same", _Box(v))
        if isinstance(v, VPat):
            return ("same", _Box(v)) if v.o is not None else ("patv",)
        if isinstance(v, VMatch):
            sl = z3.is_int_value(v.k) and self.match_slice(st, v)
            if sl:
                return ("mslice", _Box(v.pat, v.pat.t.get_id()), *sl, v.mode.as_long(), v.k.as_long())
            if v.pat.o is not None:
                nm = self.match_var(st, v)
                if nm and not z3.is_int_value(v.k):
                    return ("matchk", _Box(v.pat, v.pat.o), nm, v.mode.as_long())
                if nm:
                    return ("matchv", _Box(v.pat, v.pat.o), nm, v.mode.as_long(), v.k.as_long())
                return ("match", _Box(v.pat, v.pat.o), _Box(v.subj, v.subj.t.get_id()), v.mode.as_long())
            self.unk_match = True
            return ("unk",)
        return ("unk",)

    def match_slice(self, st, m):
        """(x, p): the text that was matched against is x[p:] for the local variables x and p, one of them assigned in the loop"""
        t = m.subj.t
        if m.subj.ch is not None or not z3.is_app(t) or not t.decl().eq(L.sub):
            return None
        a, lo, hi = t.children()
        if not hi.eq(L.slen(a)):
            return None
        for x, p in self.positions:
            v, w = st.env.get(x), st.env.get(p)
            if isinstance(v, VStr) and v.ch is None and v.t.eq(a) and isinstance(w, VInt) and w.t.eq(lo):
                return x, p
        return None

    def match_var(self, st, m):
        """a local variable, assigned in the loop being summarised, whose current value is the text that was matched against"""
        if m.pat.o is None:
            return None
        for nm in sorted(getattr(self, "loop_vars", ())):
            v = st.env.get(nm)
            if isinstance(v, VStr) and v.ch is None and v.t.eq(m.subj.t):
                return nm
        return None

    def unshape(self, st, sh, base, name):
        k = sh[0]
        if k in ("matchv", "nonev"):
            m = VMatch(sh[1].v, sh[3], st.env[sh[2]], z3.IntVal(sh[4]))
            if k == "matchv":
                return st.assume(L.rx_found(*m.a), *self.match_facts(m)), m
            n = VNone()
            n.of = m
            return st.assume(z3.Not(L.rx_found(*m.a))), n
        if k == "patv":
            return st, VPat(z3.Const("%s!%d" % (name, self.fresh_id()), L.Pat))
        if k == "mslice":
            x = st.env[sh[2]].t
            m = VMatch(sh[1].v, sh[4], VStr(L.sub(x, st.env[sh[3]].t, L.slen(x))), z3.IntVal(sh[5]))
            return st.assume(L.rx_found(*m.a), *self.match_facts(m)), m
        if k == "matchk":
            m = VMatch(sh[1].v, sh[3], st.env[sh[2]], self.fint(name + "_pos"))
            return st.assume(L.rx_found(*m.a), *self.match_facts(m)), m
        if k == "int":
            return st, VInt(self.fint(name))
        if k == "bool":
            return st, VBool(self.fbool(name))
        if k == "str":
            return st, VStr(self.fstr(name))
        if k == "chr":
            return st, VStr(ch=self.fint(name))
        if k == "none":
            return st, VNone()
        if k == "unbound":
            return st, UNBOUND
        if k == "absent":
            return st, ABSENT
        if k == "tup":
            vs = []
            for i, x in enumerate(sh[1:]):
                st, v = self.unshape(st, x, base, name)
                vs.append(v)
            return st, VTup(vs)
        if k == "ref":
            return st, VRef(sh[1])
        if k == "newset":
            return self.alloc(st, HSet(None, self.flst(name), "any"))
        if k == "newlist":
            return self.alloc(st, HList(None, self.flst(name), sh[1] if sh[1] != "none!" else "any"))
        if k == "newdict":
            return self.alloc(st, HDict({}, open=True))
        if k == "same":
            return st, sh[1].v
        if k == "match":
            m = VMatch(sh[1].v, sh[3], sh[2].v, self.fint(name + "_pos"))
            return st.assume(L.rx_found(*m.a), *self.match_facts(m)), m
        return st, VUnk(name)

    def slice_positions(self, node):
        """the pairs (x, p) of variables such that x[p:] occurs in the loop and p is assigned in it"""
        out = set()
        lv = set(assigned_names(node.body))
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice) and n.slice.upper is None and isinstance(n.value, ast.Name) and isinstance(n.slice.lower, ast.Name) and n.slice.lower.id in lv:
                out.add((n.value.id, n.slice.lower.id))
        return sorted(out)

    def in_text(self, st, x, p):
        v, w = st.env.get(x), st.env.get(p)
        if not (isinstance(v, VStr) and isinstance(w, VInt)):
            return z3.BoolVal(False)
        return z3.And(w.t >= 0, w.t <= L.slen(v.t))

    def loop_locs(self, st, node, cond, bindt, post, body, ghosts, forced=()):
        locs = {}
        loop_vars = self.loop_vars = set(assigned_names(body))
        positions = self.positions = self.slice_positions(node)

        def add(loc, sh):
            d = locs.setdefault(loc, [])
            if sh not in d:
                d.append(sh)
                if DEBUG:
                    print("loop", node.lineno, "shape", loc, sh)
                return True
            return False
        names = list(ghosts) + assigned_names(body)
        others = [n for n, v in st.env.items() if v is not UNBOUND and n in st.frames[st.fid][1].get("locals", ())]
        dead = (self.dead_vars(node, body, assigned_names(body) + others) - set(ghosts)) | {x + "m" for x in ghosts}
        names += [x for x in others if x in dead and x not in names]
        for nm in names:
            if nm in dead:
                if nm in st.env:
                    add(("var", st.fid, nm), ("unbound",))
                continue
            fid = st.fid
            while fid is not None:
                env, meta = st.frames[fid]
                if nm in env:
                    add(("var", fid, nm), self.shape(st, env[nm], st))
                    break
                fid = meta.get("parent")
        for _ in range(8):
            changed = False
            H = self.havoc(st, locs)
            for h in H:
                h = h.assume(*[self.in_text(h, x, p) for x, p in forced])
                if not self.feasible(h):
                    continue
                sm, self.shape_mode = self.shape_mode, True
                try:
                    its = self.iterate(h, cond, bindt, post, body, node)[0]
                finally:
                    self.shape_mode = sm
                    self.loop_vars, self.positions = loop_vars, positions
                for _, e in its:
                    for fid, (env, meta) in st.frames.items():
                        if fid not in e.frames:
                            continue
                        for nm, v in e.frames[fid][0].items():
                            h0 = h.frames[fid][0].get(nm, UNBOUND)
                            if v is h0:
                                continue
                            if isinstance(v, VRef) and isinstance(h0, VRef) and v.id == h0.id and ("var", fid, nm) not in locs:
                                continue
                            loc = ("var", fid, nm)
                            if fid == st.fid and nm in dead:
                                changed |= add(loc, ("unbound",))
                                continue
                            if loc not in locs:
                                changed |= add(loc, self.shape(st, env.get(nm, UNBOUND), st))
                            sh = self.shape(e, v, st)
                            if isinstance(v, VRef) and isinstance(h0, VRef) and v.id == h0.id and v.id not in st.heap:
                                continue   # unchanged reference to the havocked object
                            changed |= add(loc, sh)
                    for i, r0 in st.heap.items():
                        r1, rh = e.heap.get(i), h.heap.get(i)
                        if r1 is rh or r1 is None:
                            continue
                        if isinstance(r1, HTail):
                            raise Unsupported("a list with an unknown beginning is modified in a loop (line %s)" % node.lineno)
                        if isinstance(r1, HList):
                            k1 = self.join_elem(e, r1) if (r1.items is None or r1.items) else "none!"
                            k0 = self.join_elem(st, r0) if (r0.items is None or r0.items) else "none!"
                            changed |= add(("list", i), k0)
                            changed |= add(("list", i), k1)
                        elif isinstance(r1, HDict):
                            if r1.open and not rh.open:
                                changed |= add(("open", i), True)
                            for k in set(r1.items) | set(rh.items):
                                a, b = r1.items.get(k, None), rh.items.get(k, None)
                                if a is b:
                                    continue
                                if isinstance(a, VRef) and isinstance(b, VRef) and a.id == b.id:
                                    continue
                                if k not in r0.items and r0.open and b is None:
                                    # lazily materialised key of an open dict: not a modification unless assigned
                                    if not self._assigned_key(body, k):
                                        continue
                                loc = ("key", i, k)
                                if k not in r0.items and ("open", i) in locs:
                                    continue
                                if loc not in locs and k not in r0.items and sum(x[:2] == ("key", i) and x[2] not in r0.items for x in locs) >= 3:
                                    # a growing dict: any further keys
                                    for x in [x for x in locs if x[:2] == ("key", i)]:
                                        del locs[x]
                                    changed |= add(("open", i), True)
                                    continue
                                if loc not in locs:
                                    v0 = r0.items.get(k, ABSENT if not r0.open else None)
                                    changed |= add(loc, self.shape(st, v0, st) if v0 is not None else ("unk?",))
                                changed |= add(loc, self.shape(e, a, st) if a is not None else ("unk?",))
                        elif isinstance(r1, HObj):
                            for k in set(r1.attrs) | set(rh.attrs):
                                a, b = r1.attrs.get(k), rh.attrs.get(k)
                                if a is b or (isinstance(a, VRef) and isinstance(b, VRef) and a.id == b.id):
                                    continue
                                if b is None and k not in r0.attrs and not self._assigned_attr(k):
                                    continue
                                loc = ("attr", i, k)
                                if loc not in locs:
                                    v0 = r0.attrs.get(k)
                                    if v0 is None:
                                        changed |= add(loc, ("lazy",))
                                    else:
                                        changed |= add(loc, self.shape(st, v0, st))
                                changed |= add(loc, self.shape(e, a, st))
            if not changed:
                return locs
        raise Unsupported("loop line %d: shapes do not stabilise" % node.lineno)

    def _assigned_key(self, body, k):
        return True

    def _assigned_attr(self, k):
        return True

    def havoc(self, st, locs):
        """head states: every modified location arbitrary, one state per combination of shapes"""
        opts = []
        for loc, shs in locs.items():
            if loc[0] in ("list", "open"):
                continue
            ss = [s for s in shs]
            if ("str",) in ss and ("chr",) in ss:
                ss.remove(("chr",))
            if ("int",) in ss and ("bool",) in ss:
                ss.remove(("bool",))
            if any(s[0] == "newlist" for s in ss):
                kinds = {s[1] for s in ss if s[0] == "newlist"} - {"none!"}
                ss = [s for s in ss if s[0] != "newlist"] + [("newlist", _join_kinds(kinds) if kinds else "any")]
                # lists existing before the loop that the variable may still denote
            if ("unk",) in ss or ("unk?",) in ss:
                refs = [s for s in ss if s[0] in ("ref", "unbound", "absent")]
                ss = [("unk",)] + refs
            opts.append((loc, ss))
        n = 1
        for _, ss in opts:
            n *= max(1, len(ss))
        if n > MAXSHAPES * 2:
            opts.sort(key=lambda x: -len(x[1]))
            new = []
            for loc, ss in opts:
                if n > MAXSHAPES * 2 and len(ss) > 1 and not any(s[0] in ("ref", "unbound") for s in ss):
                    n //= len(ss)
                    ss = [("unk",)]
                new.append((loc, ss))
            opts = new
        out = []
        for combo in itertools.product(*[ss for _, ss in opts]):
            s = st.copy()
            for (loc, _), sh in sorted(zip(opts, combo), key=lambda x: x[1][0] in ("matchv", "matchk", "mslice", "nonev")):
                nm = str(loc[2])
                if sh[0] in ("matchv", "matchk", "mslice", "nonev") and not (isinstance(s.env.get(sh[2]), VStr) and (sh[0] != "mslice" or isinstance(s.env.get(sh[3]), VInt))):
                    sh = ("unk",) if sh[0] != "nonev" else ("none",)
                s, v = self.unshape(s, sh, st, nm) if sh[0] != "lazy" else (s, None)
                s = s.copy()
                if loc[0] == "var":
                    s.frames[loc[1]][0][loc[2]] = v
                elif loc[0] == "attr":
                    h = s.heap[loc[1]]
                    a = dict(h.attrs)
                    if v is None:
                        a.pop(loc[2], None)
                    else:
                        a[loc[2]] = v
                    s.heap[loc[1]] = HObj(h.cls, a, h.types)
                elif loc[0] == "key":
                    h = s.heap[loc[1]]
                    s.heap[loc[1]] = HDict({**h.items, loc[2]: v}, h.open, h.deflt, h.types)
            for loc, shs in locs.items():
                if loc[0] == "list":
                    kinds = set(shs) - {"none!"}
                    cls = type(s.heap[loc[1]])
                    s.heap[loc[1]] = cls(None, self.flst("L%d" % loc[1]), _join_kinds(kinds) if kinds else "any")
                elif loc[0] == "open":
                    h = s.heap[loc[1]]
                    s.heap[loc[1]] = HDict({}, True, h.deflt, h.types)
            out.append(s)
        return out

    # ---- candidate invariants
    def vis(self, st):
        """visible local variables: {name: value} (innermost first)"""
        d = {}
        fid = st.fid
        while fid is not None:
            env, meta = st.frames[fid]
            for n, v in env.items():
                d.setdefault(n, v)
            fid = meta.get("parent")
        return d

    def getv(self, st, name):
        if name.startswith("self."):
            s = self.vis(st).get("self")
            if isinstance(s, VRef) and isinstance(st.heap[s.id], HObj):
                return st.heap[s.id].attrs.get(name[5:])
            return None
        return self.vis(st).get(name)

    def int_of(self, st, ref):
        """integer term for a named quantity: ('v', name) value, ('n', name) length"""
        v = self.getv(st, ref[1])
        if v is None:
            return None
        if ref[0] == "v":
            return v.t if isinstance(v, VInt) else None
        if isinstance(v, VStr):
            return L.slen(v.t)
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList) and not isinstance(st.heap[v.id], HSet):
            h = st.heap[v.id]
            return z3.IntVal(len(h.items)) if h.items is not None else L.llen(h.term)
        return None

    def quantities(self, st, locs):
        mod_vars = {l[2] for l in locs if l[0] == "var"}
        mod_lists = {l[1] for l in locs if l[0] == "list"}
        mod, fix = [], []
        H = self.havoc(st, locs)
        names = []
        for h in [st] + H[:4]:
            for n in self.vis(h):
                if n not in names:
                    names.append(n)
        for n in names:
            kinds = set()
            islist = False
            lm = False
            for h in [st] + H[:4]:
                v = self.vis(h).get(n)
                if isinstance(v, VInt):
                    kinds.add("v")
                elif isinstance(v, VStr) and v.ch is None:
                    kinds.add("n")
                elif isinstance(v, VRef) and isinstance(h.heap[v.id], HList) and not isinstance(h.heap[v.id], HSet):
                    kinds.add("n")
                    lm = lm or v.id in mod_lists
            for k in sorted(kinds):
                (mod if (n in mod_vars or lm) else fix).append((k, n))
        return mod, fix, names

    def candidates(self, st, locs, node):
        mod, fix, names = self.quantities(st, locs)
        # scope the search to the innermost function frame
        top = set()
        fid = st.fid
        while fid is not None:
            env, meta = st.frames[fid]
            top |= set(env)
            fid = meta.get("parent")
        out = []
        q = self.int_of

        def add(name, fn, cf=None):
            out.append((name, fn, cf))

        def rel(nm, a, b, op):
            def f(s):
                x, y = q(s, a), q(s, b)
                return None if x is None or y is None else op(x, y)

            def cf(e0, el, e):
                x, y = cq(e, a), cq(e, b)
                return None if x is None or y is None else op(x, y)
            add(nm, f, cf)
        ent = {r: q(st, r) for r in mod + fix}
        allq = mod + fix
        if len(allq) > 14:
            allq = mod[:10] + fix[:6]
            mod = mod[:10]
        for r in mod:
            def ge(c, r=r):
                def f(s):
                    x = q(s, r)
                    return None if x is None else x >= c
                return f

            def cge(c, r=r):
                return lambda e0, el, e: None if cq(e, r) is None else cq(e, r) >= c
            if r[0] == "v":
                add("%s>=0" % (r,), ge(0), cge(0))
                add("%s>=-1" % (r,), ge(-1), cge(-1))
                add("%s>=1" % (r,), ge(1), cge(1))
            e = ent.get(r)
            if e is not None:
                add("%s>=entry" % (r,), ge(e), lambda e0, el, e, r=r: None if cq(e, r) is None or cq(el, r) is None else cq(e, r) >= cq(el, r))

                def le(s, r=r, e=e):
                    x = q(s, r)
                    return None if x is None else x <= e
                add("%s<=entry" % (r,), le, lambda e0, el, e, r=r: None if cq(e, r) is None or cq(el, r) is None else cq(e, r) <= cq(el, r))
            for p in allq:
                if p == r:
                    continue
                if r[0] == "n" and p[0] == "n":
                    continue
                rel("%s<=%s" % (r, p), r, p, lambda x, y: x <= y)
                if p not in mod:
                    rel("%s>=%s" % (r, p), r, p, lambda x, y: x >= y)
                rel("%s<%s" % (r, p), r, p, lambda x, y: x < y)
            for p in mod:
                if p > r and e is not None and ent.get(p) is not None:
                    def d(s, r=r, p=p, e=e, e2=ent[p]):
                        x, y = q(s, r), q(s, p)
                        return None if x is None or y is None else z3.simplify(x - y) == z3.simplify(e - e2)
                    add("%s-%s const" % (r, p), d, lambda e0, el, e, r=r, p=p: None if None in (cq(e, r), cq(el, r), cq(e, p), cq(el, p))
                        else cq(e, r) - cq(e, p) == cq(el, r) - cq(el, p))

                    def sm(s, r=r, p=p, e=e, e2=ent[p]):
                        x, y = q(s, r), q(s, p)
                        return None if x is None or y is None else x + y == e + e2
                    add("%s+%s const" % (r, p), sm, lambda e0, el, e, r=r, p=p: None if None in (cq(e, r), cq(el, r), cq(e, p), cq(el, p))
                        else cq(e, r) + cq(e, p) == cq(el, r) + cq(el, p))
        # every modified string: suffix of its entry value / of a fixed string
        for r in mod:
            if r[0] != "n":
                continue
            v0 = self.getv(st, r[1])
            srcs = []
            if isinstance(v0, VStr):
                srcs.append(("entry", v0))
            for p in fix:
                if p[0] == "n" and isinstance(self.getv(st, p[1]), VStr):
                    srcs.append((p[1], self.getv(st, p[1])))
            for nm, w in srcs:
                def suf(s, r=r, w=w):
                    v = self.getv(s, r[1])
                    if not isinstance(v, VStr) or v.ch is not None:
                        return None
                    n, m = L.slen(w.t), L.slen(v.t)
                    return z3.And(m <= n, S.eq_terms(T("str", v.t), T("str", L.sub(w.t, n - m, n))))

                def csuf(e0, el, e, r=r, nm=nm):
                    a, b = e.get(r[1]), (el.get(r[1]) if nm == "entry" else e.get(nm))
                    return b.endswith(a) if isinstance(a, str) and isinstance(b, str) else None
                add("%s suffix of %s" % (r, nm), suf, csuf)
        # contract templates
        c = self.c
        if c is not None:
            mod_names = {l[2] for l in locs if l[0] == "var"}
            for l in locs:
                if l[0] == "list":
                    for n in names:
                        for h in [st]:
                            v = self.vis(h).get(n)
                            if isinstance(v, VRef) and v.id == l[1]:
                                mod_names.add(n)
            for tpl in c.templates:
                out += self.instantiate(st, locs, tpl, names, mod_names)
        return out

    def hole_ok(self, st, v, ty):
        if ty in ("Int", "IntV", "IntM", "IntF"):
            return isinstance(v, VInt)
        if ty in ("ListS", "ListT"):
            if not self.hole_ok(st, v, "List"):
                return False
            h = st.heap[v.id]
            ks = {self.kind_of(st, x) for x in h.items} if h.items is not None else {h.elem}
            return all(k in ("any", "none!") or (k in ("str", "chr") if ty == "ListS" else isinstance(k, tuple) and k[0] == "tuple") for k in ks)
        if ty in ("Str", "StrM"):
            return isinstance(v, VStr)
        if ty == "Bool":
            return isinstance(v, VBool)
        if ty == "List":
            return isinstance(v, VRef) and isinstance(st.heap[v.id], HList) and not isinstance(st.heap[v.id], HSet)
        if ty == "Pat":
            return isinstance(v, VPat)
        if ty == "Any":
            return v is not None and v is not UNBOUND
        return False

    def instantiate(self, st, locs, tpl, names, mod_names, need_mod=True):
        H = self.havoc(st, locs)[:6]
        opts = []
        for hn, ty in tpl.holes:
            os = []
            for n in names:
                if ty in ("IntM", "StrM") and n not in mod_names or ty == "IntF" and n in mod_names:
                    continue
                vs = [(h, self.vis(h).get(n)) for h in [st] + H]
                if any(self.hole_ok(h, v, ty) for h, v in vs) and not (ty in ("ListS", "ListT") and any(
                        self.hole_ok(h, v, "List") and not self.hole_ok(h, v, ty) for h, v in vs)):
                    os.append(n)
            if ty == "Int":
                os.append("=0")
            opts.append(os)
        out = []
        n = 0
        for combo in itertools.product(*opts):
            vs = [x for x in combo if not x.startswith("=")]
            if len(set(vs)) != len(vs):
                continue
            if need_mod and not any(x in mod_names for x in vs):
                continue
            n += 1
            if n > 300:
                break

            def f(s, combo=combo):
                env = dict(s.entry)
                for (hn, ty), nm in zip(tpl.holes, combo):
                    if nm == "=0":
                        env[hn] = S.const(0)
                        continue
                    v = self.getv(s, nm)
                    if v is None or not self.hole_ok(s, v, ty):
                        return None
                    env[hn] = self.to_T(s, v)
                tr = S.Tr(env, globs=tpl.globs)
                return tr.bool(tpl.expr)
            def cf(e0, el, e, combo=combo):
                env = dict(e0)
                for (hn, ty), nm in zip(tpl.holes, combo):
                    v = 0 if nm == "=0" else e.get(nm, _MISS)
                    if v is _MISS or not _chole(v, ty):
                        return None
                    env[hn] = v
                if not hasattr(tpl, "code"):
                    tpl.code = concrete.compile_expr(tpl.expr)
                return bool(eval(tpl.code, tpl.globs, env))
            out.append(("%s%r" % (tpl.name + "@%d" % tpl.expr.lineno, combo), f, cf))
        return out

    def refute(self, node, cands):
        """drop the candidates that a sample run of the real function contradicts"""
        c = self.c
        if c is None or self.inline_depth():
            return cands
        if c.target not in _TRACES:
            try:
                _TRACES[c.target] = concrete.traces(c)
            except Exception:
                _TRACES[c.target] = {}
        tr = _TRACES[c.target].get(node.lineno, [])
        if not tr:
            return cands
        out = []
        for cd in cands:
            ok = True
            if cd[2] is not None:
                for e0, el, e in tr:
                    try:
                        if cd[2](e0, el, e) is False:
                            ok = False
                            break
                    except Exception:
                        pass
            if ok:
                out.append(cd)
            elif DEBUG and cd[0].startswith("inv"):
                print("refuted", cd[0])
        return out

    def inline_depth(self):
        return len(getattr(self, "inline_stack", [0])) > 1

    def holds(self, st, c):
        f = c[1](st)
        if f is None:
            S.EXT.clear()
            return True
        st = self.flush(st)
        if z3.is_true(z3.simplify(f)):
            return True
        return self.valid(st, f)

    def assume_cands(self, h, ents):
        fs = []
        for c in ents:
            f = c[1](h)
            if f is not None:
                fs.append(f)
        S.EXT.clear()
        return h.assume(*fs)

    # ---- termination
    def termination(self, st, node, backs, locs):
        mod, fix, names = self.quantities(st, locs)
        q = self.int_of
        ms = []
        for r in mod:
            for p in fix + [m for m in mod if m != r]:
                ms.append(("%s - %s" % (p[1], r[1]), lambda s, r=r, p=p: _sub(q(s, p), q(s, r))))
            ms.append((str(r[1]), lambda s, r=r: q(s, r)))
        for tpl in (self.c.measures if self.c is not None else []):
            mn = {l[2] for l in locs if l[0] == "var"}
            for nm, f in self.inst_measure(st, locs, tpl, names):
                ms.insert(0, (nm, f))
        tried = []
        for nm, f in ms:
            ok = True
            for h, e in backs:
                m0, m1 = f(h), f(e)
                S.EXT.clear()
                if m0 is None or m1 is None:
                    ok = False
                    break
                if not self.valid(e, z3.And(m0 >= 0, m1 < m0)):
                    ok = False
                    break
            if ok:
                self.obl.append(dict(kind="termination", where="loop line %d decreases %s" % (node.lineno, nm), status="valid", backend="z3", detail="", goal=""))
                return
            tried.append(nm)
        self.obl.append(dict(kind="termination", where="loop line %d" % node.lineno, status="failed", backend="",
                             detail="no decreasing measure among %s" % tried[:20], goal="loop terminates", model=None, st=backs[0][1]))

    def inst_measure(self, st, locs, tpl, names):
        H = self.havoc(st, locs)[:6]
        opts = []
        for hn, ty in tpl.holes:
            opts.append([n for n in names if any(self.hole_ok(h, self.vis(h).get(n), ty) for h in [st] + H)])
        out = []
        for combo in itertools.product(*opts):
            if len(set(combo)) != len(combo):
                continue

            def f(s, combo=combo):
                env = dict(s.entry)
                for (hn, ty), nm in zip(tpl.holes, combo):
                    v = self.getv(s, nm)
                    if v is None or not self.hole_ok(s, v, ty):
                        return None
                    env[hn] = self.to_T(s, v)
                return S.Tr(env, globs=tpl.globs).ev(tpl.expr).t
            out.append(("%s%r" % (tpl.name, combo), f))
        return out


_TRACES = {}
_MISS = object()


def _chole(v, ty):
    if ty in ("ListS", "ListT"):
        return isinstance(v, list) and all(isinstance(x, str if ty == "ListS" else tuple) for x in v)
    if ty in ("Int", "IntV", "IntM", "IntF"):
        return isinstance(v, int) and not isinstance(v, bool)
    return {"Str": isinstance(v, str), "StrM": isinstance(v, str), "Bool": isinstance(v, bool), "List": isinstance(v, list),
            "Pat": hasattr(v, "finditer"), "Any": True}.get(ty, False)


def cq(e, r):
    v = e.get(r[1])
    if r[0] == "v":
        return v if isinstance(v, int) and not isinstance(v, bool) else None
    return len(v) if isinstance(v, (str, list)) else None


def _sub(a, b):
    return None if a is None or b is None else a - b


class _Box:
    def __init__(self, v, key=None):
        self.v, self.key = v, key

    def k(self):
        v = self.v
        if self.key is not None:
            return ("k", self.key if not hasattr(self.key, "pattern") else (self.key.pattern, self.key.flags))
        if isinstance(v, VPy):
            return ("py", id(v.o))
        if isinstance(v, VPat):
            return ("pat", v.t.get_id())
        if isinstance(v, VClos):
            return ("clos", id(v.node), v.fid)
        if isinstance(v, VInf):
            return ("inf",)
        return ("id", id(v))

    def __eq__(self, o):
        return isinstance(o, _Box) and self.k() == o.k()

    def __hash__(self):
        return hash(self.k())


def _same_store(a, b, gc=False):
    if a.fid != b.fid or set(a.frames) != set(b.frames):
        return False
    for f in a.frames:
        ea, eb = a.frames[f][0], b.frames[f][0]
        if ea is eb:
            continue
        if set(ea) != set(eb):
            return False
        for n in ea:
            if ea[n] is not eb[n] and not _same_val(ea[n], eb[n]):
                return False
    diff = [i for i in set(a.heap) | set(b.heap) if a.heap.get(i) is not b.heap.get(i)]
    if not diff:
        return True
    if not gc:
        return False
    mark = a.frames[a.fid][1].get("mark")
    if mark is None or any(i < mark for i in diff):
        return False
    return not (set(diff) & (reach(a) | reach(b)))


def _same_heap(v, g, seen=()):
    """everything reachable from the reference is the same in all the states"""
    if v.id in seen:
        return True
    h = g[0].heap.get(v.id)
    if h is None or any(x.heap.get(v.id) is not h for x in g[1:]):
        return False
    sub = h.items.values() if isinstance(h, HDict) else h.items or () if isinstance(h, (HList, HTail)) else h.attrs.values() if isinstance(h, HObj) else ()
    todo = list(sub)
    while todo:
        y = todo.pop()
        if isinstance(y, VTup):
            todo += y.items
        elif isinstance(y, VRef) and not _same_heap(y, g, seen + (v.id,)):
            return False
    return True


def _signature(st):
    def deep(v, seen=()):
        """objects hanging from an object keep their contents apart"""
        h = st.heap.get(v.id)
        if v.id in seen:
            return ("ref", v.id)
        sub = h.items.values() if isinstance(h, HDict) else h.items or () if isinstance(h, (HList, HTail)) else h.attrs.values() if isinstance(h, HObj) else ()
        return ("ref", v.id, id(h)) + tuple(deep(x, seen + (v.id,)) for x in sub if isinstance(x, VRef))

    def sig(v):
        if isinstance(v, VTup):
            return ("tup",) + tuple(sig(x) for x in v.items)
        if isinstance(v, VRef) and isinstance(st.heap.get(v.id), HObj):
            h = st.heap[v.id]
            return ("obj", v.id, tuple((a, ("id", id(x)) if isinstance(x, VUnk) else deep(x) if isinstance(x, VRef) else sig(x)) for a, x in h.attrs.items()))
        if isinstance(v, (VInt, VBool, VStr)):
            return type(v).__name__
        if isinstance(v, VRef) and isinstance(st.heap.get(v.id), HDict):
            h = st.heap[v.id]
            return ("dict", h.open) + tuple((k, "absent" if x is ABSENT else sig(x)) for k, x in h.items.items())
        if isinstance(v, (VRef, VUnk)):
            return "tok"
        if isinstance(v, VNone):
            return "none"
        if isinstance(v, VMatch):
            return ("match",) + tuple(x.get_id() for x in v.a)
        if isinstance(v, VPat):
            return ("pat", v.t.get_id())
        if isinstance(v, VPy):
            return ("py", id(v.o))
        return ("id", id(v))
    return (st.fid, tuple((f, tuple((n, sig(v)) for n, v in sorted(e.items(), key=lambda x: x[0]))) for f, (e, m) in sorted(st.frames.items())))


def reach(st):
    seen, todo = set(), []
    for env, meta in st.frames.values():
        todo += env.values()
    while todo:
        v = todo.pop()
        if isinstance(v, VRef):
            if v.id in seen or v.id not in st.heap:
                continue
            seen.add(v.id)
            h = st.heap[v.id]
            if isinstance(h, (HList, HTail)):
                todo += h.items or ()
            elif isinstance(h, HDict):
                todo += h.items.values()
            elif isinstance(h, HObj):
                todo += h.attrs.values()
        elif isinstance(v, VTup):
            todo += v.items
        elif isinstance(v, VBound):
            todo.append(v.recv)
        elif isinstance(v, VClos):
            todo.append(v.self_)
        elif isinstance(v, VGenIter):
            todo += [x for x in v.__dict__.values() if isinstance(x, V)]
            todo += [y for x in v.__dict__.values() if isinstance(x, (list, tuple)) for y in x if isinstance(y, V)]
        elif isinstance(v, (list, tuple)):
            todo += v
    return seen


def _same_val(x, y):
    if type(x) is not type(y):
        return False
    if isinstance(x, (VInt, VBool)):
        return x.t.eq(y.t)
    if isinstance(x, VStr):
        return x.t.eq(y.t) and x.lit == y.lit
    if isinstance(x, VRef):
        return x.id == y.id
    if isinstance(x, VNone):
        return True
    if isinstance(x, VTup):
        return len(x.items) == len(y.items) and all(_same_val(p, q) for p, q in zip(x.items, y.items))
    if isinstance(x, VMatch):
        return x.pat.t.eq(y.pat.t) and x.mode.eq(y.mode) and x.subj.t.eq(y.subj.t) and x.k.eq(y.k)
    if isinstance(x, VPat):
        return x.t.eq(y.t) and x.o is y.o
    if isinstance(x, VPy):
        return x.o is y.o
    return False


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t
