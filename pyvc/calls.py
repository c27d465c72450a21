"""Calls: contracts, inlining, models of builtins and of str/list/dict/re methods (mixin of Engine)."""
import logging
import ast, builtins, copy, dataclasses, enum, inspect, os, re, types as pytypes
import z3
from . import logic as L, spec as S, rxfacts
from .spec import T
from .values import *
from .exprs import _join_kinds
from .models import is_model
from .engine import Unsupported, Budget, SRC, Contract, State, REPO, CLASS_ATTRS
from .exprs import LOGGER_METHODS, UNBOUND

INLINE_DEPTH = 10


class Calls:
    # ------------------------------------------------------------------ entry
    def call_expr(self, st, e):
        # logging and printing are dropped (stated in DESIGN.md)
        if isinstance(e.func, ast.Attribute) and e.func.attr in LOGGER_METHODS and _mentions_logger(e.func.value):
            return [(st, VNone())]
        if isinstance(e.func, ast.Name) and e.func.id == "print":
            return [(st, VNone())]
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return [(st, VBound(self.lookup(st, "self"), "$super"))]
        if isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and isinstance(e.args[0], ast.GeneratorExp):
            return self.any_all(st, e)

        def k(s, f):
            if any(isinstance(a, ast.Starred) for a in e.args) or any(kw.arg is None for kw in e.keywords):
                return self.star_call(s, f, e)
            argx = list(e.args) + [kw.value for kw in e.keywords]

            def k2(s2, vs):
                pos = vs[:len(e.args)]
                kws = {kw.arg: v for kw, v in zip(e.keywords, vs[len(e.args):])}
                return self.call(s2, f, pos, kws, e)
            return self.bind(self.evs(s, argx), k2)
        return self.bind(self.ev(st, e.func), k)

    def star_call(self, st, f, e):
        argx = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [kw.value for kw in e.keywords]

        def k(s, vs):
            pos, kws = [], {}
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    h = s.heap.get(v.id) if isinstance(v, VRef) else None
                    if isinstance(v, VTup):
                        pos += v.items
                    elif isinstance(h, HList) and not isinstance(h, HSet) and h.items is not None:
                        pos += h.items
                    else:
                        return self.unknown_call(s, "call with an unknown number of arguments line %s" % e.lineno, e)
                else:
                    pos.append(v)
            for kw, v in zip(e.keywords, vs[len(e.args):]):
                if kw.arg is not None:
                    kws[kw.arg] = v
                    continue
                h = s.heap.get(v.id) if isinstance(v, VRef) else None
                if not isinstance(h, HDict) or h.open or any(x is ABSENT or not isinstance(n, str) for n, x in h.items.items()):
                    return self.unknown_call(s, "call with unknown keyword arguments line %s" % e.lineno, e)
                kws.update(h.items)
            return self.call(s, f, pos, kws, e)
        return self.bind(self.evs(st, argx), k)

    def builtin_class(self, st, v):
        """type(v) of the values whose class is certain"""
        if isinstance(v, VNone):
            return type(None)
        if isinstance(v, VStr):
            return str
        if isinstance(v, VBool):
            return bool
        if isinstance(v, VInt):
            return int
        if isinstance(v, VTup):
            return tuple
        if isinstance(v, VRef):
            h = st.heap[v.id]
            return set if isinstance(h, HSet) else list if isinstance(h, HList) else dict if isinstance(h, HDict) else None
        return None

    def any_all(self, st, e):
        """any(cond for x in xs): desugared into a loop with early exit"""
        isany = e.func.id == "any"
        g = e.args[0]
        st = st.copy()
        fid = self.fresh_id()
        old = st.fid
        st.frames[fid] = ({"$r": VBool(not isany)}, {"parent": old, "mod": self.curmod(st)})
        st.fid = fid
        test = g.elt if isany else ast.UnaryOp(op=ast.Not(), operand=g.elt)
        body = [ast.If(test=test, body=[ast.Assign(targets=[ast.Name(id="$r", ctx=ast.Store())], value=ast.Constant(value=isany)),
                                        ast.Break()], orelse=[])]
        for gen in reversed(g.generators):
            for c in reversed(gen.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=gen.target, iter=gen.iter, body=body, orelse=[])]
        for n in ast.walk(body[0]):
            if not hasattr(n, "lineno"):
                n.lineno = e.lineno
                n.col_offset = 0
        out = []
        for kind, s, p in self.block(st, body):
            s = s.copy()
            r = s.env["$r"]
            s.fid = old
            s.frames.pop(fid, None)
            out.append((s, p if kind == "raise" else r))
        return out

    def call(self, st, f, args, kws, node):
        if isinstance(f, VUnk):
            return self.unknown_call(st, f.why, node)
        if isinstance(f, VClos):
            return self.call_clos(st, f, args, kws, node)
        if isinstance(f, VBound):
            return self.method(st, f.recv, f.name, args, kws, node)
        if isinstance(f, VNone):
            return [(st, VRaise("TypeError", "calling None line %s" % node.lineno))]
        if isinstance(f, VPy):
            o = f.o
            if getattr(o, "pyvc_native", None):
                from . import graph
                return getattr(graph, o.pyvc_native)(self, st, *args)
            if isinstance(o, pytypes.FunctionType) and (o.__module__ or "").startswith(("latex2json", "contracts.")) and o not in self.c.extern:
                return self.call_py(st, o, args, kws, node)
            if isinstance(o, pytypes.MethodType) and (o.__func__.__module__ or "").startswith("latex2json"):
                return self.call_py(st, o.__func__, [VPy(o.__self__)] + args, kws, node)
            return self.builtin(st, o, args, kws, node)
        return self.unknown_call(st, repr(f), node)

    def unknown_call(self, st, why, node):
        self.assumptions.add("unmodelled call returns an arbitrary value, raises nothing and modifies no tracked local: %s" % why)
        return [(st, VUnk("call %s" % why))]

    # ------------------------------------------------------------------ repository functions
    def call_py(self, st, fn, args, kws, node):
        key = "%s:%s" % (fn.__module__, fn.__qualname__)
        c = Contract.reg.get(key)
        if c is not None and not (self.c is not None and key in self.c.inlines and key not in self.inline_stack and self.c.target != key):
            return self.apply_contract(st, c, args, kws, node)
        fnode = SRC.find(fn.__module__, fn.__qualname__)
        return self.inline(st, fnode, fn.__module__, None, args, kws, node, key)

    def prelude(self, st, fn, args, node):
        """inlined as if defined inside the calling function, whose variables invariants may then mention"""
        return self.inline(st, SRC.find(fn.__module__, fn.__qualname__), fn.__module__, st.fid, args, {}, node, "%s:%s" % (fn.__module__, fn.__qualname__))

    def bind_args(self, st, a, args, kws, mod, node, defaults_frame=None):
        """-> [(state, {name: Value})]"""
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for n, v in zip(names, args):
            vals[n] = v
        if len(args) > len(names):
            if a.vararg is None:
                return [(st, VRaise("TypeError", "too many arguments line %s" % getattr(node, "lineno", "?")))]
        if a.vararg is not None:
            vals[a.vararg.arg] = VTup(list(args[len(names):]))
        extra = {}
        for k, v in kws.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is None:
                return [(st, VRaise("TypeError", "unexpected keyword %s" % k))]
            else:
                extra[k] = v
        if a.kwarg is not None:
            st, r = self.alloc(st, HDict(extra))
            vals[a.kwarg.arg] = r
        todo = []
        dflt = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in vals:
                if n not in dflt:
                    return [(st, VRaise("TypeError", "missing argument %s line %s" % (n, getattr(node, "lineno", "?"))))]
                todo.append((n, dflt[n]))
        res = [(st, vals)]
        for n, d in todo:
            nxt = []
            for s, vs in res:
                s2 = s.copy()
                fid = self.fresh_id()
                s2.frames[fid] = ({}, {"parent": defaults_frame, "mod": mod})
                old, s2.fid = s2.fid, fid
                for s3, v in self.ev(s2, d):
                    s3 = s3.copy()
                    s3.fid = old
                    s3.frames.pop(fid, None)
                    nxt.append((s3, {**vs, n: v}))
            res = nxt
        return res

    def inline(self, st, fnode, mod, parent, args, kws, node, key):
        if len(self.inline_stack) > getattr(self.c.cls if self.c is not None else None, "depth", INLINE_DEPTH) or self.inline_stack.count(key) > getattr(self.c.cls if self.c is not None else None, "recursion", 0):
            raise Unsupported("recursive or too deep call of %s without a contract" % key)
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(fnode)):
            if any(ast.unparse(d).split(".")[-1] == "contextmanager" for d in getattr(fnode, "decorator_list", ())):
                return [(st, VCtx(fnode, mod, parent, args, kws, key))]
            raise Unsupported("generator %s" % key)
        self.inlined.add(key)
        self.inline_stack.append(key)
        try:
            out = []
            for s, vals in self.bind_args(st, fnode.args, args, kws, mod, node, parent):
                if isinstance(vals, VRaise):
                    out.append((s, vals))
                    continue
                s = s.copy()
                fid = self.fresh_id()
                s.frames[fid] = (dict(vals), {"parent": parent, "mod": mod})
                old, s.fid = s.fid, fid
                self.declare_locals(s, fnode)
                self.note_loops(fnode)
                if isinstance(fnode, ast.Lambda):
                    for s2, v in self.ev(s, fnode.body):
                        s2 = s2.copy()
                        s2.fid = old
                        if not isinstance(v, (VClos, VGenIter)):
                            del s2.frames[fid]
                        out.append((s2, v))
                    continue
                simple = not any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)) for b in fnode.body for n in ast.walk(b))
                rets = []
                for kind, s2, p in self.block(s, fnode.body):
                    if kind not in ("return", "next", "raise"):
                        raise Unsupported("outcome %s" % kind)
                    s2 = s2.copy()
                    if simple:
                        s2.frames[fid] = ({"$ret": p if kind == "return" else VNone()}, s2.frames[fid][1])
                        if kind != "raise":
                            rets.append(("next", s2, None))
                            continue
                        del s2.frames[fid]
                    s2.fid = old
                    out.append((s2, VNone() if kind == "next" else p))
                for _, s2, _ in self.merge(rets, gc=True):
                    s2 = s2.copy()
                    v = s2.env["$ret"]
                    del s2.frames[fid]
                    s2.fid = old
                    out.append((s2, v))
            if len(out) > 400:
                raise Budget("path explosion in %s" % key)
            return out
        finally:
            self.inline_stack.pop()

    def declare_locals(self, st, fnode):
        if isinstance(fnode, ast.Lambda):
            return
        env = st.env
        nonl = set()
        for n in ast.walk(fnode):
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                nonl |= set(n.names)
        loc = set()
        for n in assigned_names(fnode.body):
            if n not in env and n not in nonl:
                env[n] = UNBOUND
                loc.add(n)
        meta = st.frames[st.fid][1]
        meta["nonlocal"] = nonl
        meta["locals"] = loc
        meta["mark"] = self.fresh_id()

    def call_clos(self, st, f, args, kws, node):
        return self.inline(st, f.node, f.mod, f.fid, args, kws, node, "closure:%s:%s" % (f.name, f.node.lineno))

    # ------------------------------------------------------------------ contracts
    def apply_contract(self, st, c, args, kws, node):
        self.used_contracts.add(c.target)
        fnode = SRC.find(c.mod, c.qual)
        out = []
        for s, vals in self.bind_args(st, fnode.args, args, kws, c.mod, node):
            if isinstance(vals, VRaise):
                out.append((s, vals))
                continue
            res = [(s, {})]
            for n, v in vals.items():
                nxt = []
                for s1, d in res:
                    if isinstance(d, VRaise):
                        nxt.append((s1, d))
                        continue
                    for s2, v2 in self.coerce(s1, v, c.types.get(n, "any"), "%s argument %s" % (c.name, n), node):
                        nxt.append((s2, v2 if isinstance(v2, VRaise) else {**d, n: v2}))
                res = nxt
            for s1, d in res:
                if isinstance(d, VRaise):
                    out.append((s1, d))
                    continue
                out += self._apply(s1, c, d, node)
        return out

    def _apply(self, s, c, d, node):
        S.EXT.clear()
        env = {n: self.to_T(s, v) for n, v in d.items()}
        env.update(self.self_env(s, d, c))
        tr = S.Tr(env, globs=c.globs)
        for r in c.requires:
            S.EXT.clear()
            g = tr.bool(r)
            if self.c is not None and c.name in self.c.assumes:
                self.assumptions.add("precondition of %s assumed in %s: %s" % (c.name, self.c.target, self.c.assumes[c.name]))
            else:
                self.oblige(self.flush(s), g, "precondition of %s" % c.name, "call line %s" % getattr(node, "lineno", "?"))
            s = s.assume(g)
        out = []
        for s1, v in self.fresh(s.copy(), c.returns, "r_" + c.name):
            e2 = dict(env)
            for pn, kind in c.mut.items():
                s1, t = self.havoc_param(s1, d[pn], kind)
                e2[pn + "_out"] = t
            e2["result"] = self.to_T(s1, v)
            tr2 = S.Tr(e2, globs=c.globs)
            fs = [tr2.bool(x) for _, x in c.ensures]
            S.EXT.clear()
            s1 = s1.assume(*fs)
            if len(fs) and not self.feasible(s1):
                continue
            out.append((s1, v))
        for ex in c.raises:
            S.EXT.clear()
            fs = [tr.bool(x) for _, x in c.onraise]
            s1 = self.flush(s).assume(*fs)
            if fs and not self.feasible(s1):
                continue
            out.append((s1, VRaise(ex, "declared by contract of %s" % c.name)))
        return out

    def self_env(self, st, d, c):
        return {}

    def havoc_param(self, st, v, kind):
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList):
            st = st.copy()
            h = st.heap[v.id]
            t = self.flst("out")
            st.heap[v.id] = HList(None, t, self.join_elem(st, h))
            return st, T("list", t)
        raise Unsupported("mutated parameter")

    def coerce(self, st, v, ty, what, node):
        if isinstance(v, VPy) and not isinstance(v.o, (pytypes.FunctionType, type, pytypes.ModuleType)):
            lv = self.lift(v.o)
            v = lv
        base = ty.replace(" ", "")
        if base == "any" or base in ("dict", "list"):
            return [(st, v)]
        alts = _alts(base)
        if isinstance(v, VUnk):
            self.assumptions.add("values of unknown type passed where a contract expects %s have that type" % base)
            pick = [a for a in alts if a != "none"]
            r = self.fresh(st, pick[0])
            return r
        for a in alts:
            if a == "str" and isinstance(v, VStr):
                return [(st, v)]
            if a == "chr" and isinstance(v, VStr):
                if v.ch is not None:
                    return [(st, v)]
                return [(s, r if r else VStr(ch=L.at(v.t, 0))) for s, r in self.need(st, L.slen(v.t) == 1, "ValueError", "single character expected", node)]
            if a in ("int", "nat") and isinstance(v, (VInt, VBool)):
                return [(st, self.num(v))]
            if a == "inf" and isinstance(v, VInf):
                return [(st, v)]
            if a == "bool" and isinstance(v, VBool):
                return [(st, v)]
            if a == "bool":
                return [(st, VBool(self.truth(st, v)))]
            if a == "none" and isinstance(v, VNone):
                return [(st, v)]
            if a == "pat" and isinstance(v, (VPat, VStr)):
                return [(st, self.as_pat(v))]
            if a.startswith(("list", "dict", "tuple", "obj")) and isinstance(v, (VRef, VTup)):
                return [(st, v)]
        return [(st, VRaise("TypeError", "%s: expected %s, got %s (line %s)" % (what, base, type(v).__name__, getattr(node, "lineno", "?"))))]

    # ------------------------------------------------------------------ builtins
    def builtin(self, st, o, args, kws, node):
        n = getattr(o, "__name__", str(o))
        mod = getattr(o, "__module__", "")
        for k, m in self.c.extern.items() if self.c else ():
            if k is o:
                self.assumptions.add("%s behaves as its model %s.%s" % (getattr(o, "__qualname__", o), m.__module__, m.__qualname__))
                if isinstance(m, type):
                    return self.construct(st, m, args, kws, node)
                return self.call_py(st, m, args, kws, node)
        if isinstance(o, S.SpecFn):
            return self.spec_call(st, o, args)
        if o is logging.getLogger:
            v = VUnk("call logging.getLogger")
            return [(st.assume(v.truth, z3.Not(v.isnone)), v)]
        if o is len:
            return self.b_len(st, args[0], node)
        if o is isinstance:
            return [(st, VBool(self.isinst(st, args[0], args[1])))]
        if o is str:
            return [(st, self.to_str(st, args[0]) if args else VStr(lit=""))]
        if o is int:
            v = args[0]
            if isinstance(v, VInt):
                return [(st, v)]
            if isinstance(v, VStr):
                if v.lit is not None:
                    try:
                        return [(st, VInt(int(v.lit)))]
                    except ValueError:
                        return [(st, VRaise("ValueError", "int() line %s" % node.lineno))]
                if getattr(v, "digits", False):
                    t, c = L.s2i(v.t), L.at(v.t, 0)
                    return [(st.assume(t >= 0, z3.Implies(z3.And(L.slen(v.t) == 1, c >= 48, c <= 57), t == c - 48)), VInt(t))]
                out = []
                for s2, ok in self.fork(st, L.isdec(v.t)):
                    if ok:
                        out.append((s2.assume(L.s2i(v.t) >= 0), VInt(L.s2i(v.t))))
                    else:
                        out += [(s2.copy(), VInt(self.fint("int"))), (s2, VRaise("ValueError", "int() of arbitrary text line %s" % node.lineno))]
                return out
            if isinstance(v, VNone):
                return [(st, VRaise("TypeError", "int(None) line %s" % node.lineno))]
            return [(st, VInt(self.fint("int")))]
        if o is bool:
            return [(st, VBool(self.truth(st, args[0])))]
        if o is float:
            if args and isinstance(args[0], VStr) and args[0].lit == "inf":
                return [(st, VInf())]
            return [(st, VUnk("float"))]
        if o in (min, max):
            if "key" in kws or len(args) == 1:
                return self.b_minmax_iter(st, o, args, kws, node)
            vs = [self.num(a) for a in args]
            if all(isinstance(v, VInt) for v in vs):
                t = vs[0].t
                for v in vs[1:]:
                    t = z3.If(v.t < t, v.t, t) if o is min else z3.If(v.t > t, v.t, t)
                return [(st, VInt(t))]
            return [(st, VUnk(n))]
        if o is range:
            vs = [self.num(a) for a in args]
            if not all(isinstance(v, VInt) for v in vs):
                return [(st, VGenIter("unknown"))]
            lo = vs[0] if len(vs) > 1 else VInt(0)
            hi = vs[1] if len(vs) > 1 else vs[0]
            step = vs[2].c if len(vs) > 2 else 1
            if step is None or step == 0:
                return [(st, VGenIter("unknown"))]
            return [(st, VGenIter("range", lo=lo, hi=hi, step=step))]
        if getattr(o, "__self__", None) is dict and getattr(o, "__name__", "") == "fromkeys" and args:
            h = st.heap[args[0].id] if isinstance(args[0], VRef) else None
            items = args[0].items if isinstance(args[0], VTup) else h.items if isinstance(h, HList) and not isinstance(h, HSet) else None
            st, r = self.alloc(st, HDict({}, open=items is None))
            res = [st]
            for x in items or ():
                nxt = []
                for s in res:
                    ks = self.keys_of(s, r, x)
                    if ks is None:
                        s = s.copy()
                        s.heap[r.id] = HDict({}, True)
                        nxt.append(s)
                    else:
                        nxt += [self.dict_set(s1, r, k, args[1] if len(args) > 1 else VNone()) for s1, k in ks]
                res = nxt
            return [(s, r) for s in res]
        if o is map and len(args) == 2:
            h = st.heap[args[1].id] if isinstance(args[1], VRef) else None
            items = args[1].items if isinstance(args[1], VTup) else h.items if isinstance(h, HList) and not isinstance(h, HSet) else None
            if items is not None:
                def go(s, i, done):
                    if i == len(items):
                        return [self.alloc(s, HList(done))]
                    return self.bind(self.call(s, args[0], [items[i]], {}, node), lambda s2, v: go(s2, i + 1, done + [v]))
                return go(st, 0, [])
        if o is enumerate:
            start = args[1] if len(args) > 1 else kws.get("start", VInt(0))
            return [(st, VGenIter("enumerate", of=args[0], start=start))]
        if o is reversed:
            return [(st, VGenIter("reversed", of=args[0]))]
        if o is zip:
            return [(st, VGenIter("unknown"))]
        if o in (any, all):
            return [(st, VBool(self.fbool(n)))]
        if o in (list, tuple, sorted, set, frozenset):
            return self.b_list(st, o, args, node)
        if o is copy.deepcopy and len(args) == 1 or o is copy.copy and len(args) == 1:
            return [self.copied(st, args[0], o is copy.deepcopy, {})]
        if o is dict or n == "OrderedDict":
            if args and isinstance(args[0], VRef) and isinstance(st.heap[args[0].id], HDict):
                return [self.alloc(st, st.heap[args[0].id])]
            return [self.alloc(st, HDict({}, open=bool(args)))]
        if o is chr:
            v = self.num(args[0])
            if isinstance(v, VInt):
                return [(s, r or VStr(ch=v.t)) for s, r in self.need(st, z3.And(0 <= v.t, v.t < 0x110000), "ValueError", "chr() range", node)]
            return [(st, VStr(ch=self.fint("chr")))]
        if o is ord:
            v = args[0]
            if isinstance(v, VStr):
                return [(s, r or VInt(v.ch if v.ch is not None else L.at(v.t, 0))) for s, r in
                        self.need(st, L.slen(v.t) == 1, "TypeError", "ord()", node)]
            return [(st, VInt(self.fint("ord")))]
        if is_model(o):
            return self.model_new(st, o, kws, node)
        if isinstance(o, pytypes.MethodType) and is_model(o.__self__) and o.__name__ == "model_validate" and len(args) == 1 and not kws:
            h = st.heap.get(args[0].id) if isinstance(args[0], VRef) else None
            if isinstance(h, HDict) and not h.open and all(isinstance(k, str) for k in h.items):
                return self.model_new(st, o.__self__, {k: v for k, v in h.items.items() if isinstance(k, str)}, node)
        if isinstance(o, type) and issubclass(o, enum.Enum) and len(args) == 1:
            return self.enum_of(st, o, args[0], node)
        if o is type and len(args) == 1 and isinstance(args[0], VRef) and isinstance(st.heap[args[0].id], HObj) and st.heap[args[0].id].cls is not None:
            return [(st, VPy(st.heap[args[0].id].cls))]
        if o is type and len(args) == 1:
            k = self.builtin_class(st, args[0])
            if k is not None:
                return [(st, VPy(k))]
        if o is getattr and len(args) == 2 and isinstance(args[1], VStr) and args[1].lit is not None:
            return self.attr(st, args[0], args[1].lit, node)
        if o is setattr and len(args) == 3 and isinstance(args[1], VStr) and args[1].lit is not None and isinstance(args[0], VRef) and isinstance(st.heap[args[0].id], HObj):
            h = st.heap[args[0].id]
            return [(self.put_heap(st, args[0].id, HObj(h.cls, {**h.attrs, args[1].lit: args[2]}, h.types)), VNone())]
        if o is setattr or o is delattr:
            raise Unsupported("setattr on an unknown object or with a computed name (line %s)" % getattr(node, "lineno", "?"))
        if o is getattr:
            return [(st, VUnk("getattr"))]
        if o is hasattr or o is callable:
            return [(st, VBool(self.fbool("hasattr")))]
        if o is type or o is id or o is hash or o is abs or o is sum or o is round:
            return [(st, VUnk(n))]
        if o is next and len(args) in (1, 2) and isinstance(node, ast.Call) and isinstance(node.args[0], ast.GeneratorExp) and isinstance(args[0], VRef):
            h = st.heap[args[0].id]
            if isinstance(h, HList) and h.items is not None:
                return [(st, h.items[0] if h.items else args[1] if len(args) > 1 else VRaise("StopIteration", "next() line %s" % node.lineno))]
        if o is next or o is iter:
            return [(st, VUnk(n))]
        if isinstance(o, type) and issubclass(o, BaseException):
            return [(st, VPy(o))]
        if mod == "re" or getattr(o, "__objclass__", None) is re.Pattern:
            return self.re_func(st, n, args, kws, node)
        if o is os.path.join:
            return [(st, VStr(self.fstr("path")))]
        if isinstance(o, type) and ((o.__module__ or "").startswith("contracts.") or self.constructs(o)):
            return self.construct(st, o, args, kws, node)
        if isinstance(o, type) and (o.__module__ or "").startswith("latex2json") and dataclasses.is_dataclass(o) and not hasattr(o, "__post_init__") \
                and o.__init__.__code__.co_filename == "<string>":
            return self.dataclass_new(st, o, args, kws, node)
        if isinstance(o, type) and (o.__module__ or "").startswith("latex2json"):
            self.assumptions.add("constructor %s does not fail" % o.__qualname__)
            return [self.alloc(st, HObj(o))]
        return self.unknown_call(st, "%s.%s" % (mod, n), node)

    def spec_call(self, st, o, args):
        """a spec function called from a model of external code"""
        S.EXT.clear()
        ts = [S.unwrap(self.to_T(st, a), s) for a, s in zip(args, o.sorts)]
        v = o.apply(ts, L.fuel(L.FUEL))
        st = self.flush(st)
        if o.ret == "List":
            return [self.alloc(st, HList(None, v, getattr(o, "elem", "any")))]
        return [(st, {"Str": VStr, "Int": VInt, "Bool": VBool}[o.ret](v))]

    def dataclass_new(self, st, cls, args, kws, node):
        """the generated __init__ of a dataclass: values by position and name, defaults"""
        names = [f.name for f in dataclasses.fields(cls) if f.init]
        if len(args) > len(names) or set(names[:len(args)]) & set(kws) or not set(kws) <= set(names):
            return [(st, VRaise("TypeError", "arguments of %s line %s" % (cls.__name__, getattr(node, "lineno", "?"))))]
        given = {**dict(zip(names, args)), **kws}
        attrs = {}
        for f in dataclasses.fields(cls):
            if f.name in given:
                attrs[f.name] = given[f.name]
            elif f.default is not dataclasses.MISSING:
                attrs[f.name] = self.lift(f.default)
            elif f.default_factory in (list, dict):
                st, attrs[f.name] = self.alloc(st, HList([]) if f.default_factory is list else HDict({}))
            elif f.default_factory is not dataclasses.MISSING:
                attrs[f.name] = VUnk("default of %s" % f.name)
            elif f.init:
                return [(st, VRaise("TypeError", "%s without %s line %s" % (cls.__name__, f.name, getattr(node, "lineno", "?"))))]
        return [self.alloc(st, HObj(cls, attrs))]

    def constructs(self, o):
        """is the real __init__ of the class executed (otherwise an object with arbitrary attributes is taken)?"""
        which = getattr(self.c.cls, "construct", ())
        return (o.__module__ or "").startswith("latex2json") and not dataclasses.is_dataclass(o) if which == "all" else o in which

    def construct(self, st, cls, args, kws, node):
        st, r = self.alloc(st, HObj(cls, {}, dict(CLASS_ATTRS.get("%s:%s" % (cls.__module__, cls.__qualname__), {}))))
        for c in cls.__mro__:
            if "__init__" in c.__dict__ and c is not object:
                return self.bind(self.call_py(st, c.__dict__["__init__"], [r] + args, kws, node), lambda s, v: [(s, r)])
        return [(st, r)]

    def b_len(self, st, v, node):
        if isinstance(v, VStr):
            return [(st, VInt(len(v.lit) if v.lit is not None else L.slen(v.t)))]
        if isinstance(v, VTup):
            return [(st, VInt(len(v.items)))]
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HSet):
                if h.items is not None and len(h.items) < 2:
                    return [(st, VInt(len(h.items)))]
                t = self.fint("len")
                return [(st.assume(t >= 0, *([t >= 1, t <= len(h.items)] if h.items is not None else [])), VInt(t))]
            if isinstance(h, HList):
                return [(st, VInt(len(h.items) if h.items is not None else L.llen(h.term)))]
            if isinstance(h, HTail):
                return [(st.assume(L.llen(h.pre) >= 0), VInt(L.llen(h.pre) + len(h.items)))]
            if isinstance(h, HDict) and not h.open:
                return [(st, VInt(sum(1 for x in h.items.values() if x is not ABSENT)))]
            t = self.fint("len")
            return [(st.assume(t >= 0), VInt(t))]
        if isinstance(v, VPy):
            try:
                return [(st, VInt(len(v.o)))]
            except TypeError:
                return [(st, VRaise("TypeError", "len line %s" % node.lineno))]
        if isinstance(v, VUnk):
            t = self.fint("len")
            return [(st.assume(t >= 0), VInt(t))]
        return [(st, VRaise("TypeError", "len() of %s line %s" % (type(v).__name__, node.lineno)))]

    def isinst(self, st, v, c):
        cls = []
        for x in (c.items if isinstance(c, VTup) else [c]):
            if isinstance(x, VPy):
                cls += list(x.o) if isinstance(x.o, tuple) else [x.o]
            else:
                return self.fbool("isinstance")
        def any_sub(pt):
            r = False
            for k in cls:
                try:
                    r = r or issubclass(pt, k)
                except TypeError:
                    import typing
                    o = typing.get_origin(k)
                    args = typing.get_args(k)
                    r = r or any(issubclass(pt, typing.get_origin(a) or a) for a in (args or [o]))
            return r
        m = {VStr: str, VInt: int, VBool: bool, VNone: type(None), VTup: tuple, VPat: re.Pattern, VMatch: re.Match, VInf: float}
        for k, pt in m.items():
            if isinstance(v, k):
                return z3.BoolVal(any_sub(pt))
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HSet):
                return z3.BoolVal(any_sub(set))
            if isinstance(h, (HList, HTail)):
                return z3.BoolVal(any_sub(list))
            if isinstance(h, HDict):
                return z3.BoolVal(any_sub(dict))
            if isinstance(h, HObj) and h.cls is not None:
                return z3.BoolVal(any_sub(h.cls))
        if isinstance(v, VPy):
            return z3.BoolVal(isinstance(v.o, tuple(cls)))
        if isinstance(v, VUnk):
            key = tuple(sorted(str(k) for k in cls))
            cache = v.__dict__.setdefault("_inst", {})
            if key not in cache:
                cache[key] = self.fbool("isinst")
            return cache[key]
        return self.fbool("isinstance")

    def put_heap(self, st, i, h):
        st = st.copy()
        st.heap[i] = h
        return st

    def copied(self, st, v, deep, memo):
        """copy.copy / copy.deepcopy"""
        if isinstance(v, VTup) and deep:
            items = []
            for x in v.items:
                st, y = self.copied(st, x, deep, memo)
                items.append(y)
            return st, VTup(items)
        if not isinstance(v, VRef):
            return st, v
        if v.id in memo:
            return st, memo[v.id]
        h = st.heap[v.id]
        st, r = self.alloc(st, h)
        if not deep:
            return st, r
        memo[v.id] = r

        def of(st, x):
            return (st, x) if x is ABSENT else self.copied(st, x, deep, memo)
        if isinstance(h, HTail):
            return self.alloc(st, HList(None, self.flst("copy"), "any"))
        if isinstance(h, HList):
            if h.items is None:
                if h.elem in ("str", "int", "bool", "chr"):
                    return st, r
                t = self.flst("copy")
                st = self.put_heap(st, r.id, type(h)(None, t, h.elem))
                return st.assume(L.llen(t) == L.llen(h.term)), r
            items = []
            for x in h.items:
                st, y = of(st, x)
                items.append(y)
            n = type(h)(items, None, h.elem)
        elif isinstance(h, HDict):
            items = {}
            for k, x in h.items.items():
                st, items[k] = of(st, x)
            n = HDict(items, h.open, h.deflt, h.types)
        elif isinstance(h, HObj):
            attrs = {}
            for k, x in h.attrs.items():
                st, attrs[k] = of(st, x)
            n = HObj(h.cls, attrs, h.types)
        else:
            return st, VUnk("copy")
        return self.put_heap(st, r.id, n), r

    def const_key(self, v):
        return v.lit if isinstance(v, VStr) else v.c if isinstance(v, VInt) else None

    def b_list(self, st, o, args, node):
        cls = HSet if o in (set, frozenset) else HList
        if not args:
            return [self.alloc(st, cls([]))] if o is not tuple else [(st, VTup([]))]
        v = args[0]
        if o is sorted:
            its = self.const_items(st, v)
            keys = [self.const_key(x) for x in its] if its is not None and not isinstance(node, ast.Call) or its is not None and not node.keywords else [None]
            if None not in keys and len({type(k) for k in keys}) < 2:
                return [self.alloc(st, HList([its[i] for i in sorted(range(len(its)), key=lambda i: keys[i])]))]
            if isinstance(v, VTup):
                return [self.alloc(st, HList(None, self.flst("sorted"), "any"))]
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList):
            h = st.heap[v.id]
            if o is sorted:
                return [self.alloc(st, HList(None, self.flst("sorted"), self.join_elem(st, h)))]
            return [self.alloc(st, cls(h.items, h.term, h.elem))]
        if isinstance(v, VTup):
            return [self.alloc(st, cls(list(v.items)))] if o is not tuple else [(st, v)]
        if o is not sorted and isinstance(v, VRef) and isinstance(st.heap[v.id], HDict) and not st.heap[v.id].open and not any(x is ABSENT for x in st.heap[v.id].items.values()):
            keys = [k.v if isinstance(k, SymKey) else self.lift(k) for k in st.heap[v.id].items]
            return [self.alloc(st, cls(keys))] if o is not tuple else [(st, VTup(keys))]
        if isinstance(v, VPy) and isinstance(v.o, (list, tuple, set, frozenset, dict)):
            if o is sorted and (node.keywords if isinstance(node, ast.Call) else True):
                return [self.alloc(st, HList(None, self.flst("sorted"), "any"))]
            try:
                its = sorted(v.o) if o is sorted else list(v.o)
            except TypeError:
                return [(st, VRaise("TypeError", "sorted line %s" % getattr(node, "lineno", "?")))]
            return [self.alloc(st, cls([self.lift(x) for x in its]))]
        if isinstance(v, VStr):
            return [self.alloc(st, cls(None, self.flst("chars"), "str"))]
        return [self.alloc(st, cls(None, self.flst("seq"), "any"))]

    def b_minmax_iter(self, st, o, args, kws, node):
        v = args[0] if len(args) == 1 else VTup(args)
        items = None
        if isinstance(v, VTup):
            items = v.items
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList):
            items = st.heap[v.id].items
        if items is not None and isinstance(v, VGenIter):
            items = None
        key = kws.get("key")
        if items is None:
            if isinstance(v, VBound) or isinstance(v, VGenIter) and v.kind == "const":
                pass
            if isinstance(v, VGenIter) and v.kind == "const":
                items = v.items
            else:
                if "default" in kws:
                    return [(st, VUnk("min/max"))]
                return [(st, VUnk("min/max of unknown"))]
        if not items:
            if "default" in kws:
                return [(st, kws["default"])]
            return [(st, VRaise("ValueError", "min/max of empty sequence line %s" % node.lineno))]

        def keyof(s, x):
            return self.call(s, key, [x], {}, node) if key is not None else [(s, x)]
        res = [(st, [])]
        for x in items:
            nxt = []
            for s, ks in res:
                if isinstance(ks, VRaise):
                    nxt.append((s, ks))
                    continue
                for s2, kx in keyof(s, x):
                    nxt.append((s2, kx if isinstance(kx, VRaise) else ks + [kx]))
            res = nxt
        out = []
        for s, ks in res:
            if isinstance(ks, VRaise):
                out.append((s, ks))
                continue
            ks = [self.num(x) for x in ks]
            if not all(isinstance(x, VInt) for x in ks):
                out.append((s, VUnk("min/max")))
                continue
            # fork over which element is selected (first minimal)
            for i in range(len(items)):
                cs = []
                for j in range(len(items)):
                    if j < i:
                        cs.append(ks[i].t < ks[j].t if o is min else ks[i].t > ks[j].t)
                    elif j > i:
                        cs.append(ks[i].t <= ks[j].t if o is min else ks[i].t >= ks[j].t)
                s2 = s.assume(*cs)
                if self.feasible(s2):
                    out.append((s2, items[i]))
        return out

    # ------------------------------------------------------------------ regular expressions
    def re_func(self, st, n, args, kws, node):
        if n == "compile":
            return [(st, self.as_pat(args[0]) if len(args) == 1 else self.pat_flags(args))]
        if n == "escape":
            a = self.str_(args[0])
            v = VStr(L.re_escape(a.t))
            v.patwidth = L.slen(a.t)
            return [(st, v)]
        if n in ("match", "search", "fullmatch"):
            if len(args) >= 2:
                return self.re_match(st, self.as_pat(args[0]), n, args[1], None, node)
        if n == "sub":
            return self.re_sub(st, self.as_pat(args[0]), args[1:], kws, node)
        if n in ("finditer", "findall", "split"):
            return [(st, VGenIter("unknown"))] if n != "split" else [self.alloc(st, HList(None, self.flst("resplit"), "any"))]
        return self.unknown_call(st, "re." + n, node)

    def re_sub(self, st, pat, args, kws, node):
        """sub() by its definition in prelude.py, for patterns that match no empty text and replacements without escapes"""
        from . import prelude
        if len(args) == 2 and not kws and pat.o is not None and rxfacts.facts(pat.o).minw > 0:
            repl, subj = args
            if isinstance(subj, VPy):
                subj = self.lift(subj.o)
            if isinstance(repl, VPy) and isinstance(repl.o, str):
                repl = self.lift(repl.o)
            if isinstance(subj, VStr):
                if isinstance(repl, VClos):
                    return self.prelude(st, prelude.resub, [pat, repl, subj], node)
                if isinstance(repl, VStr) and repl.lit is not None and "\\" not in repl.lit:
                    return self.prelude(st, prelude.resub_text, [pat, repl, subj], node)
        return [(st, VStr(self.fstr("resub")))]

    def pat_flags(self, args):
        p, fl = args[0], args[1]
        if isinstance(p, VStr) and p.lit is not None and isinstance(fl, VPy):
            return self.as_pat(VPy(re.compile(p.lit, fl.o)))
        return VPat(z3.Const("pat!%d" % self.fresh_id(), L.Pat))

    def str_(self, v):
        return v if isinstance(v, VStr) else VStr(self.fstr("s"))

    def re_match(self, st, pat, mode, subj, pos, node):
        if isinstance(subj, VNone):
            return [(st, VRaise("TypeError", "matching against None line %s" % node.lineno))]
        if isinstance(subj, VPy):
            subj = self.lift(subj.o)
        if isinstance(subj, VUnk):
            subj = VStr(self.fstr("subj"))
        if not isinstance(subj, VStr):
            return [(st, VRaise("TypeError", "matching against %s line %s" % (type(subj).__name__, node.lineno)))]
        if isinstance(pos, VUnk):
            pos = VInt(self.fint("pos"))
        k = self.num(pos).t if pos is not None else z3.IntVal(0)
        m = {"match": 0, "search": 1, "fullmatch": 2}[mode]
        mv = VMatch(pat, m, subj, k)
        out = []
        for s, b in self.fork(st, L.rx_found(*mv.a)):
            if not b:
                n = VNone()
                n.of = mv
                out.append((s, n))
                continue
            out.append((s.assume(*self.match_facts(mv)), mv))
        return out

    def match_facts(self, mv):
        """what is known about the span of every successful match of a pattern (from its syntax tree)"""
        pat, subj, fs = mv.pat, mv.subj, []
        if pat.t.sexpr() in S.PATFACTS:
            fs.append(S.PATFACTS[pat.t.sexpr()])
        if pat.width is not None:
            fs.append(mv.end - mv.start == pat.width)
        if pat.o is not None:
            f = rxfacts.facts(pat.o)
            fs.append(mv.end - mv.start >= f.minw)
            if f.minw > 0 and f.prefix is not None and len(f.prefix) <= 40:
                fs.append(z3.Or([L.at(subj.t, mv.start) == c for c in sorted(f.prefix)]))
            if f.minw > 0 and f.suffix is not None and len(f.suffix) <= 40:
                fs.append(z3.Or([L.at(subj.t, mv.end - 1) == c for c in sorted(f.suffix)]))
            if f.maxw is not None and f.maxw < 200:
                fs.append(mv.end - mv.start <= f.maxw)
            for g, must in f.groups.items():
                if must:
                    fs.append(L.rx_gset(*mv.a, z3.IntVal(g)))
        return fs

    def group_facts(self, m, g):
        """where group g of the match m lies, given that it took part"""
        a, z = L.rx_gs(*m.a, z3.IntVal(g)), L.rx_ge(*m.a, z3.IntVal(g))
        fs = [a <= z, z <= L.slen(m.subj.t)]
        gf = rxfacts.facts(m.pat.o).gfacts.get(g) if m.pat.o is not None else None
        if gf is None:
            fs.append(m.start <= a)
        elif gf["before"] is not None:
            fs += [m.start + gf["before"] <= a, z + gf["after"] <= m.end]
        else:
            fs.append(0 <= a)
        if gf:
            fs.append(z - a >= gf["minw"])
        if m.mode.as_long() != 1:
            fs.append(m.start == m.k)
        return fs

    def match_group(self, st, m, i, node):
        i = self.num(i) if not isinstance(i, VStr) else i
        if not isinstance(i, VInt) or i.c is None:
            # named group
            return [(st, VNone()), (st.copy(), VStr(self.fstr("group")))]
        g = i.c
        if g == 0:
            return [(st, VStr(L.sub(m.subj.t, m.start, m.end)))]
        if m.pat.o is not None and g > m.pat.o.groups:
            return [(st, VRaise("IndexError", "no such group line %s" % node.lineno))]
        gi = z3.IntVal(g)
        out = []
        for s, b in self.fork(st, L.rx_gset(*m.a, gi)):
            if not b:
                out.append((s, VNone()))
                continue
            a, z = L.rx_gs(*m.a, gi), L.rx_ge(*m.a, gi)
            v = VStr(L.sub(m.subj.t, a, z))
            fs = self.group_facts(m, g)
            if m.pat.o is not None:
                gf = rxfacts.facts(m.pat.o).gfacts.get(g)
                if gf:
                    v.digits = gf["digits"]
                    v.alpha = gf["alpha"]
            out.append((s.assume(*fs), v))
        return out

    # ------------------------------------------------------------------ methods
    def method(self, st, r, name, args, kws, node):
        if isinstance(r, VBound) and r.name == "$super":
            return self.super_call(st, r.recv, name, args, kws, node)
        if isinstance(r, VPy) and isinstance(r.o, (str, tuple)) and not isinstance(r.o, type):
            r = self.lift(r.o)
        if isinstance(r, VPy) and isinstance(r.o, re.Pattern):
            r = self.as_pat(r)
        if isinstance(r, VUnk):
            for a in args:
                if isinstance(a, VRef):
                    self.assumptions.add("unmodelled calls do not modify their list/dict arguments")
            return [(st, VUnk("%s.%s()" % (r.why, name)))]
        if isinstance(r, VStr):
            return self.str_method(st, r, name, args, kws, node)
        if isinstance(r, VPat):
            if name in ("match", "search", "fullmatch"):
                return self.re_match(st, r, name, args[0], args[1] if len(args) > 1 else None, node)
            if name == "finditer":
                return [(st, VGenIter("finditer", pat=r, subj=args[0]))]
            if name == "sub":
                return self.re_sub(st, r, args, kws, node)
            if name == "split" or name == "findall":
                return [self.alloc(st, HList(None, self.flst("res"), "any"))]
            return [(st, VUnk("pattern." + name))]
        if isinstance(r, VMatch):
            return self.match_method(st, r, name, args, node)
        if isinstance(r, VRef):
            h = st.heap[r.id]
            if isinstance(h, HList):
                return self.list_method(st, r, h, name, args, kws, node)
            if isinstance(h, HTail):
                return self.tail_method(st, r, h, name, args, node)
            if isinstance(h, HDict):
                return self.dict_method(st, r, h, name, args, kws, node)
            if isinstance(h, HObj) and h.cls is not None and hasattr(h.cls, name):
                for c in h.cls.__mro__:
                    if name in c.__dict__:
                        fn = c.__dict__[name]
                        break
                if self.c is not None and any(k is fn for k in self.c.extern):
                    return self.builtin(st, fn, [r] + args, kws, node)
                if name == "model_dump" and is_model(h.cls) and (getattr(fn, "__module__", "") or "").startswith("pydantic"):
                    return self.model_dump(st, r, kws, node)
                if isinstance(fn, pytypes.FunctionType) and (fn.__module__ or "").startswith(("latex2json", "contracts.")):
                    return self.call_py(st, fn, [r] + args, kws, node)
            return self.unknown_call(st, "method %s" % name, node)
        if isinstance(r, VPy):
            o = r.o
            if isinstance(o, dict):
                return self.const_dict_method(st, o, name, args, node)
            if isinstance(o, (list, set, frozenset)):
                return [(st, VUnk("const.%s" % name))]
            return self.unknown_call(st, "%s.%s" % (type(o).__name__, name), node)
        if isinstance(r, VTup):
            return [(st, VUnk("tuple." + name))]
        if isinstance(r, VNone):
            return [(st, VRaise("AttributeError", "None.%s line %s" % (name, getattr(node, "lineno", "?"))))]
        if isinstance(r, VBound):
            return [(st, VUnk("bound." + name))]
        if isinstance(r, (VInt, VBool)):
            return [(st, VRaise("AttributeError", "int.%s" % name))]
        raise Unsupported("method %s on %r" % (name, r))

    def super_call(self, st, recv, name, args, kws, node):
        h = st.heap.get(recv.id) if isinstance(recv, VRef) else None
        cur = self.inline_stack[-1] if self.inline_stack else (self.c.target if self.c else "")
        clsname = cur.split(":")[-1].split(".")[0]
        if h is not None and isinstance(h, HObj) and h.cls is not None:
            mro = list(h.cls.__mro__)
            idx = next((i for i, c in enumerate(mro) if c.__name__ == clsname), 0)
            for c in mro[idx + 1:]:
                if name in c.__dict__:
                    fn = c.__dict__[name]
                    if isinstance(fn, pytypes.FunctionType) and (fn.__module__ or "").startswith("latex2json"):
                        return self.call_py(st, fn, [recv] + args, kws, node)
                    if name == "model_dump" and is_model(h.cls):
                        return self.model_dump(st, recv, kws, node)
                    break
        return [(st, VUnk("super." + name))]

    def match_method(self, st, m, name, args, node):
        if name == "group":
            if not args:
                return self.match_group(st, m, VInt(0), node)
            if len(args) > 1:
                return [(st, VUnk("groups"))]
            return self.match_group(st, m, args[0], node)
        if name in ("start", "end"):
            if not args or (isinstance(args[0], VInt) and args[0].c == 0):
                return [(st, VInt(m.start if name == "start" else m.end))]
            g = args[0]
            gi = self.num(g).t
            out = []
            for s, b in self.fork(st, L.rx_gset(*m.a, gi)):
                if b:
                    t = (L.rx_gs if name == "start" else L.rx_ge)(*m.a, gi)
                    gs = self.group_facts(m, g.c) if isinstance(g, VInt) and g.c is not None else [L.rx_gs(*m.a, gi) <= L.rx_ge(*m.a, gi)]
                    out.append((s.assume(*gs), VInt(t)))
                else:
                    out.append((s, VInt(-1)))
            return out
        if name == "span":
            return [(st, VTup([VInt(m.start), VInt(m.end)]))]
        if name == "groups":
            if m.pat.o is not None:
                n = m.pat.o.groups
                if n == 0:
                    return [(st, VTup([]))]
                res = [(st, [])]
                if n <= 3:
                    for g in range(1, n + 1):
                        res = [(s2, vs + [v]) for s, vs in res for s2, v in self.match_group(s, m, VInt(g), node)]
                    return [(s, VTup(vs)) for s, vs in res]
                return [(st, VTup([VUnk("group") for _ in range(n)]))]
            return [(st, VUnk("groups"))]
        return [(st, VUnk("match." + name))]

    def str_method(self, st, v, name, args, kws, node):
        if any(isinstance(a, VNone) for a in args) and name in ("startswith", "endswith", "replace", "find", "join", "index", "rfind"):
            return [(st, VRaise("TypeError", "str.%s(None) line %s" % (name, node.lineno)))]
        if v.lit is not None and all(isinstance(a, VStr) and a.lit is not None for a in args) and not kws:
            if name in ("startswith", "endswith", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "find", "isspace", "isalpha",
                        "isdigit", "split", "count", "rfind", "capitalize", "title"):
                r = getattr(v.lit, name)(*[a.lit for a in args])
                if isinstance(r, list):
                    return [self.alloc(st, HList([VStr(lit=x) for x in r]))]
                return [(st, self.lift(r))]
        if name in ("startswith", "endswith"):
            a = args[0]
            if isinstance(a, VPy):
                a = self.lift(a.o)
            alts = a.items if isinstance(a, VTup) else [a]
            off = self.num(args[1]).t if len(args) > 1 and isinstance(self.num(args[1]), VInt) else z3.IntVal(0)
            ts = []
            for x in alts:
                if not isinstance(x, VStr):
                    ts.append(self.fbool("startswith"))
                    continue
                n = L.slen(v.t)
                if x.lit is not None:
                    k = len(x.lit)
                    base = off if name == "startswith" else n - k
                    ts.append(z3.And([n >= k + (off if name == "startswith" else 0)] + [L.at(v.t, base + i) == ord(ch) for i, ch in enumerate(x.lit)]))
                else:
                    m = L.slen(x.t)
                    if name == "startswith":
                        a_, b_ = off, off + m
                    else:
                        a_, b_ = n - m, n
                    ts.append(z3.And(m + off <= n, S.eq_terms(T("str", L.sub(v.t, a_, b_)), self.to_T(st, x))))
            return [(st, VBool(z3.Or(ts) if len(ts) != 1 else ts[0]))]
        if name in ("strip", "lstrip", "rstrip"):
            if not args or isinstance(args[0], VNone):
                n = L.slen(v.t)
                if name == "strip":
                    return [(st, VStr(L.sstrip(v.t)))]
                if name == "lstrip":
                    return [(st, VStr(L.sub(v.t, L.lsp(v.t), n)))]
                return [(st, VStr(L.sub(v.t, 0, L.rsp(v.t))))]
            a, b = self.fint("a"), self.fint("b")
            t = L.sub(v.t, a, b)
            fs = [0 <= a, a <= b, b <= L.slen(v.t)]
            if name == "lstrip":
                fs.append(b == L.slen(v.t))
            if name == "rstrip":
                fs.append(a == 0)
            return [(st.assume(*fs), VStr(t))]
        if name in ("find", "rfind", "index", "rindex"):
            x = args[0]
            if not isinstance(x, VStr):
                return [(st, VInt(self.fint(name)))]
            n = L.slen(v.t)
            if name in ("find", "index"):
                k = self.num(args[1]).t if len(args) > 1 and isinstance(self.num(args[1]), VInt) else z3.IntVal(0)
                if len(args) > 2:
                    t = self.fint("find")
                    return [(st.assume(t >= -1, t <= n, z3.Or(t == -1, t >= k)), VInt(t))]
                t = L.sfind(v.t, x.t, k)
                if name == "index":
                    return [(s, r or VInt(t)) for s, r in self.need(st, t >= 0, "ValueError", "substring not found", node)]
                return [(st, VInt(t))]
            if len(args) > 1:
                hi = self.num(args[2]).t if len(args) > 2 else n
                lo = self.num(args[1]).t
                hi2 = z3.If(hi < 0, z3.If(hi + n < 0, 0, hi + n), z3.If(hi > n, n, hi))
                t = L.srfind(v.t, x.t, hi2)
                return [(st.assume(z3.Or(t == -1, t >= lo)), VInt(t))]
            return [(st, VInt(L.srfind(v.t, x.t, n)))]
        if name == "join":
            return self.str_join(st, v, args[0], node)
        if name in ("isspace", "isalpha", "isdigit", "isupper", "islower"):
            f = {"isspace": L.isws, "isalpha": L.isalpha, "isdigit": L.isdigit, "isupper": L.isupper, "islower": L.islower}[name]
            if v.ch is not None:
                return [(st, VBool(f(v.ch)))]
            n = L.slen(v.t)
            t = self.fbool(name)
            fs = [z3.Implies(n == 0, z3.Not(t)), z3.Implies(n == 1, t == f(L.at(v.t, 0)))]
            return [(st.assume(*fs), VBool(t))]
        if name == "isdecimal":
            return [(st.assume(z3.Implies(L.slen(v.t) == 0, z3.Not(L.isdec(v.t)))), VBool(L.isdec(v.t)))]
        if name == "isalnum":
            return [(st, VBool(self.fbool("isalnum")))]
        if name in ("lower", "upper", "title", "capitalize", "casefold", "swapcase"):
            f = {"lower": L.slower, "upper": L.supper}.get(name)
            return [(st, VStr(f(v.t) if f is not None else self.fstr(name)))]
        if name == "replace":
            if len(args) != 2:
                return [(st, VStr(self.fstr("replace")))]
            old = self.str_(args[0]).t
            r = L.srepl(v.t, old, self.str_(args[1]).t)
            return [(st.assume(z3.Implies(L.sfind(v.t, old, 0) < 0, r == v.t)), VStr(r))]
        if name == "splitlines" and not args:
            # a text that is not empty has a first line, which is empty only if the text begins with a line end
            t, c = L.splitl(v.t), L.at(v.t, 0)
            e0 = L.Val.vs(L.lat(t, 0))
            st = st.assume(z3.Implies(L.slen(v.t) > 0, L.llen(t) >= 1))
            plain = z3.And(c >= 32, c != 0x85, c != 0x2028, c != 0x2029)
            st = st.assume(z3.Implies(L.slen(v.t) > 0, L.slen(e0) <= L.slen(v.t)), z3.Implies(z3.And(L.slen(v.t) > 0, plain), L.slen(e0) >= 1))
            return [self.alloc(st, HList(None, t, "str"))]
        if name in ("split", "rsplit", "splitlines"):
            t = L.splits(v.t, self.str_(args[0]).t) if len(args) == 1 and name == "split" and isinstance(args[0], VStr) else self.flst("split")
            fs = [L.llen(t) >= 1] if args and isinstance(args[0], VStr) else [L.llen(t) >= 0]
            return [self.alloc(st.assume(*fs), HList(None, t, "str"))]
        if name in ("partition", "rpartition"):
            return [(st, VTup([VStr(self.fstr("p")), VStr(self.fstr("p")), VStr(self.fstr("p"))]))]
        if name == "count":
            t = self.fint("count")
            return [(st.assume(t >= 0), VInt(t))]
        if name in ("format", "encode", "translate", "zfill", "ljust", "rjust", "center", "removeprefix", "removesuffix", "expandtabs"):
            return [(st, VStr(self.fstr(name)))]
        if hasattr(str, name):
            return [(st, VUnk("str." + name))]
        return [(st, VRaise("AttributeError", "str.%s line %s" % (name, node.lineno)))]

    def str_join(self, st, sep, arg, node):
        if isinstance(arg, VRef) and isinstance(st.heap[arg.id], HList):
            h = st.heap[arg.id]
            if h.items is not None and all(isinstance(x, VStr) for x in h.items):
                acc = VStr(lit="")
                for i, x in enumerate(h.items):
                    if i:
                        acc = self.concat(acc, sep)
                    acc = self.concat(acc, x)
                return [(st, acc)]
            if h.items is not None and any(isinstance(x, VNone) for x in h.items):
                return [(st, VRaise("TypeError", "join of None line %s" % node.lineno))]
            t = self.list_term(st, h)
            if sep.lit == "":
                return [(st, VStr(L.joinE(t)))]
            return [(st, VStr(L.joinS(sep.t, t)))]
        return [(st, VStr(self.fstr("join")))]

    def list_method(self, st, r, h, name, args, kws, node):
        def put(s, nh):
            s = s.copy()
            s.heap[r.id] = nh
            return s
        cls = type(h)
        if isinstance(h, HSet):
            if name in ("add", "append") and h.items is not None and len(h.items) < 8:
                return [(put(st, HSet(h.items + [args[0]])), VNone())]
            if name == "clear":
                return [(put(st, HSet([])), VNone())]
            if name in ("add", "append", "update", "discard", "remove", "pop", "intersection_update", "difference_update", "symmetric_difference_update"):
                return [(put(st, HSet(None, self.flst("set"), "any")), VNone() if name != "pop" else VUnk("set.pop"))]
            if name == "copy":
                return [self.alloc(st, h)]
            return [(st, VUnk("set." + name))]
        if name == "append":
            x = args[0]
            if h.items is not None:
                return [(put(st, HList(h.items + [x])), VNone())]
            return [(put(st, HList(None, L.snoc(h.term, self.box(st, x)), _join_kinds([h.elem, self.kind_of(st, x)]))), VNone())]
        if name == "extend":
            x = args[0]
            xh = st.heap[x.id] if isinstance(x, VRef) else None
            if isinstance(xh, HList) and xh.items is not None:
                if h.items is not None:
                    return [(put(st, HList(h.items + xh.items)), VNone())]
                t = h.term
                for y in xh.items:
                    t = L.snoc(t, self.box(st, y))
                return [(put(st, HList(None, t, self.join_elem(st, h, xh))), VNone())]
            if isinstance(xh, HList):
                return [(put(st, HList(None, L.lcat(self.list_term(st, h), xh.term), self.join_elem(st, h, xh))), VNone())]
            if isinstance(x, VNone):
                return [(st, VRaise("TypeError", "extend(None) line %s" % node.lineno))]
            return [(put(st, HList(None, L.lcat(self.list_term(st, h), self.flst("ext")), "any")), VNone())]
        if name == "pop":
            if h.items is not None and (not args or (isinstance(args[0], VInt) and args[0].c is not None)):
                if not h.items:
                    return [(st, VRaise("IndexError", "pop from empty list line %s" % node.lineno))]
                i = args[0].c if args else -1
                its = list(h.items)
                x = its.pop(i)
                return [(put(st, HList(its)), x)]
            if args:
                return [(put(st, HList(None, self.flst("pop"), self.join_elem(st, h))), VUnk("pop"))]
            t = self.list_term(st, h)
            kind = self.join_elem(st, h)
            out = []
            for s, rr in self.need(st, L.llen(t) > 0, "IndexError", "pop from empty list", node):
                if rr is not None:
                    out.append((s, rr))
                    continue
                el = L.lat(t, L.llen(t) - 1)
                s = s.assume(L.snoc(L.linit(t), el) == t, L.llen(L.linit(t)) == L.llen(t) - 1, *self.kind_fact(el, kind))
                out.append((put(s, HList(None, L.linit(t), kind)), self.unbox(s, el, kind)))
            return out
        if name == "clear":
            return [(put(st, HList([])), VNone())]
        if name == "copy":
            return [self.alloc(st, h)]
        if name == "insert":
            if h.items is not None and isinstance(args[0], VInt) and args[0].c is not None:
                its = list(h.items)
                its.insert(args[0].c, args[1])
                return [(put(st, HList(its)), VNone())]
            return [(put(st, HList(None, self.flst("ins"), "any")), VNone())]
        if name == "reverse" and h.items is not None:
            return [(put(st, HList(h.items[::-1])), VNone())]
        if name in ("sort", "reverse", "remove"):
            return [(put(st, HList(None, self.flst(name), self.join_elem(st, h))), VNone())]
        if name in ("index", "count"):
            t = self.fint(name)
            return [(st.assume(t >= 0), VInt(t))]
        raise Unsupported("list.%s" % name)

    def tail_method(self, st, r, h, name, args, node):
        s = st.copy()
        if name == "append":
            s.heap[r.id] = HTail(h.pre, h.items + [args[0]])
            return [(s, VNone())]
        if name == "extend" and isinstance(args[0], VRef):
            xh = st.heap[args[0].id]
            if isinstance(xh, HList) and not isinstance(xh, HSet) and xh.items is not None:
                s.heap[r.id] = HTail(h.pre, h.items + xh.items)
                return [(s, VNone())]
            if isinstance(xh, HList) and not isinstance(xh, HSet):
                t = h.pre
                for x in h.items:
                    t = L.snoc(t, self.box(st, x))
                s.heap[r.id] = HTail(L.lcat(t, xh.term), [])
                return [(s, VNone())]
        if name == "pop" and not args and h.items:
            s.heap[r.id] = HTail(h.pre, h.items[:-1])
            return [(s, h.items[-1])]
        raise Unsupported("%s of a list with an unknown beginning (line %s)" % (name, getattr(node, "lineno", "?")))

    def dict_method(self, st, r, h, name, args, kws, node):
        if name == "get":
            d = args[1] if len(args) > 1 else VNone()
            ks = self.keys_of(st, r, args[0])
            if ks is None:
                return [(st, VUnk("dict.get"))]
            return [(s, d if x is ABSENT else x) for s1, k in ks for s, x in self.dict_lookup(s1, r, k)]
        if name in ("keys", "items", "values"):
            if not h.open:
                ks = [k for k, v in h.items.items() if v is not ABSENT]
                vs = [h.items[k] for k in ks]
                its = {"keys": [self.lift(k) for k in ks], "values": vs, "items": [VTup([self.lift(k), v]) for k, v in zip(ks, vs)]}[name]
                return [(st, VTup(its))]
            return [(st, VGenIter("unknown", pair=name == "items"))]
        if name == "copy":
            return [self.alloc(st, h)]
        if name == "update":
            s = st.copy()
            x = args[0] if args else None
            hx = HDict({}) if x is None else st.heap[x.id] if isinstance(x, VRef) else None
            if isinstance(hx, HDict) and not any(isinstance(k, SymKey) for k in list(h.items) + list(hx.items)):
                items = dict(h.items)
                for k, v in list(hx.items.items()) + list(kws.items()):
                    if v is not ABSENT:
                        items[k] = v
                s.heap[r.id] = HDict(items if not hx.open else {}, h.open or hx.open, h.deflt, h.types)
            else:
                s.heap[r.id] = HDict({}, True, h.deflt, h.types)
            return [(s, VNone())]
        if name == "pop":
            ks = self.keys_of(st, r, args[0])
            if ks is None:
                s = st.copy()
                s.heap[r.id] = HDict({}, True)
                return [(s, VUnk("dict.pop"))] + ([] if len(args) > 1 else [(s.copy(), VRaise("KeyError", "pop line %s" % node.lineno))])
            out = []
            for s1, k in ks:
                for s, x in self.dict_lookup(s1, r, k):
                    if x is ABSENT:
                        out.append((s, args[1] if len(args) > 1 else VRaise("KeyError", "pop %r line %s" % (k, node.lineno))))
                    else:
                        out.append((self.dict_set(s, r, k, ABSENT), x))
            return out
        if name == "setdefault":
            ks = self.keys_of(st, r, args[0])
            if ks is None:
                s = st.copy()
                s.heap[r.id] = HDict({}, True, h.deflt, h.types)
                return [(s, VUnk("dict.setdefault"))]
            out = []
            for s1, k in ks:
                for s, x in self.dict_lookup(s1, r, k):
                    if x is ABSENT:
                        d = args[1] if len(args) > 1 else VNone()
                        out.append((self.dict_set(s, r, k, d), d))
                    else:
                        out.append((s, x))
            return out
        if name == "popitem":
            s = st.copy()
            s.heap[r.id] = HDict({}, True)
            return [(s, VUnk("dict.popitem")), (s.copy(), VRaise("KeyError", "popitem line %s" % node.lineno))]
        if name == "clear":
            s = st.copy()
            s.heap[r.id] = HDict({}, False)
            return [(s, VNone())]
        return [(st, VUnk("dict." + name))]

    def const_dict_method(self, st, o, name, args, node):
        if name == "get":
            k = self.pykey(args[0])
            d = args[1] if len(args) > 1 else VNone()
            if k is not None:
                return [(st, self.lift(o[k[0]]) if k[0] in o else d)]
            a = args[0]
            if isinstance(a, VStr) and len(o) <= 30 and all(isinstance(x, str) for x in o):
                out = []
                rest = st
                for kk, vv in o.items():
                    t = self._eqt(rest, a, VStr(lit=kk))
                    s = rest.assume(t)
                    if self.feasible(s):
                        out.append((s, self.lift(vv)))
                    rest = rest.assume(z3.Not(t))
                if self.feasible(rest):
                    out.append((rest, d))
                return out
            vals = list(o.values())
            if vals and all(isinstance(x, str) for x in vals):
                return [(st.copy(), VStr(self.fstr("get"))), (st, d)]
            return [(st, VUnk("const dict get"))]
        if name in ("items", "keys", "values"):
            its = {"keys": [self.lift(k) for k in o], "values": [self.lift(v) for v in o.values()],
                   "items": [VTup([self.lift(k), self.lift(v)]) for k, v in o.items()]}[name]
            return [(st, VTup(its))]
        if name == "copy":
            return [self.alloc(st, HDict({k: self.lift(v) for k, v in o.items()}))]
        return [(st, VUnk("const dict." + name))]


def _alts(ty):
    t = ast.parse(ty, mode="eval").body
    out = []

    def go(n):
        if isinstance(n, ast.BinOp):
            go(n.left)
            go(n.right)
        elif isinstance(n, ast.Subscript) and n.value.id == "opt":
            go(n.slice)
            out.append("none")
        elif isinstance(n, ast.Constant):
            out.append("none")
        else:
            out.append(ast.unparse(n))
    go(t)
    return out


def _mentions_logger(n):
    while isinstance(n, ast.Attribute):
        if "logger" in n.attr or n.attr == "logging":
            return True
        n = n.value
    return isinstance(n, ast.Name) and n.id in ("logger", "logging")


def assigned_names(body):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    class W(ast.NodeVisitor):
        def visit_FunctionDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def visit_ListComp(self, n):
            pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

        def visit_Assign(self, n):
            for t in n.targets:
                tgt(t)
            self.generic_visit(n)

        def visit_AugAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_AnnAssign(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_For(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_NamedExpr(self, n):
            tgt(n.target)
            self.generic_visit(n)

        def visit_With(self, n):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
            self.generic_visit(n)

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])

        def visit_ImportFrom(self, n):
            for a in n.names:
                out.append(a.asname or a.name)
    w = W()
    for s in body:
        w.visit(s)
    seen = []
    for n in out:
        if n not in seen:
            seen.append(n)
    return seen
