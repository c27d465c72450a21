"""Expression evaluation (mixin of Engine)."""
import ast, builtins, enum, inspect, re, types as pytypes
import z3
from . import logic as L, spec as S, rxfacts
from .spec import T
from .values import *
from .engine import Unsupported, Budget, SRC, Contract, State

LOGGER_METHODS = {"debug", "info", "warning", "error", "exception", "critical"}


def _join_kinds(ks):
    ks = set(ks)
    if len(ks) == 1:
        return ks.pop()
    if ks and all(isinstance(k, tuple) and k[0] == "tuple" for k in ks) and len({len(k) for k in ks}) == 1:
        return ("tuple",) + tuple(_join_kinds(p) for p in zip(*[k[1:] for k in ks]))
    return "any"


def pat_width(v):
    """the number of characters every match of the text v, used as a pattern or as a part of one, has (None: not fixed):
    letters taken from a match, re.escape(...), and literal pieces of fixed width that cannot combine with their neighbours"""
    if getattr(v, "patwidth", None) is not None:
        return v.patwidth
    if getattr(v, "alpha", False):
        return L.slen(v.t)
    if v.lit:
        if "|" in v.lit or v.lit[0] in "*+?{" or v.lit[-1].isdigit() or "(?" in v.lit.replace("(?!", "").replace("(?=", "").replace("(?:", ""):
            return None
        try:
            lo, hi = re._parser.parse(v.lit).getwidth()
        except re.error:
            return None
        return z3.IntVal(lo) if lo == hi else None
    return None


class Exprs:
    def ev(self, st, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s line %s" % (type(e).__name__, getattr(e, "lineno", "?")))
        r = m(st, e)
        if S.EXT:
            S.EXT.clear()
        return r

    def e_Constant(self, st, e):
        if e.value is Ellipsis:
            return [(st, VUnk("..."))]
        return [(st, self.lift(e.value))]

    def e_Name(self, st, e):
        return [(st, self.lookup(st, e.id, e))]

    def lookup(self, st, name, node=None):
        fid = st.fid
        while fid is not None:
            env, meta = st.frames[fid]
            if name in env:
                v = env[name]
                if v is UNBOUND:
                    return VRaise("UnboundLocalError", "%s possibly unbound (line %s)" % (name, getattr(node, "lineno", "?")))
                return v
            parent = meta.get("parent")
            if parent is None:
                mod = meta["mod"]
                break
            fid = parent
        if mod.startswith("contracts.") and self.c is not None and name in getattr(self.c.cls, "ghosts", {}):
            return self.ghost[name]
        m = SRC.module(mod)[0]
        if hasattr(m, name):
            return self.lift(getattr(m, name))
        if hasattr(builtins, name):
            return VPy(getattr(builtins, name))
        return VRaise("NameError", name)

    def e_NamedExpr(self, st, e):
        def k(s, v):
            s = s.copy()
            s.env[e.target.id] = v
            return [(s, v)]
        return self.bind(self.ev(st, e.value), k)

    def e_Tuple(self, st, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            raise Unsupported("starred")
        return self.bind(self.evs(st, e.elts), lambda s, vs: [(s, VTup(vs))])

    def e_List(self, st, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            def k(s, vs):
                out = []
                for x, v in zip(e.elts, vs):
                    its = self.const_items(s, v) if isinstance(x, ast.Starred) else [v]
                    if its is None:
                        return [self.alloc(s, HList(None, self.flst("starred"), "any"))]
                    out += its
                return [self.alloc(s, HList(out))]
            return self.bind(self.evs(st, [x.value if isinstance(x, ast.Starred) else x for x in e.elts]), k)
        return self.bind(self.evs(st, e.elts), lambda s, vs: [self.alloc(s, HList(list(vs)))])

    def e_Set(self, st, e):
        return self.bind(self.evs(st, e.elts), lambda s, vs: [self.alloc(s, HSet(list(vs)))])

    def e_Dict(self, st, e):
        def k(s, vs):
            items, op = {}, False
            it = iter(vs)
            for kx in e.keys:
                if kx is not None:
                    kk, vv = self.pykey(next(it)), next(it)
                    if kk is None:
                        items, op = {}, True        # may be any of the keys
                    else:
                        items[kk[0]] = vv
                    continue
                v = next(it)
                h = s.heap.get(v.id) if isinstance(v, VRef) else None
                if isinstance(v, VPy) and isinstance(v.o, dict):
                    items.update({a: self.lift(b) for a, b in v.o.items()})
                elif isinstance(h, HDict) and any(isinstance(a, SymKey) for a in list(h.items) + list(items)):
                    items, op = {}, True
                elif isinstance(h, HDict) and not h.open:
                    items.update({a: b for a, b in h.items.items() if b is not ABSENT})
                elif isinstance(h, HDict):
                    # an open dictionary may hold any of the keys so far
                    items = {a: b for a, b in h.items.items() if b is not ABSENT}
                    op = True
                else:
                    items, op = {}, True
            return [self.alloc(s, HDict(items, open=op))]
        return self.bind(self.evs(st, [x for kx, v in zip(e.keys, e.values) for x in ((kx, v) if kx is not None else (v,))]), k)

    def pykey(self, v):
        """concrete hashable key, or None"""
        if isinstance(v, VStr) and v.lit is not None:
            return (v.lit,)
        if isinstance(v, VInt) and v.c is not None:
            return (v.c,)
        if isinstance(v, VPy):
            try:
                hash(v.o)
                return (v.o,)
            except TypeError:
                return None
        if isinstance(v, VPat) and v.o is not None:
            return (v.o,)
        if isinstance(v, VNone):
            return (None,)
        return None

    def e_JoinedStr(self, st, e):
        exprs, shape = [], []
        for p in e.values:
            if isinstance(p, ast.Constant):
                shape.append(p.value)
            else:
                if p.format_spec is not None:
                    shape.append(None)
                else:
                    shape.append(len(exprs))
                    exprs.append(p.value)

        def k(s, vs):
            res = [(s, VStr(lit=""))]
            for p in shape:
                nxt = []
                for s1, acc in res:
                    if isinstance(p, str):
                        pv = [(s1, VStr(lit=p))]
                    elif p is None:
                        pv = [(s1, VStr(self.fstr("fmt")))]
                    else:
                        pv = [(s1, self.to_str(s1, vs[p]))]
                    for s2, q in pv:
                        nxt.append((s2, self.concat(acc, q)))
                res = nxt
            return res
        return self.bind(self.evs(st, exprs), k)

    def to_str(self, st, v):
        if isinstance(v, VStr):
            return v
        if isinstance(v, VInt):
            c = v.c
            return VStr(lit=str(c)) if c is not None else VStr(L.i2s(v.t))
        if isinstance(v, VPy) and isinstance(v.o, (str, int)):
            return VStr(lit=str(v.o))
        return VStr(self.fstr("str"))

    def concat(self, a, b):
        if a.lit == "":
            return b
        if b.lit == "":
            return a
        if a.lit is not None and b.lit is not None:
            return VStr(lit=a.lit + b.lit)
        r = VStr(L.cat(a.t, b.t))
        wa, wb = pat_width(a), pat_width(b)
        if wa is not None and wb is not None and not (a.lit is not None and b.lit is not None):
            r.patwidth = wa + wb
        return r

    def e_BoolOp(self, st, e):
        # value-returning and/or
        isand = isinstance(e.op, ast.And)
        res = self.ev(st, e.values[0])
        for nx in e.values[1:]:
            def k(s, v):
                t = self.truth(s, v)
                out = []
                for s2, b in self.fork(s, t):
                    if b == isand:
                        out += self.ev(s2, nx)
                    else:
                        out.append((s2, v))
                return out
            # only the branch that continued gets the next operand
            res2 = []
            for s, v in res:
                if isinstance(v, VRaise) or getattr(v, "_stop", False):
                    res2.append((s, v))
                else:
                    t = self.truth(s, v)
                    for s2, b in self.fork(s, t):
                        if b == isand:
                            res2 += self.ev(s2, nx)
                        else:
                            w = _Stop(v)
                            res2.append((s2, w))
            res = res2
        return [(s, v.v if isinstance(v, _Stop) else v) for s, v in res]

    def e_UnaryOp(self, st, e):
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, VRaise) else VBool(b)) for s, b in self.cond(st, e)]

        def k(s, v):
            if isinstance(v, VUnk):
                return [(s, VUnk("unary"))]
            if isinstance(e.op, ast.USub) and isinstance(v, VInt):
                return [(s, VInt(-v.t))]
            if isinstance(e.op, ast.UAdd):
                return [(s, v)]
            raise Unsupported("unary op")
        return self.bind(self.ev(st, e.operand), k)

    def e_IfExp(self, st, e):
        out = []
        for s, b in self.cond(st, e.test):
            if isinstance(b, VRaise):
                out.append((s, b))
            else:
                out += self.ev(s, e.body if b else e.orelse)
        return out

    def e_Lambda(self, st, e):
        return [(st, VClos(e, st.fid, self.curmod(st), "<lambda>"))]

    def curmod(self, st):
        fid = st.fid
        while True:
            env, meta = st.frames[fid]
            if meta.get("parent") is None:
                return meta["mod"]
            fid = meta["parent"]

    def e_BinOp(self, st, e):
        return self.bind(self.evs(st, [e.left, e.right]), lambda s, vs: self.binop(s, type(e.op), vs[0], vs[1], e))

    def binop(self, st, op, a, b, node):
        if isinstance(a, VPy) and isinstance(a.o, (str, int, list, tuple)):
            a = self.lift(a.o)
        if isinstance(b, VPy) and isinstance(b.o, (str, int)):
            b = self.lift(b.o)
        if isinstance(a, VUnk) or isinstance(b, VUnk):
            for x in (a, b):
                if isinstance(x, VNone):
                    return [(st, VRaise("TypeError", "None operand line %s" % node.lineno))]
            if op is ast.Add and (isinstance(a, VStr) or isinstance(b, VStr)):
                self.assumptions.add("operands of unknown type added to a string are strings")
                return [(st, VStr(self.fstr("cat")))]
            if op is ast.Mod and isinstance(a, VStr):
                return [(st, VStr(self.fstr("fmt")))]
            return [(st, VUnk("binop"))]
        if op is ast.Mod and isinstance(a, VStr):
            if a.lit is not None and a.lit.count("%s") == 1 and a.lit.count("%") == 1:
                x = b.items[0] if isinstance(b, VTup) and len(b.items) == 1 else b
                if isinstance(x, (VStr, VInt)):
                    pre, post = a.lit.split("%s")
                    return [(st, self.concat(self.concat(VStr(lit=pre), self.to_str(st, x)), VStr(lit=post)))]
            return [(st, VStr(self.fstr("fmt")))]
        if isinstance(a, VBool):
            a = VInt(z3.If(a.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(b, VBool):
            b = VInt(z3.If(b.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(a, VInt) and isinstance(b, VInt):
            if op is ast.Add: return [(st, VInt(a.t + b.t))]
            if op is ast.Sub: return [(st, VInt(a.t - b.t))]
            if op is ast.Mult: return [(st, VInt(a.t * b.t))]
            if op in (ast.Mod, ast.FloorDiv):
                if b.c is None or b.c <= 0:
                    raise Unsupported("division by non-constant")
                return [(st, VInt(a.t % b.t if op is ast.Mod else a.t / b.t))]
            if op is ast.BitOr:
                return [(st, VUnk("bitor"))]
            return [(st, VUnk("arith"))]
        if isinstance(a, VStr) and isinstance(b, VStr) and op is ast.Add:
            return [(st, self.concat(a, b))]
        if op is ast.Mult and (isinstance(a, VStr) or isinstance(b, VStr)):
            return [(st, VStr(self.fstr("rep")))]
        if op is ast.Add and isinstance(a, VRef) and isinstance(b, VRef):
            ha, hb = st.heap[a.id], st.heap[b.id]
            if isinstance(ha, HList) and isinstance(hb, HList):
                if ha.items is not None and hb.items is not None:
                    return [self.alloc(st, HList(ha.items + hb.items))]
                elem = self.join_elem(st, ha, hb)
                if hb.items is not None:
                    t = self.list_term(st, ha)
                    for x in hb.items:
                        t = L.snoc(t, self.box(st, x))
                else:
                    t = L.lcat(self.list_term(st, ha), hb.term)
                return [self.alloc(st, HList(None, t, elem))]
        if op is ast.Add and isinstance(a, VTup) and isinstance(b, VTup):
            return [(st, VTup(a.items + b.items))]
        if isinstance(a, VInf) or isinstance(b, VInf):
            return [(st, VInf())]
        if op in (ast.BitOr, ast.BitAnd):
            return [(st, VUnk("bit"))]
        return [(st, VRaise("TypeError", "unsupported operand types %s, %s (line %s)" % (
            type(a).__name__, type(b).__name__, node.lineno)))]

    def join_elem(self, st, *hs):
        ks = set()
        for h in hs:
            if h.items is not None:
                ks |= {self.kind_of(st, x) for x in h.items}
            else:
                ks.add(h.elem)
        return _join_kinds(ks)

    # ------------------------------------------------------------------ comparisons
    def e_Compare(self, st, e):
        def k(s, vs):
            res = []
            conds = []
            for i, op in enumerate(e.ops):
                conds.append((op, vs[i], vs[i + 1]))
            return self.cmp_chain(s, conds, e)
        return self.bind(self.evs(st, [e.left] + e.comparators), k)

    def cmp_chain(self, st, conds, node):
        if len(conds) == 1:
            return self.compare(st, *conds[0], node)
        out = []
        for s, v in self.compare(st, *conds[0], node):
            if isinstance(v, VRaise):
                out.append((s, v))
                continue
            for s2, v2 in self.cmp_chain(s, conds[1:], node):
                out.append((s2, v2 if isinstance(v2, VRaise) else VBool(z3.And(v.t, v2.t))))
        return out

    def attr_of_unknown(self, v):
        """an attribute read off a value of unknown type may be anything (it is kept bound as it may be called as a method)"""
        r = v
        while isinstance(r, VBound):
            r = r.recv
        return VUnk("attribute") if r is not v and isinstance(r, VUnk) else v

    def compare(self, st, op, a, b, node):
        a, b = self.attr_of_unknown(a), self.attr_of_unknown(b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            t = self.equal(st, a, b, isinstance(op, (ast.Is, ast.IsNot)))
            if isinstance(t, VRaise):
                return [(st, t)]
            return [(st, VBool(z3.Not(t) if neg else t))]
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            out = []
            for s, t in self.contains(st, a, b, node):
                out.append((s, t if isinstance(t, VRaise) else VBool(z3.Not(t) if neg else t)))
            return out
        if isinstance(a, VUnk) or isinstance(b, VUnk):
            if isinstance(a, VNone) or isinstance(b, VNone):
                return [(st, VRaise("TypeError", "ordering None"))]
            if isinstance(a, VUnk) and isinstance(b, VInt) or isinstance(b, VUnk) and isinstance(a, VInt):
                x = a.t if isinstance(a, VInt) else L.Val.vi(a.t)
                y = b.t if isinstance(b, VInt) else L.Val.vi(b.t)
                return [(st, VBool(self.ordop(op, x, y)))]
            return [(st, VBool(self.fbool("cmp")))]
        if isinstance(a, VInf) or isinstance(b, VInf):
            r = {ast.Lt: isinstance(b, VInf) and not isinstance(a, VInf), ast.LtE: isinstance(b, VInf),
                 ast.Gt: isinstance(a, VInf) and not isinstance(b, VInf), ast.GtE: isinstance(a, VInf)}[type(op)]
            return [(st, VBool(r))]
        a, b = self.num(a), self.num(b)
        if isinstance(a, VInt) and isinstance(b, VInt):
            return [(st, VBool(self.ordop(op, a.t, b.t)))]
        if isinstance(a, VStr) and isinstance(b, VStr):
            return [(st, VBool(self.fbool("strcmp")))]
        if any(isinstance(x, VPy) and isinstance(x.o, float) for x in (a, b)) and all(isinstance(x, VInt) or isinstance(x, VPy) and isinstance(x.o, float) for x in (a, b)):
            return [(st, VBool(self.fbool("fcmp")))]        # floating point order: either way
        return [(st, VRaise("TypeError", "ordering of incompatible types line %s" % node.lineno))]

    def num(self, v):
        if isinstance(v, VBool):
            return VInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        if isinstance(v, VPy) and isinstance(v.o, int):
            return VInt(int(v.o))
        return v

    def ordop(self, op, x, y):
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def equal(self, st, a, b, identity=False):
        if isinstance(a, VPy) and isinstance(b, VPy):
            return z3.BoolVal(a.o is b.o if identity else a.o == b.o)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VPy) and isinstance(x.o, enum.Enum) and isinstance(y, VStr) and not identity:
                if y.lit is not None:
                    return z3.BoolVal(x.o == y.lit)
                if type(x.o).__eq__ is not object.__eq__:
                    return self.fbool("eq")
        if isinstance(a, VPy):
            a = self.lift(a.o)
        if isinstance(b, VPy):
            b = self.lift(b.o)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VNone):
                if isinstance(y, VNone):
                    return z3.BoolVal(True)
                if isinstance(y, VUnk):
                    return y.isnone
                return z3.BoolVal(False)
        if isinstance(a, VUnk) or isinstance(b, VUnk):
            if a is b:
                return z3.BoolVal(True)
            try:
                return self.box(st, a) == self.box(st, b)
            except Exception:
                return self.fbool("eq")
        if isinstance(a, VRef) and isinstance(b, VRef):
            if a.id == b.id:
                return z3.BoolVal(True)
            if identity:
                return z3.BoolVal(False)
            ha, hb = st.heap[a.id], st.heap[b.id]
            if isinstance(ha, HList) and isinstance(hb, HList) and not isinstance(ha, HSet):
                return self.list_term(st, ha) == self.list_term(st, hb)
            if type(ha) is not type(hb):
                return z3.BoolVal(False)
            return self.fbool("refeq")
        if isinstance(a, VInf) or isinstance(b, VInf):
            return z3.BoolVal(isinstance(a, VInf) and isinstance(b, VInf))
        if isinstance(a, (VStr, VInt, VBool, VTup)) and isinstance(b, (VStr, VInt, VBool, VTup)):
            return S.eq_terms(self.to_T(st, a), self.to_T(st, b))
        if type(a) is not type(b):
            return z3.BoolVal(False)
        return self.fbool("eq")

    def contains(self, st, a, b, node):
        """a in b -> [(state, term)]"""
        if isinstance(b, VPy):
            o = b.o
            if isinstance(o, (list, tuple, set, frozenset)):
                if all(isinstance(x, (str, int, type(None))) for x in o):
                    return [(st, z3.Or([self._eqt(st, a, self.lift(x)) for x in sorted(o, key=repr)] or [z3.BoolVal(False)]))]
            if isinstance(o, dict):
                k = self.pykey(a)
                if k is not None:
                    return [(st, z3.BoolVal(k[0] in o))]
                if isinstance(a, VStr) and all(isinstance(x, str) for x in o):
                    return [(st, z3.Or([self._eqt(st, a, VStr(lit=x)) for x in o] or [z3.BoolVal(False)]))]
            if isinstance(o, str):
                b = VStr(lit=o)
            else:
                return [(st, self.fbool("in"))]
        if isinstance(b, VTup):
            return [(st, z3.Or([self._eqt(st, a, x) for x in b.items] or [z3.BoolVal(False)]))]
        if isinstance(b, VRef):
            h = st.heap[b.id]
            if isinstance(h, HList):
                if h.items is not None:
                    return [(st, z3.Or([self._eqt(st, a, x) for x in h.items] or [z3.BoolVal(False)]))]
                return [(st, self.fbool("in"))]
            if isinstance(h, HTail):
                raise Unsupported("in of a list with an unknown beginning")
            if isinstance(h, HDict):
                if not h.open and isinstance(a, VStr) and all(isinstance(x, (str, SymKey)) and v is not ABSENT for x, v in h.items.items()):
                    return [(st, z3.Or([self._eqt(st, a, self.lift(x)) for x in h.items] or [z3.BoolVal(False)]))]
                ks = self.keys_of(st, b, a)
                if ks is None:
                    return [(st, self.fbool("inkey"))]
                return [(s2, z3.BoolVal(v is not ABSENT)) for s, k in ks for s2, v in self.dict_lookup(s, b, k)]
            return [(st, self.fbool("in"))]
        if isinstance(b, VStr):
            if isinstance(a, VStr):
                if a.ch is not None and b.lit is not None and len(b.lit) <= 16:
                    return [(st, z3.Or([a.ch == ord(c) for c in b.lit] or [z3.BoolVal(False)]))]
                return [(st, L.sfind(b.t, a.t, 0) >= 0)]
            if isinstance(a, VUnk):
                return [(st, self.fbool("in"))]
            return [(st, VRaise("TypeError", "in <string> requires string"))]
        if isinstance(b, (VUnk, VGenIter)):
            return [(st, self.fbool("in"))]
        if isinstance(b, VNone):
            return [(st, VRaise("TypeError", "in None line %s" % node.lineno))]
        raise Unsupported("in %r" % b)

    def _eqt(self, st, a, b):
        t = self.equal(st, a, b)
        return t if not isinstance(t, VRaise) else z3.BoolVal(False)

    # ------------------------------------------------------------------ dictionaries
    def keys_of(self, st, ref, v):
        """the key of the dictionary a value stands for, one state for each it may be equal to -> [(state, key)], None when unknown"""
        h = st.heap[ref.id]
        k = self.pykey(v)
        if k is not None and not (isinstance(k[0], str) and any(isinstance(x, SymKey) for x in h.items)):
            return [(st, k[0])]
        if h.open or not isinstance(v, VStr):
            return None
        out = []
        for x in h.items:
            if isinstance(x, (str, SymKey)):
                t = self._eqt(st, v, self.lift(x))
                s = st.assume(t)
                if self.feasible(s):
                    out.append((s, x))
                st = st.assume(z3.Not(t))
        if self.feasible(st):
            out.append((st, k[0] if k is not None else SymKey(v)))
        return out

    def dict_lookup(self, st, ref, key):
        """-> [(state, Value | ABSENT)]"""
        h = st.heap[ref.id]
        if key in h.items:
            return [(st, h.items[key])]
        if not h.open:
            return [(st, ABSENT)]
        out = []
        s1 = st.copy()
        s1.heap[ref.id] = HDict({**h.items, key: ABSENT}, True, h.deflt, h.types)
        out.append((s1, ABSENT))
        ty = h.types.get(key) or h.deflt or "any"
        for s, v in self.fresh(st.copy(), ty, str(key)):
            s = s.copy()
            s.heap[ref.id] = HDict({**s.heap[ref.id].items, key: v}, True, h.deflt, h.types)
            out.append((s, v))
        return out

    def dict_set(self, st, ref, key, v):
        h = st.heap[ref.id]
        st = st.copy()
        st.heap[ref.id] = HDict({**h.items, key: v}, h.open, h.deflt, h.types)
        return st

    # ------------------------------------------------------------------ subscripts
    def e_Subscript(self, st, e):
        if isinstance(e.slice, ast.Slice):
            parts = [e.value] + [x if x is not None else ast.Constant(value=None) for x in (e.slice.lower, e.slice.upper)]
            if e.slice.step is not None:
                return self.bind(self.ev(st, e.value), lambda s, v: [(s, VStr(self.fstr("step")) if isinstance(v, VStr) else VUnk("step slice"))])
            return self.bind(self.evs(st, parts), lambda s, vs: self.slice(s, vs[0], vs[1], vs[2], e))
        return self.bind(self.evs(st, [e.value, e.slice]), lambda s, vs: self.index(s, vs[0], vs[1], e))

    def slice(self, st, v, lo, hi, node):
        if isinstance(v, VPy) and isinstance(v.o, (str, tuple)):
            v = self.lift(v.o)
        if isinstance(v, VUnk):
            return [(st, VUnk("slice"))]
        if isinstance(v, VNone):
            return [(st, VRaise("TypeError", "None is not subscriptable line %s" % node.lineno))]
        for x in (lo, hi):
            if not isinstance(x, (VInt, VNone, VUnk, VBool)):
                return [(st, VRaise("TypeError", "slice index"))]
        if isinstance(v, VStr):
            n = L.slen(v.t)
            if v.lit is not None and all(isinstance(x, VNone) or (isinstance(x, VInt) and x.c is not None) for x in (lo, hi)):
                return [(st, VStr(lit=v.lit[(None if isinstance(lo, VNone) else lo.c):(None if isinstance(hi, VNone) else hi.c)]))]
            res = [(st, z3.IntVal(0) if isinstance(lo, VNone) else None)]
            out = []
            for s, a in self.norm(st, lo, n, z3.IntVal(0)):
                for s2, b in self.norm(s, hi, n, n):
                    # empty when b < a
                    for s3, ok in self.fork(s2, a <= b):
                        out.append((s3, VStr(L.sub(v.t, a, b)) if ok else VStr(lit="")))
            return out
        if isinstance(v, VRef) and isinstance(st.heap[v.id], HList):
            h = st.heap[v.id]
            if h.items is not None and all(isinstance(x, VNone) or (isinstance(x, VInt) and x.c is not None) for x in (lo, hi)):
                return [self.alloc(st, HList(h.items[(None if isinstance(lo, VNone) else lo.c):(None if isinstance(hi, VNone) else hi.c)]))]
            t = self.list_term(st, h)
            n = L.llen(t)
            out = []
            for s, a in self.norm(st, lo, n, z3.IntVal(0)):
                for s2, b in self.norm(s, hi, n, n):
                    for s3, ok in self.fork(s2, a <= b):
                        r = t
                        if ok:
                            if not isinstance(hi, VNone):
                                r = L.ltake(r, b)
                            if not isinstance(lo, VNone):
                                r = L.ldrop(r, a)
                        else:
                            r = L.lnil
                        out.append(self.alloc(s3, HList(None, r, self.join_elem(s3, h))))
            return out
        if isinstance(v, VTup):
            return [(st, VTup(v.items[(None if isinstance(lo, VNone) else lo.c):(None if isinstance(hi, VNone) else hi.c)]))]
        if isinstance(v, VPy):
            return [(st, VUnk("slice of constant"))]
        return [(st, VRaise("TypeError", "not sliceable"))]

    def norm(self, st, x, n, default):
        """normalised slice bound (Python clamps) -> [(state, term)]"""
        if isinstance(x, VNone):
            return [(st, default)]
        if isinstance(x, VUnk):
            t = self.fint("bound")
            return [(st.assume(0 <= t, t <= n), t)]
        x = self.num(x).t
        out = []
        for s, neg in self.fork(st, x < 0):
            if neg:
                for s2, under in self.fork(s, x + n < 0):
                    out.append((s2, z3.IntVal(0) if under else x + n))
            else:
                for s2, over in self.fork(s, x > n):
                    out.append((s2, n if over else x))
        return out

    def index(self, st, v, i, node):
        if isinstance(v, VPy):
            if isinstance(v.o, (str, tuple)) and not isinstance(v.o, type):
                v = self.lift(v.o)
            elif isinstance(v.o, dict):
                k = self.pykey(i)
                if k is not None:
                    if k[0] in v.o:
                        return [(st, self.lift(v.o[k[0]]))]
                    return [(st, VRaise("KeyError", "constant dict line %s" % node.lineno))]
                out = []
                rest = st
                if isinstance(i, (VStr, VInt)) and len(v.o) <= 40:
                    for kk, vv in v.o.items():
                        t = self._eqt(rest, i, self.lift(kk))
                        s = rest.assume(t)
                        if self.feasible(s):
                            out.append((s, self.lift(vv)))
                        rest = rest.assume(z3.Not(t))
                    if self.feasible(rest):
                        out.append((rest, VRaise("KeyError", "constant dict line %s" % node.lineno)))
                    return out
                return [(st, VUnk("const dict"))]
            elif isinstance(v.o, list):
                if isinstance(i, VInt) and i.c is not None:
                    try:
                        return [(st, self.lift(v.o[i.c]))]
                    except IndexError:
                        return [(st, VRaise("IndexError", "constant list"))]
                return [(st, VUnk("const list"))]
            else:
                return [(st, VUnk("subscript"))]
        if isinstance(v, VUnk):
            return [(st, VUnk("subscript of unknown"))]
        if isinstance(v, VNone):
            return [(st, VRaise("TypeError", "None is not subscriptable line %s" % node.lineno))]
        if isinstance(v, VTup):
            c = self.num(i).c if isinstance(self.num(i), VInt) else None
            if c is None:
                return [(st, VUnk("tuple index"))]
            if -len(v.items) <= c < len(v.items):
                return [(st, v.items[c])]
            return [(st, VRaise("IndexError", "tuple index line %s" % node.lineno))]
        if isinstance(v, VMatch):
            return self.match_group(st, v, i, node)
        if isinstance(v, VStr):
            if isinstance(i, VUnk):
                return [(st, VStr(ch=self.fint("c")))]
            i = self.num(i)
            if not isinstance(i, VInt):
                return [(st, VRaise("TypeError", "string index"))]
            n = L.slen(v.t)
            out = []
            for s, neg in self.fork(st, i.t < 0):
                j = i.t + n if neg else i.t
                for s2, r in self.need(s, z3.And(0 <= j, j < n), "IndexError", "string index", node):
                    out.append((s2, r if r is not None else VStr(ch=L.at(v.t, j))))
            return out
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HList):
                if isinstance(i, VUnk):
                    return [(st, VUnk("list item"))]
                i = self.num(i)
                if not isinstance(i, VInt):
                    return [(st, VRaise("TypeError", "list index"))]
                if h.items is not None and i.c is not None:
                    if -len(h.items) <= i.c < len(h.items):
                        return [(st, h.items[i.c])]
                    return [(st, VRaise("IndexError", "list index line %s" % node.lineno))]
                t = self.list_term(st, h)
                n = L.llen(t)
                out = []
                kind = self.join_elem(st, h)
                for s, neg in self.fork(st, i.t < 0):
                    j = i.t + n if neg else i.t
                    for s2, r in self.need(s, z3.And(0 <= j, j < n), "IndexError", "list index", node):
                        if r is not None:
                            out.append((s2, r))
                        else:
                            el = L.lat(t, j)
                            out.append((s2.assume(*self.kind_fact(el, kind)), self.unbox(s2, el, kind)))
                return out
            if isinstance(h, HTail):
                if isinstance(i, VInt) and i.c is not None and -len(h.items) <= i.c < 0:
                    return [(st, h.items[i.c])]
                raise Unsupported("element of a list with an unknown beginning line %s" % node.lineno)
            if isinstance(h, HDict):
                ks = self.keys_of(st, v, i)
                if ks is None:
                    return self.dict_symkey(st, v, i, node)
                out = []
                for s1, k in ks:
                    for s, x in self.dict_lookup(s1, v, k):
                        out.append((s, VRaise("KeyError", "%r line %s" % (k, node.lineno)) if x is ABSENT else x))
                return out
            return [(st, VUnk("object subscript"))]
        return [(st, VUnk("subscript"))]

    def dict_symkey(self, st, ref, key, node):
        h = st.heap[ref.id]
        out = []
        rest = st
        if isinstance(key, (VInt, VStr)):
            for kk, vv in h.items.items():
                if vv is ABSENT:
                    continue
                t = self._eqt(rest, key, self.lift(kk))
                s = rest.assume(t)
                if self.feasible(s):
                    out.append((s, vv))
                rest = rest.assume(z3.Not(t))
            if self.feasible(rest):
                if h.open:
                    out.append((rest.copy(), VUnk("dict item")))
                out.append((rest, VRaise("KeyError", "key line %s" % node.lineno)))
            return out
        return [(st, VUnk("dict item"))]

    # ------------------------------------------------------------------ attributes
    def e_Attribute(self, st, e):
        return self.bind(self.ev(st, e.value), lambda s, v: self.attr(s, v, e.attr, e))

    def attr(self, st, v, name, node):
        if isinstance(v, VPy):
            if isinstance(v.o, re.Pattern):
                return [(st, VBound(self.as_pat(v), name))]
            if hasattr(v.o, name):
                o = getattr(v.o, name)
                if callable(o) and not isinstance(o, type) and not isinstance(v.o, (type, pytypes.ModuleType)):
                    return [(st, VBound(v, name))]
                return [(st, self.lift(o))]
            return [(st, VRaise("AttributeError", name))]
        if isinstance(v, VNone):
            return [(st, VRaise("AttributeError", "None.%s line %s" % (name, node.lineno)))]
        if isinstance(v, VUnk) and self.c is not None and name in getattr(self.c.cls, "fields", {}):
            self.assumptions.add("attribute %s of a value of unknown type is a text that does not change" % name)
            return [(st, VStr(L.field(name)(v.t)))]
        if isinstance(v, VUnk):
            if name in ("items", "keys", "values", "get", "append", "strip", "split", "copy"):
                return [(st, VBound(v, name))]
            return [(st, VBound(v, name))]
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HObj) and name == "__class__" and h.cls is not None:
                return [(st, VPy(h.cls))]
            if isinstance(h, HObj):
                if name in h.attrs:
                    x = h.attrs[name]
                    if x is ABSENT:
                        return [(st, VRaise("AttributeError", name))]
                    return [(st, x)]
                if name in h.types:
                    out = []
                    for s, x in self.fresh(st, h.types[name], "self." + name):
                        s = s.copy()
                        s.heap[v.id] = HObj(h.cls, {**s.heap[v.id].attrs, name: x}, h.types)
                        out.append((s, x))
                    return out
                if h.cls is not None and hasattr(h.cls, name):
                    o = inspect.getattr_static(h.cls, name)
                    for c in h.cls.__mro__:
                        if name in c.__dict__:
                            o = c.__dict__[name]
                            break
                    if isinstance(o, property):
                        return self.call_py(st, o.fget, [v], {}, node)
                    if isinstance(o, staticmethod):
                        return [(st, VPy(o.__func__))]
                    if isinstance(o, classmethod):
                        return [(st, VBound(VPy(h.cls), name))]
                    if isinstance(o, pytypes.FunctionType):
                        return [(st, VBound(v, name))]
                    return [(st, self.lift(o))]
                x = VUnk("self." + name)
                s = st.copy()
                s.heap[v.id] = HObj(h.cls, {**h.attrs, name: x}, h.types)
                return [(s, x)]
            return [(st, VBound(v, name))]
        if isinstance(v, VMatch) and name in ("re", "string"):
            return [(st, v.subj if name == "string" else v.pat)]
        if isinstance(v, VPat) and name == "pattern":
            if v.o is not None:
                return [(st, VStr(lit=v.o.pattern))]
            return [(st, VStr(self.fstr("pattern")))]
        return [(st, VBound(v, name))]

    # ------------------------------------------------------------------ comprehensions
    def e_ListComp(self, st, e):
        return self.comp(st, e, [e.elt], HList)

    def e_GeneratorExp(self, st, e):
        return self.comp(st, e, [e.elt], HList)

    def e_SetComp(self, st, e):
        return self.comp(st, e, [e.elt], HSet)

    def e_DictComp(self, st, e):
        put = ast.Assign(targets=[ast.Subscript(value=ast.Name(id="$out", ctx=ast.Load()), slice=e.key, ctx=ast.Store())], value=e.value)
        return self.comp(st, e, None, lambda items: HDict({}), put)

    def comp(self, st, e, elts, cls, put=None):
        """desugar into a loop appending to a fresh list in a child frame"""
        st = st.copy()
        i = self.fresh_id()
        st.heap[i] = cls([])
        fid = self.fresh_id()
        st.frames[fid] = ({"$out": VRef(i)}, {"parent": st.fid, "mod": self.curmod(st)})
        old = st.fid
        st.fid = fid
        stmt = put or ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id="$out", ctx=ast.Load()), attr="append", ctx=ast.Load()),
                                              args=elts, keywords=[]))
        body = [stmt]
        for g in reversed(e.generators):
            for c in reversed(g.ifs):
                body = [ast.If(test=c, body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        for n in ast.walk(body[0]):
            if not hasattr(n, "lineno"):
                n.lineno = e.lineno
                n.col_offset = e.col_offset
        out = []
        for kind, s, p in self.block(st, body):
            s = s.copy()
            s.fid = old
            s.frames.pop(fid, None)
            if kind == "raise":
                out.append((s, p))
            elif kind == "next":
                out.append((s, VRef(i)))
            else:
                raise Unsupported("comprehension outcome")
        return out

    def e_Starred(self, st, e):
        raise Unsupported("starred")

    def e_Call(self, st, e):
        return self.call_expr(st, e)


class _Stop(V):
    _stop = True

    def __init__(self, v):
        self.v = v


class _Unbound:
    def __repr__(self):
        return "UNBOUND"


UNBOUND = _Unbound()
