import z3
from . import logic as L
from .spec import T, lit_str


class V:
    pass


class VInt(V):
    def __init__(self, t):
        self.t = z3.IntVal(t) if isinstance(t, int) else t

    @property
    def c(self):
        s = z3.simplify(self.t)
        return s.as_long() if z3.is_int_value(s) else None

    def __repr__(self):
        return "Int(%s)" % self.t


class VInf(V):
    pass


class VBool(V):
    def __init__(self, t):
        self.t = z3.BoolVal(t) if isinstance(t, bool) else t


class VStr(V):
    def __init__(self, t=None, lit=None, ch=None):
        if lit is not None:
            t = lit_str(lit)
            if len(lit) == 1:
                ch = z3.IntVal(ord(lit))
        elif ch is not None and t is None:
            t = L.chs(ch)
        self.t, self.lit, self.ch = t, lit, ch

    def __repr__(self):
        return "Str(%s)" % (repr(self.lit) if self.lit is not None else self.t)


class VNone(V):
    of = None   # the match attempt that failed, when None came from one

    def __repr__(self):
        return "None"


class VTup(V):
    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "Tup%r" % self.items


class VRef(V):
    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref(%s)" % self.id


class VPy(V):
    """a concrete Python object of the real program (constant, function, class, module)"""

    def __init__(self, o):
        self.o = o

    def __repr__(self):
        return "Py(%r)" % (self.o,)


class VPat(V):
    width = None    # the number of characters of every match, where it is fixed by the way the pattern is put together

    def __init__(self, t, o=None):
        self.t, self.o = t, o


class VMatch(V):
    def __init__(self, pat, mode, subj, k):
        self.pat, self.mode, self.subj, self.k = pat, z3.IntVal(mode), subj, k

    @property
    def a(self):
        return (self.pat.t, self.mode, self.subj.t, self.k)

    @property
    def start(self):
        return L.rx_start(*self.a)

    @property
    def end(self):
        return L.rx_end(*self.a)


class VClos(V):
    def __init__(self, node, fid, mod, name=None, cls=None, self_=None):
        self.node, self.fid, self.mod, self.name, self.cls, self.self_ = node, fid, mod, name, cls, self_


class VBound(V):
    """bound method: receiver value + attribute name"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class VCtx(V):
    """a call of a @contextmanager generator that has not been entered yet"""

    def __init__(self, node, mod, parent, args, kws, key):
        self.node, self.mod, self.parent, self.args, self.kws, self.key = node, mod, parent, args, kws, key


class VUnk(V):
    """value of unknown type"""
    n = 0

    def __init__(self, why="", term=None):
        VUnk.n += 1
        self.why = why
        self.t = term if term is not None else L.Val.vopq(z3.Int("unk%d" % VUnk.n))
        self.truth = z3.Bool("unk%d_truth" % VUnk.n)
        self.isnone = z3.Bool("unk%d_none" % VUnk.n)

    def __repr__(self):
        return "Unk(%s)" % self.why


class VRaise(V):
    def __init__(self, exc, why=""):
        self.exc, self.why = exc, why

    def __repr__(self):
        return "Raise(%s: %s)" % (self.exc, self.why)


class VGenIter(V):
    """lazily consumed iterable with symbolic length: kinds str / list / range / enumerate / unknown"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)


# ---- heap objects (immutable records; states share them) -------------------------------------------
class HList:
    def __init__(self, items=None, term=None, elem="any"):
        self.items, self.term, self.elem = items, term, elem


class SymKey:
    """a key of a dictionary that is a text not known as a literal; different from the other keys of its dictionary"""

    def __init__(self, v):
        self.v = v

    def __hash__(self):
        return hash(self.v.t)

    def __eq__(self, other):
        return isinstance(other, SymKey) and self.v.t.eq(other.v.t)

    def __repr__(self):
        return "SymKey(%s)" % self.v.t


class HDict:
    def __init__(self, items=None, open=False, deflt=None, types=None):
        self.items = dict(items or {})
        self.open = open            # unknown further keys may exist
        self.deflt = deflt
        self.types = types or {}


class HTail:
    """a list of which only the last elements are known: the elements of the list term pre, then items"""
    elem = "any"

    def __init__(self, pre, items):
        self.pre, self.items = pre, items


class HSet(HList):
    pass


class HObj:
    def __init__(self, cls, attrs=None, types=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.types = types or {}


ABSENT = object()
