"""Model of pydantic (a dependency): making and dumping instances of the models the repository declares. The declared fields, their
defaults and which of them are required are read from the repository's classes on every run; that pydantic keeps the value given for a
declared field, ignores undeclared ones, and dumps plain values as they are is assumed (mixin of Engine)."""
import enum
from .values import *

ASSUMED = "pydantic: a model keeps the values given for its declared fields where they have the declared types (lists and dictionaries are copied), gives the others their defaults, raises ValidationError when a required one is missing or a value has another type, and model_dump gives plain values as they are"


def is_model(c):
    return isinstance(c, type) and any(b.__module__.startswith("pydantic") and b.__name__ == "BaseModel" for b in c.__mro__[1:])


def enums(ann):
    import typing
    if isinstance(ann, type) and issubclass(ann, enum.Enum):
        return [ann]
    return [e for a in typing.get_args(ann) for e in enums(a)]


class Models:
    def model_new(self, st, cls, kws, node):
        """cls(**kws) -> [(state, value)]"""
        self.assumptions.add(ASSUMED)
        attrs = {}
        for n, f in cls.model_fields.items():
            if n not in kws or kws[n] is ABSENT:
                if f.is_required():
                    return [(st, VRaise("ValidationError", "%s without %s line %s" % (cls.__name__, n, getattr(node, "lineno", "?"))))]
                v = self.lift(f.get_default(call_default_factory=True))
                if isinstance(v, VPy) and isinstance(v.o, list):
                    v = VTup([self.lift(x) for x in v.o])
                if isinstance(v, VTup):
                    st, v = self.alloc(st, HList(list(v.items)))
                attrs[n] = v
                continue
            s, v = self.fit(st, kws[n], f.annotation)
            if v is None:
                return [(st, VRaise("ValidationError", "%s of %s line %s" % (n, cls.__name__, getattr(node, "lineno", "?"))))]
            st, attrs[n] = s, v
        return [self.alloc(st, HObj(cls, attrs))]

    def fit(self, st, v, ann):
        """the value pydantic makes of v for a field declared as ann -> (state, value), the value None where it refuses"""
        import typing, types
        origin, args = typing.get_origin(ann), typing.get_args(ann)
        if ann is typing.Any or isinstance(v, VUnk):
            return st, v
        if origin in (typing.Union, types.UnionType):
            for a in sorted(args, key=lambda a: (is_model(a), enums(a) != [])):
                s, x = self.fit(st, v, a)
                if x is not None:
                    return s, x
            return st, None
        h = st.heap[v.id] if isinstance(v, VRef) else None
        if isinstance(v, VPy) and isinstance(v.o, (list, tuple)) or isinstance(v, VTup):
            h = HList([self.lift(x) for x in v.o] if isinstance(v, VPy) else list(v.items))
        if ann is type(None):
            return st, v if isinstance(v, VNone) else None
        if ann is str:
            return st, v if isinstance(v, VStr) else None
        if ann is bool:
            return st, v if isinstance(v, VBool) else None
        if ann is int:
            return st, v if isinstance(v, (VInt, VBool)) else VUnk("number read by pydantic") if isinstance(v, VStr) else None
        if isinstance(ann, type) and issubclass(ann, enum.Enum):
            if isinstance(v, VPy) and isinstance(v.o, ann):
                return st, v
            if isinstance(v, VStr) and v.lit is not None:
                try:
                    return st, VPy(ann(v.lit))
                except ValueError:
                    return st, None
            return st, VUnk("member of " + ann.__name__) if isinstance(v, VStr) else None
        if origin is list and len(args) == 1:
            if not isinstance(h, HList) or isinstance(h, HSet):
                return st, None
            if h.items is None:
                return self.alloc(st, HList(None, self.flst("validated"), "any"))
            items = []
            for x in h.items:
                st, x = self.fit(st, x, args[0])
                if x is None:
                    return st, None
                items.append(x)
            return self.alloc(st, HList(items))
        if origin is dict and len(args) == 2:
            if not isinstance(h, HDict):
                return st, None
            if h.open:
                return st, VUnk("validated dictionary")
            items = {}
            for k, x in h.items.items():
                if x is not ABSENT:
                    st, x = self.fit(st, x, args[1])
                    if x is None:
                        return st, None
                    items[k] = x
            return self.alloc(st, HDict(items))
        if is_model(ann):
            if isinstance(h, HObj):
                return st, v if h.cls is not None and issubclass(h.cls, ann) else None
            if isinstance(h, HDict) and not h.open and all(isinstance(k, str) for k in h.items):
                r = self.model_new(st, ann, {k: x for k, x in h.items.items() if isinstance(k, str)}, None)
                return (st, None) if isinstance(r[0][1], VRaise) else r[0]
            return st, VUnk("read by pydantic") if isinstance(h, HDict) else None
        return st, VUnk("value of a field declared as %s" % ann)

    def model_dump(self, st, ref, kws, node):
        """BaseModel.model_dump: what is no plain value is unknown (the repository puts it in by itself)"""
        self.assumptions.add(ASSUMED)
        h = st.heap[ref.id]
        kws = dict(kws)
        mode = kws.pop("mode", VStr(lit="python"))
        drop = kws.pop("exclude_none", VBool(False))
        if kws or not (isinstance(mode, VStr) and mode.lit is not None) or not (isinstance(drop, VBool) and self.known_bool(drop) is not None):
            return [(st, VUnk("model_dump with other options"))]
        drop = self.known_bool(drop)
        items = {}
        for n in h.cls.model_fields:
            v = h.attrs.get(n, VUnk("field " + n))
            if isinstance(v, VNone) and drop:
                continue
            if isinstance(v, VPy) and isinstance(v.o, enum.Enum):
                v = self.lift(v.o.value) if mode.lit == "json" else v
            elif not isinstance(v, (VStr, VInt, VBool, VNone)):
                if isinstance(v, VRef) and self.plain(st, v):
                    st, v = self.copied(st, v, True, {})
                else:
                    v = VUnk("dump of field " + n)
            items[n] = v
        return [self.alloc(st, HDict(items))]

    def plain(self, st, v):
        if isinstance(v, VRef):
            h = st.heap[v.id]
            if isinstance(h, HList) and not isinstance(h, HSet) and h.items is not None:
                return all(self.plain(st, x) for x in h.items)
            if isinstance(h, HDict) and not h.open:
                return all(self.plain(st, x) for x in h.items.values() if x is not ABSENT)
            return False
        return isinstance(v, (VStr, VInt, VBool, VNone))

    def known_bool(self, v):
        import z3
        t = z3.simplify(v.t) if not isinstance(v.t, bool) else v.t
        return True if t is True or z3.is_true(t) else False if t is False or z3.is_false(t) else None

    def model_fields(self, st, h):
        return [VTup([VStr(lit=n), h.attrs.get(n, VUnk("field " + n))]) for n in h.cls.model_fields]

    def enum_of(self, st, o, v, node):
        """Enum(value)"""
        bad = VRaise("ValueError", "no %s line %s" % (o.__name__, getattr(node, "lineno", "?")))
        if isinstance(v, VPy) and isinstance(v.o, o):
            return [(st, v)]
        k = self.pykey(v)
        if k is not None:
            try:
                return [(st, VPy(o(k[0])))]
            except ValueError:
                return [(st, bad)]
        if not isinstance(v, VStr):
            return [(st, VUnk(o.__name__)), (st, bad)]
        out = []
        for m in o:
            for s, b in self.fork(st, self._eqt(st, v, self.lift(m.value))):
                if b:
                    out.append((s, VPy(m)))
                else:
                    st = s
        return out + [(st, bad)]
