"""Object graphs: arbitrary values put where the program may have written (pyvc/frame.py), comparison of two graphs, disjointness."""
import enum
import z3
from .values import *
from .frame import frame, ANY, ROOT


def ours(cls):
    return isinstance(cls, type) and (cls.__module__ or "").startswith("latex2json") and not issubclass(cls, enum.Enum)


def children(st, v):
    if isinstance(v, VTup):
        return v.items
    if isinstance(v, VRef):
        h = st.heap[v.id]
        if isinstance(h, HObj):
            return list(h.attrs.values())
        if isinstance(h, HDict):
            return [x for x in h.items.values() if x is not ABSENT] + [k.v for k in h.items if isinstance(k, SymKey)]
        if isinstance(h, HTail):
            return list(h.items)
        return list(h.items or ())
    if isinstance(v, VBound):
        return [v.recv]
    if isinstance(v, VClos):
        return [x for n, x in captured(st, v)]
    return []


def captured(st, v):
    """variables of the functions around that a closure uses"""
    import ast
    out, fid = [], v.fid
    names = {n.id for n in ast.walk(v.node) if isinstance(n, ast.Name)}
    if v.self_ is not None:
        out.append(("self", v.self_))
    while fid is not None and fid in st.frames:
        env, info = st.frames[fid]
        out += [(n, env[n]) for n in sorted(names) if n in env]
        names -= set(env)
        fid = info.get("parent")
    return out


def reach(st, v):
    """-> (references, Python objects) reachable"""
    seen, todo, py = {}, [v], []
    while todo:
        x = todo.pop()
        if isinstance(x, VRef):
            if x.id in seen:
                continue
            seen[x.id] = x
        elif isinstance(x, VPy):
            py.append(x)
        todo.extend(children(st, x))
    return seen, py


def holders(st, v):
    """the objects reachable, with the attributes that hold them (ANY for elements of containers and variables of closures)"""
    held, todo, done = {}, [(v, ROOT)], set()
    while todo:
        x, via = todo.pop()
        if isinstance(x, VRef):
            held.setdefault(x.id, set()).add(via)
            if x.id in done:
                continue
            done.add(x.id)
            h = st.heap[x.id]
            if isinstance(h, HObj):
                todo += [(y, a) for a, y in h.attrs.items()]
                continue
        if isinstance(x, VClos) or isinstance(x, VBound):
            continue
        todo += [(y, ANY) for y in children(st, x)]
    return held


def disturb(eng, st, v):
    """whatever may be written after an object was made, in all objects reachable, has an arbitrary value"""
    F = frame()
    held = holders(st, v)
    st = st.copy()
    for i in held:
        h = st.heap[i]
        if not isinstance(h, HObj) or not ours(h.cls):
            continue
        kinds = {}
        for via in held[i]:
            for a, k in F.of(h.cls.__name__, via).items():
                kinds.setdefault(a, set()).update(k)
        new = dict(h.attrs)
        for a, k in kinds.items():
            x = h.attrs.get(a)
            if x is None:
                if a not in F.mine(h.cls.__name__):
                    continue
                new[a] = VUnk("disturbed %s" % a)
            elif isinstance(x, VRef):
                g = st.heap[x.id]
                if isinstance(g, HObj):
                    if "rebind" in k:
                        new[a] = VUnk("disturbed %s" % a)
                elif isinstance(g, HDict):
                    st.heap[x.id] = HDict({}, True)
                elif isinstance(g, HSet):
                    st.heap[x.id] = HSet(None, eng.flst("disturbed"), "any")
                else:
                    st.heap[x.id] = HList(None, eng.flst("disturbed"), "any")
            elif "rebind" not in k:
                continue
            elif isinstance(x, VStr):
                new[a] = VStr(eng.fstr("disturbed"))
            elif isinstance(x, VBool):
                new[a] = VBool(eng.fbool("disturbed"))
            elif isinstance(x, VInt):
                new[a] = VInt(eng.fint("disturbed"))
            else:
                new[a] = VUnk("disturbed %s" % a)
        st.heap[i] = HObj(h.cls, new, h.types)
    eng.assumptions.add("what a function may write is read off the source by pyvc/frame.py (names and aliases, not types)")
    return [(st, VNone())]


SAME_RESULT = ("call logging.getLogger",)


def alike(eng, st, a, b):
    """the two object graphs are the same up to the identity of the objects"""
    to, back, facts = {}, {}, []

    def no(why):
        facts.append((False, why))

    todo = [(a, b, "object")]
    while todo:
        x, y, at = todo.pop()
        if type(x) is not type(y):
            no("%s: %r / %r" % (at, x, y))
        elif isinstance(x, VRef):
            if x.id in to or y.id in back:
                if to.get(x.id) != y.id or back.get(y.id) != x.id:
                    no(at + " is shared differently")
                continue
            to[x.id], back[y.id] = y.id, x.id
            g, h = st.heap[x.id], st.heap[y.id]
            if type(g) is not type(h):
                no(at + " is of another kind")
            elif isinstance(g, HObj):
                if g.cls is not h.cls:
                    no(at + " is of another class")
                for n in sorted(set(g.attrs) | set(h.attrs)):
                    # an attribute the object does not have of its own is that of its class
                    p, q = [k.attrs[n] if n in k.attrs else eng.lift(getattr(k.cls, n)) if hasattr(k.cls, n) else None for k in (g, h)]
                    if p is None or q is None:
                        no("%s has no attribute %s" % (at, n))
                    else:
                        todo.append((p, q, at + "." + n))
            elif isinstance(g, HDict):
                if g.open or h.open or list(g.items) != list(h.items):
                    no(at + " may hold other keys")
                else:
                    for k in g.items:
                        if (g.items[k] is ABSENT) != (h.items[k] is ABSENT):
                            no(at + "[%r]" % (k,))
                        elif g.items[k] is not ABSENT:
                            todo.append((g.items[k], h.items[k], at + "[%r]" % (k,)))
            elif isinstance(g, HTail) or g.items is None or h.items is None:
                if isinstance(g, HTail) or g.items is not None or h.items is not None or not g.term.eq(h.term):
                    no(at + " may hold other elements")
            elif len(g.items) != len(h.items):
                no(at + " has another length")
            else:
                todo += [(p, q, "%s[%d]" % (at, n)) for n, (p, q) in enumerate(zip(g.items, h.items))]
        elif isinstance(x, VTup):
            if len(x.items) != len(y.items):
                no(at)
            todo += list(zip(x.items, y.items, [at] * len(x.items)))
        elif isinstance(x, VPy):
            if stateful(x.o) or stateful(y.o):
                no("%s is an object kept outside the instance" % at)
            elif not (x.o is y.o or type(x.o) is type(y.o) and x.o == y.o):
                no("%s: %r / %r" % (at, x, y))
        elif isinstance(x, (VInt, VBool)):
            facts.append((x.t == y.t, at))
        elif isinstance(x, VStr):
            facts.append((True if x.lit is not None and x.lit == y.lit else x.t == y.t, at))
        elif isinstance(x, VPat):
            facts.append((True if x.o is not None and x.o is y.o else x.t == y.t, at))
        elif isinstance(x, VClos):
            if x.node is not y.node:
                no(at + " is another function")
            p, q = captured(st, x), captured(st, y)
            if [n for n, _ in p] != [n for n, _ in q]:
                no(at)
            todo += [(u, v, at + ":" + n) for (n, u), (_, v) in zip(p, q)]
        elif isinstance(x, VBound):
            if x.name != y.name:
                no(at)
            todo.append((x.recv, y.recv, at + " of"))
        elif isinstance(x, VUnk):
            if x is not y and not (x.why == y.why and x.why in SAME_RESULT):
                no("%s: %r / %r" % (at, x, y))
        elif not isinstance(x, (VNone, VInf)):
            no("%s: %r" % (at, x))
    for t, why in facts:
        if t is False:
            import os
            if os.environ.get("PYVC_GRAPH"):
                print("   alike:", why[:300])
            eng.notes = getattr(eng, "notes", []) + [why[:200]]
    if any(t is False for t, _ in facts):
        return [(st, VBool(False))]
    return [(st, VBool(z3.And([t for t, _ in facts if t is not True]) if any(t is not True for t, _ in facts) else True))]


def stateful(o):
    return ours(type(o)) and bool(frame().of(type(o).__name__))


def apart(eng, st, a, b):
    """the two object graphs have no object in common that anything writes to"""
    p, pp = reach(st, a)
    q, qq = reach(st, b)
    return [(st, VBool(not (set(p) & set(q)) and not any(stateful(x.o) for x in pp + qq)))]
