"""Facts about concrete regular expressions, computed from CPython's own parse tree (re._parser)."""
import re
import re._parser as sp
import re._constants as sc


class Facts:
    def __init__(self, minw, prefix, suffix, groups, gfacts, maxw=None):
        self.minw, self.prefix, self.suffix, self.groups, self.gfacts, self.maxw = minw, prefix, suffix, groups, gfacts, maxw


def _always(tree, must=True, out=None):
    """groups that participate in every successful match"""
    out = {} if out is None else out
    for op, av in tree:
        if op is sc.SUBPATTERN:
            g, _, _, p = av
            if g is not None:
                out[g] = must
            _always(p, must, out)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            lo, hi, p = av
            _always(p, must and lo > 0, out)
        elif op is sc.BRANCH:
            for p in av[1]:
                _always(p, False, out)
        elif op in (sc.ASSERT, ):
            _always(av[1], must, out)
        elif op is sc.ASSERT_NOT:
            _always(av[1], False, out)
        elif op is getattr(sc, "ATOMIC_GROUP", None):
            _always(av, must, out)
        elif op is sc.GROUPREF_EXISTS:
            for p in av[1:]:
                if p is not None:
                    _always(p, False, out)
    return out


def _ends(tree, last):
    """set of characters the match may end (last) / start with; None = unknown"""
    items = list(tree)
    if last:
        items = items[::-1]
    acc = set()
    for op, av in items:
        if op is sc.LITERAL:
            return acc | {av}
        if op is sc.IN:
            s = set()
            for o, a in av:
                if o is sc.LITERAL:
                    s.add(a)
                elif o is sc.RANGE and a[1] - a[0] < 100:
                    s |= set(range(a[0], a[1] + 1))
                else:
                    return None
            return acc | s
        if op in (sc.AT,):
            continue
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            continue
        if op is sc.SUBPATTERN:
            r = _ends(av[3], last)
            if r is None:
                return None
            w = av[3].getwidth()[0]
            if w > 0:
                return acc | r
            acc |= r
            continue
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, p = av
            r = _ends(p, last)
            if r is None:
                return None
            acc |= r
            if lo > 0 and p.getwidth()[0] > 0:
                return acc
            continue
        if op is sc.BRANCH:
            opt = False
            for p in av[1]:
                r = _ends(p, last)
                if r is None:
                    return None
                acc |= r
                if p.getwidth()[0] == 0:
                    opt = True
            if not opt:
                return acc
            continue
        return None
    return acc


def _charset(tree):
    """True if group matches only ASCII/unicode digits (\\d+)"""
    for op, av in tree:
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if not _charset(av[2]):
                return False
        elif op is sc.IN:
            if not all((o is sc.CATEGORY and a is sc.CATEGORY_DIGIT) or (o is sc.RANGE and 48 <= a[0] and a[1] <= 57) for o, a in av):
                return False
        elif op is sc.LITERAL:
            if not 48 <= av <= 57:
                return False
        else:
            return False
    return True


def _letters(tree):
    """True if the tree matches only ASCII letters"""
    ok = lambda c: 65 <= c <= 90 or 97 <= c <= 122
    for op, av in tree:
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            if not _letters(av[2]):
                return False
        elif op is sc.SUBPATTERN:
            if not _letters(av[3]):
                return False
        elif op is sc.BRANCH:
            if not all(_letters(p) for p in av[1]):
                return False
        elif op is sc.IN:
            if not all((o is sc.LITERAL and ok(a)) or (o is sc.RANGE and ok(a[0]) and ok(a[1]) and a[1] - a[0] < 26) for o, a in av):
                return False
        elif op is sc.LITERAL:
            if not ok(av):
                return False
        elif op not in (sc.ASSERT, sc.ASSERT_NOT, sc.AT):
            return False
    return True


def _groups(tree, out):
    for op, av in tree:
        if op is sc.SUBPATTERN:
            g, _, _, p = av
            if g is not None:
                out[g] = p
            _groups(p, out)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            _groups(av[2], out)
        elif op is sc.BRANCH:
            for p in av[1]:
                _groups(p, out)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            _groups(av[1], out)
    return out


def _offsets(tree, lo, hi, out):
    """for every group: at least `lo` characters of the match lie before it, at least `hi` after it (None inside an assertion)"""
    items = list(tree)
    ws = [_width(op, av) for op, av in items]
    for i, (op, av) in enumerate(items):
        a, z = (None, None) if lo is None else (lo + sum(ws[:i]), hi + sum(ws[i + 1:]))
        if op is sc.SUBPATTERN:
            g, _, _, p = av
            if g is not None:
                out[g] = (a, z)
            _offsets(p, a, z, out)
        elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
            _offsets(av[2], a, z, out)
        elif op is sc.BRANCH:
            for p in av[1]:
                _offsets(p, a, z, out)
        elif op in (sc.ASSERT, sc.ASSERT_NOT):
            _offsets(av[1], None, None, out)
        elif op is getattr(sc, "ATOMIC_GROUP", None):
            _offsets(av, a, z, out)
        elif op is sc.GROUPREF_EXISTS:
            for p in av[1:]:
                if p is not None:
                    _offsets(p, a, z, out)
    return out


def _width(op, av):
    if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
        return 1
    if op is sc.SUBPATTERN:
        return av[3].getwidth()[0]
    if op in (sc.MAX_REPEAT, sc.MIN_REPEAT, getattr(sc, "POSSESSIVE_REPEAT", None)):
        return av[0] * av[2].getwidth()[0]
    if op is sc.BRANCH:
        return min(p.getwidth()[0] for p in av[1])
    return 0


_cache = {}


def facts(p):
    key = (p.pattern, p.flags)
    if key in _cache:
        return _cache[key]
    t = sp.parse(p.pattern, p.flags & ~re.UNICODE if False else p.flags)
    lo, hi = t.getwidth()
    ic = bool(p.flags & re.IGNORECASE)
    pre = None if ic or lo == 0 else _ends(t, False)
    suf = None if ic or lo == 0 else _ends(t, True)
    gs = _groups(t, {})
    gf = {}
    off = _offsets(t, 0, 0, {})
    for g, sub in gs.items():
        w = sub.getwidth()
        gf[g] = dict(alpha=not ic and _letters(sub), digits=_charset(sub) and w[0] > 0, minw=w[0], before=off[g][0], after=off[g][1], chars=None if ic else _small(sub))
    f = Facts(lo, pre, suf, _always(t), gf, hi)
    f.ngroups = p.groups
    _cache[key] = f
    return f


def _small(tree):
    if len(tree) == 1 and tree[0][0] is sc.IN:
        s = _ends(tree, True)
        return s if s is not None and len(s) <= 8 else None
    return None
