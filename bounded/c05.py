"""C05: numbering by the document builder against an independent account, on enumerated and random token trees and on parsed documents."""
from .organize import *


def run(b, number=True):
    from pyvc.runner import limit, quiet
    from latex2json.structure.builder import TokenBuilder
    from latex2json.parser.tex_parser import LatexParser
    import copy
    rng = b.rng
    used = TokenBuilder()              # one builder for all documents: earlier ones must not matter

    def one(toks, src=None):
        b.case(src or toks)
        before = copy.deepcopy(toks)
        try:
            with limit(20), quiet():
                got = used.organize_content(toks)
        except Exception as e:
            return b.fail(str(src or before)[:300], "organizing %r raises %r" % (src or before, e), input=repr(src or before))
        if not number and toks != before:
            return b.fail(str(src or before)[:300], "the caller's tokens were modified: %s" % diff(toks, before), input=repr(src or before))
        want = expected(before)
        if number:
            g, w = numbers(got, []), numbers(want, [])
            if sorted(map(repr, g)) != sorted(map(repr, w)) or [x for x in g if x[1] is not None] != [x for x in w if x[1] is not None]:
                i = next((i for i, (x, y) in enumerate(zip(g + [None] * 9, w + [None] * 9)) if x != y), 0)
                b.fail(str(src or before)[:300], "numbering of %r: got %r, expected %r" % (src or before, g[i:i + 3], w[i:i + 3]), input=repr(src or before), got=repr(g), want=repr(w))
        else:
            d = diff(got, want, numbering=False)
            if d:
                b.fail(str(src or before)[:300], "organizing %r: %s" % (src or before, d), input=repr(src or before))
    b.begin("all token sequences up to length 3 (4 in thorough)")
    for n in range(0, 4 if b.tier == "quick" else 5):
        for ks in itertools.product(KINDS, repeat=n):
            if b.full():
                return
            one([small(rng, k) for k in ks])
    b.begin("documents parsed from LaTeX")
    while not b.full() and b.parts[b.part] < (120 if b.tier == "quick" else 3000):
        s = latex(rng)
        with limit(60), quiet():
            toks = LatexParser().parse(s)
        one(toks, s)
    b.begin("random token trees")
    while not b.full() and b.parts[b.part] < (4000 if b.tier == "quick" else 100000):
        one(tokens(rng, rng.choice([0, 1, 2, 3]), rng.choice([None, None, 12, 25])))
    if number:
        b.begin("numbers in the built document")
        for _ in range(40 if b.tier == "quick" else 1000):
            if b.full():
                return
            s = latex(rng)
            with limit(60), quiet():
                toks = LatexParser().parse(s)
                out = [t.model_dump() if hasattr(t, "model_dump") else t.dict() for t in TokenBuilder().build(toks)]
            b.case(s)
            g, w = [x for x in numbers(out, []) if x[1]], [x for x in numbers(expected(toks), []) if x[1]]
            if g != w:
                b.fail(s, "numbers in the built document of %r: %r, expected %r" % (s, g, w), input=s)
