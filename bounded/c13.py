"""C13 end to end: IfElseBlockHandler.handle on conditionals generated from a known tree."""
import itertools

CONDS = [("\\iftrue ", "true"), ("\\iffalse\n", "false"), ("\\ifx\\foo\\bar ", "\\foo\\bar"), ("\\ifnum\\value{a}>3 ", "\\value{a}>3"), ("\\ifnum 3<4 ", "3<4"),
         ("\\ifdim 3pt<4pt ", "3pt<4pt"), ("\\ifdefined\\foo ", "\\foo"), ("\\ifmmode ", "mmode"), ("\\if ab ", "ab"), ("\\ifdraft\n", "draft"), ("\\iffalse\\foo ", "false")]
PIECES = ["some text ", "\\cmd{a} ", "\\figure ", "\\fill{q} ", "\\elsewhere ", "\\iff ", "\\ifthenelse{a}{b}{c} ", "par\n\n", "(g) ","\\@ifstar{p}{q} ", "12 ", "\\finish ", "\\IfFileExists{f}{a}{b} ",
          "\\orange ", "\\begin{z} w\\end{z} "]


# marker text and the condition it stands for, which is at least two tokens long (after a single one the code takes in one more)
ELSIFS = [("\\elsif{cond} ", "{cond}"), ("\\elseif{ab}\n", "{ab}"), ("\\or case ", "case"), ("\\elsif\\foo\\bar ", "\\foo\\bar"), ("\\elseif ab ", "ab"), ("\\or 12\n", "12")]


def tree(rng, depth, top=False):
    """(condition index, [branch]) with branch kinds if / elsif / else; a branch is a list of pieces and trees"""
    def body(d):
        out = []
        for _ in range(rng.randrange(0, 4)):
            out.append(tree(rng, d - 1) if d > 0 and rng.random() < .45 else rng.choice(PIECES))
        return out
    ci = rng.randrange(len(CONDS))
    n = rng.choice([0, 0, 0, 1, 2, 3])
    brs = [("if", None, body(depth))]
    for i in range(n):
        brs.append(("elsif", rng.choice(ELSIFS), body(depth)))
    if rng.random() < .6:
        brs.append(("else", None, body(depth)))
    return ci, brs


def text(b):
    return "".join(x if isinstance(x, str) else render(x) for x in b)


def render(t):
    ci, brs = t
    s = CONDS[ci][0]
    for k, c, b in brs:
        s += {"if": "", "elsif": c[0] if c else "", "else": "\\else "}[k] + text(b)
    return s + "\\fi "


def expected(t):
    ci, brs = t
    iff = text(brs[0][2]).strip()
    els = next((text(b).strip() for k, c, b in brs if k == "else"), "")
    # the first part of the condition of an \\iffalse\\foo stays in the branch
    if CONDS[ci][0].startswith("\\iffalse\\foo"):
        iff = ("\\foo " + text(brs[0][2])).strip()
    el = [(c[1], text(b).strip()) for k, c, b in brs if k == "elsif"]
    cond = CONDS[ci][1]
    if cond == "false":
        iff, els = els, iff
    return cond, iff, els, el


def run(b):
    from pyvc.runner import limit, Timeout
    from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
    h = IfElseBlockHandler()
    h.process_newif("draft")

    def one(s, want):
        """want: (cond, if, else, elsif, end) or None when unclosed"""
        try:
            with limit(10):
                tok, end = h.handle(s)
        except Timeout:
            return b.fail(s, "handle(%r) does not end" % s, input=s)
        except Exception as e:
            return b.fail(s, "handle(%r) raises %r" % (s, e), input=s)
        if want is None:
            if tok is not None or end != 0:
                b.fail(s, "unclosed conditional %r not reported as unclosed: %r" % (s, (tok, end)), input=s)
            return
        if tok is None:
            return b.fail(s, "conditional %r not recognised" % s, input=s)
        got = (tok["condition"].strip("{} "), tok["if_content"], tok["else_content"], [(c.strip(), x) for c, x in tok["elsif_branches"]], end)
        if got != want:
            b.fail(s, "handle(%r) = %r, expected %r" % (s, got, want), input=s, got=got, want=want)
    b.begin("conditionals rendered from random trees")
    rng = b.rng
    while not b.full() and b.parts[b.part] < (6000 if b.tier == "quick" else 80000):
        t = tree(rng, rng.choice([0, 1, 1, 2, 3]))
        s = render(t)
        cond, iff, els, el = expected(t)
        tail = rng.choice(["", "rest", "\\fi x", "\\else y\\fi", "\n\n\\iftrue a\\fi"])
        one(s[:-1] + " " * 0 + (" " if tail[:1].isalpha() else "") + tail, (cond.strip("{} "), iff, els, el, len(s) - 1))
        b.case(s)
        # without its own fi the conditional is unclosed
        u = s[:-4]
        if rng.random() < .3:
            one(u, None)
            b.case(u)
    b.begin("brace conditionals")
    for name in ["\\ifthenelse"]:
        for a, c, d in itertools.product(["x", "", "{n}", "a\\}b"], ["y", "", "\\iftrue q\\else r\\fi"], ["z", "", "{{}}"]):
            for sp in ["", " ", "\n"]:
                s = name + sp + "{%s}%s{%s}%s{%s}" % (a, sp, c, sp, d)
                tok, end = h.handle(s + "tail{e}")
                b.case(s)
                if tok is None or (tok["condition"], tok["if_content"], tok["else_content"], end) != (a, c, d, len(s)):
                    b.fail(s, "handle(%r) = %r" % (s + "tail{e}", (tok, end)), input=s)
                    if b.full():
                        return
