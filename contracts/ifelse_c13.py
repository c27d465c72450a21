r"""C13: conditionals (latex2json/parser/handlers/if_else_statements.py extract_else_elseif_fi)."""
import re
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract
from . import tex_utils_c01  # contracts of extract_nested_content_sequence_blocks

M = "latex2json.parser.handlers.if_else_statements:"
PARAMS = "content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter"


# sp, ep, lp, xp: the patterns of the start (if), end (fi), else and elsif markers; on: else and elsif markers count
@spec(opaque=True)
def kind(sp: Pat, ep: Pat, lp: Pat, xp: Pat, s: Str, on: Bool) -> Int:
    """which marker comes first in s: 1 start, 2 end, 3 else, 4 elsif, 0 none"""
    return (1 if found(sp, s, 0) and (not found(ep, s, 0) or mstart(sp, s, 0) <= mstart(ep, s, 0))
            and (not on or not found(lp, s, 0) or mstart(sp, s, 0) <= mstart(lp, s, 0)) and (not on or not found(xp, s, 0) or mstart(sp, s, 0) <= mstart(xp, s, 0))
            else 2 if found(ep, s, 0) and (not on or not found(lp, s, 0) or mstart(ep, s, 0) <= mstart(lp, s, 0)) and (not on or not found(xp, s, 0) or mstart(ep, s, 0) <= mstart(xp, s, 0))
            else 3 if on and found(lp, s, 0) and (not found(xp, s, 0) or mstart(lp, s, 0) <= mstart(xp, s, 0))
            else 4 if on and found(xp, s, 0) else 0)


@spec(opaque=True)
def mks(sp: Pat, ep: Pat, lp: Pat, xp: Pat, s: Str, on: Bool) -> Int:
    """where that marker starts"""
    return (mstart(sp, s, 0) if kind(sp, ep, lp, xp, s, on) == 1 else mstart(ep, s, 0) if kind(sp, ep, lp, xp, s, on) == 2
            else mstart(lp, s, 0) if kind(sp, ep, lp, xp, s, on) == 3 else mstart(xp, s, 0))


@spec(opaque=True)
def mke(sp: Pat, ep: Pat, lp: Pat, xp: Pat, s: Str, on: Bool) -> Int:
    """where that marker ends"""
    return (mend(sp, s, 0) if kind(sp, ep, lp, xp, s, on) == 1 else mend(ep, s, 0) if kind(sp, ep, lp, xp, s, on) == 2
            else mend(lp, s, 0) if kind(sp, ep, lp, xp, s, on) == 3 else mend(xp, s, 0))


@lemma(trigger="kind(sp, ep, lp, xp, s, on)")
def mk_range(sp: Pat, ep: Pat, lp: Pat, xp: Pat, s: Str, on: Bool):
    assert nonempty(sp) and nonempty(ep) and nonempty(lp) and nonempty(xp)
    return 0 <= kind(sp, ep, lp, xp, s, on) and kind(sp, ep, lp, xp, s, on) <= 4 and implies(
        kind(sp, ep, lp, xp, s, on) > 0, 0 <= mks(sp, ep, lp, xp, s, on) and mks(sp, ep, lp, xp, s, on) < mke(sp, ep, lp, xp, s, on) and mke(sp, ep, lp, xp, s, on) <= len(s))


@spec
def top(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, l: Int, e: Bool) -> Int:
    """scan position in t from which the next marker is the one that ends the current branch (e: in the else branch,
    where only the matching fi does), skipping nested conditionals; l is the current nesting level, 1 outermost; -1 if none"""
    return ((-1) if p < 0 or p >= len(t) or l < 1 or kind(sp, ep, lp, xp, t[p:], l == 1 and not e) == 0
            else top(sp, ep, lp, xp, t, p + mke(sp, ep, lp, xp, t[p:], l == 1 and not e), l + 1, e) if kind(sp, ep, lp, xp, t[p:], l == 1 and not e) == 1
            else top(sp, ep, lp, xp, t, p + mke(sp, ep, lp, xp, t[p:], l == 1 and not e), l - 1, e) if kind(sp, ep, lp, xp, t[p:], l == 1 and not e) == 2 and l > 1
            else p)


@spec(opaque=True)
def bk(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, e: Bool) -> Int:
    """how the branch starting at p ends: 2 matching fi, 3 else, 4 elsif, 0 not at all"""
    return 0 if top(sp, ep, lp, xp, t, p, 1, e) < 0 else kind(sp, ep, lp, xp, t[top(sp, ep, lp, xp, t, p, 1, e):], not e)


@spec(opaque=True)
def bs(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, e: Bool) -> Int:
    """where the text of the branch starting at p ends"""
    return top(sp, ep, lp, xp, t, p, 1, e) + mks(sp, ep, lp, xp, t[top(sp, ep, lp, xp, t, p, 1, e):], not e)


@spec(opaque=True)
def be(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, e: Bool) -> Int:
    """position just past the marker that ends the branch starting at p"""
    return top(sp, ep, lp, xp, t, p, 1, e) + mke(sp, ep, lp, xp, t[top(sp, ep, lp, xp, t, p, 1, e):], not e)


@spec
def fipos(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, e: Bool) -> Int:
    """position just past the fi that closes the conditional whose current branch starts at p; -1 if it is unclosed"""
    return (-1 if p < 0 or p > len(t) or bk(sp, ep, lp, xp, t, p, e) == 0
            else be(sp, ep, lp, xp, t, p, e) if bk(sp, ep, lp, xp, t, p, e) == 2
            else fipos(sp, ep, lp, xp, t, be(sp, ep, lp, xp, t, p, e), e or bk(sp, ep, lp, xp, t, p, e) == 3))


@spec
def els(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int) -> Int:
    """where the text of the else branch starts (the current branch, not the else branch, starts at p); -1 if there is none"""
    return (-1 if p < 0 or p > len(t) or bk(sp, ep, lp, xp, t, p, False) == 0 or bk(sp, ep, lp, xp, t, p, False) == 2
            else be(sp, ep, lp, xp, t, p, False) if bk(sp, ep, lp, xp, t, p, False) == 3
            else els(sp, ep, lp, xp, t, be(sp, ep, lp, xp, t, p, False)))


@spec
def fill(E: List, s: Str) -> List:
    """the text of the last elsif branch becomes s"""
    return E if len(E) == 0 else setlast(E, (tup0(last(E)), s))


@spec
def eb(sp: Pat, ep: Pat, lp: Pat, xp: Pat, t: Str, p: Int, E: List) -> List:
    """all elsif branches (condition, text): E those up to the current branch, whose text starts at p"""
    return (fill(E, strip(t[p:bs(sp, ep, lp, xp, t, p, False)])) if p < 0 or p > len(t) or bk(sp, ep, lp, xp, t, p, False) != 4
            else eb(sp, ep, lp, xp, t, be(sp, ep, lp, xp, t, p, False),
                    append(fill(E, strip(t[p:bs(sp, ep, lp, xp, t, p, False)])), (mgroup(xp, t[top(sp, ep, lp, xp, t, p, 1, False):], 0, 1), ""))))


def text_gen(rng, part):
    def cond():
        return rng.choice(["\\if", "\\ifx", "\\if"]) + rng.choice(["{c}", "{d}", " true"]) + " " + body() + rng.choice(["\\fi", "\\fi", "\\fi ", "\\fi\n", ""])

    def body():
        return "".join(rng.choice(["x", "x", " ", "y", "\\else ", "\\else", "\\elsif{e}", "\\elseif{g} ", "\\fi ", "\\or z ", "\\fix"]) if rng.random() < .75 else cond() for _ in range(rng.randrange(0, 5)))
    return body() + rng.choice(["\\fi", "\\fi z", "\\fi", "", "\\else"])


@contract
class Extract:
    target = M + "extract_else_elseif_fi"
    types = {"content": "str", "start_delimiter": "pat", "end_delimiter": "pat", "else_delimiter": "pat", "elsif_delimiter": "pat"}
    returns = "tuple[str, str, list, int]"
    raises = ("ValueError",)
    uses = ("mk_range",)
    effort = 3000
    budget = 400
    gen = {"content": text_gen,
           "start_delimiter": lambda r, p: _h().IF_PATTERN, "end_delimiter": lambda r, p: _h().FI_PATTERN,
           "else_delimiter": lambda r, p: _h().ELSE_PATTERN, "elsif_delimiter": lambda r, p: _h().ELSIF_PATTERN}

    def requires(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter):
        return nonempty(start_delimiter), nonempty(end_delimiter), nonempty(else_delimiter), nonempty(elsif_delimiter)

    def ensures(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, result):
        return (
            fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False) >= 0,
            result[3] == fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False),
            result[0] == strip(content[0:bs(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False)]),
            result[1] == (strip(content[els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0):bs(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0), True)]) if els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0) >= 0 else ""),
            result[2] == eb(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, []),
            0 < result[3] and result[3] <= len(content),
        )

    def onraise(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter):
        return fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False) < 0

    def inv_cur(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, cur: ListS, pos: IntM, l: IntM):
        return (implies(l >= 1, len(joined(cur)) <= pos and joined(cur) == content[pos - len(joined(cur)):pos]),)

    def inv_scan(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, cur: ListS, pos: IntM, l: IntM, e: Bool):
        return (implies(l >= 1, top(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, pos, l, e) == top(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, pos - len(joined(cur)), 1, e)),
                implies(l >= 1, fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, pos - len(joined(cur)), e) == fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False)),
                implies(l >= 1, (pos - len(joined(cur)) if e else els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, pos - len(joined(cur)))) == els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0)),
                implies(l < 1, pos == fipos(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False)))

    def inv_pos(content, pos: IntM, l: IntM):
        return pos <= len(content) and implies(l < 1, pos > 0)

    def inv_level(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, l: IntM):
        return l >= 0

    def inv_elsif(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, cur: ListS, E: ListT, pos: IntM, l: IntM, e: Bool):
        return (implies(l >= 1, (E if e else eb(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, pos - len(joined(cur)), E)) == eb(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, [])),
                implies(l < 1, E == eb(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, [])))

    def inv_if(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, cur: ListS, ifl: ListS, E: ListT, pos: IntM, l: IntM, e: Bool):
        return (same(cur, ifl) == (len(E) == 0 and not e),
                implies(l >= 1 and same(cur, ifl), pos == len(joined(ifl))),
                implies(l < 1 or not same(cur, ifl), joined(ifl) == content[0:bs(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0, False)]))

    def inv_else(content, start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, cur: ListS, ell: ListS, l: IntM, e: Bool):
        return (same(cur, ell) == e, implies(not e, len(ell) == 0), implies(not e and l < 1, els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0) < 0),
                implies(l < 1 and e, els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0) >= 0 and joined(ell) == content[els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0):bs(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, els(start_delimiter, end_delimiter, else_delimiter, elsif_delimiter, content, 0), True)]))


def _h():
    import latex2json.parser.handlers.if_else_statements as m
    return m


IE = 'obj["latex2json.parser.handlers.if_else_statements:IfElseBlockHandler"]'
BRACED = ("ifthenelse", "@ifclassloaded", "@ifpackageloaded", "@ifundefined", "@ifstar")


def handler():
    return _h().IfElseBlockHandler()


def pattern(rng):
    return rng.choice([re.compile(r"\\if[a-z]*\s*\{?[a-z]+\}?"), re.compile(r"\\iffalse"), re.compile(r"\\iftrue"), _h().IF_PATTERN])


@contract
class Split:
    target = "contracts.ifelse:split"
    types = {"h": IE, "first": "str", "p": "pat", "second": "str", "q": "pat", "start": "pat", "text": "str"}
    returns = "bool"
    attr_types = {"latex2json.parser.handlers.if_else_statements:IfElseBlockHandler": {"all_ifs": "list[tuple[str, pat]]", "all_ifs_compiled": "opt[pat]"}}
    calls = (M + "extract_else_elseif_fi",)
    inlines = (M + "IfElseBlockHandler.handle",)
    budget = 200

    def sample(rng):
        h, t = handler(), rng.choice(["\\ifx", "\\iffalse", "\\iftrue", "\\if{c}", "x"]) + " " + text_gen(rng, 0)
        return {"h": h, "first": rng.choice(["iffalse", "false", "ifx"]), "p": pattern(rng), "second": "x", "q": pattern(rng), "start": _h().IF_PATTERN, "text": t}

    def requires(h, first, p, second, q, start, text):
        return nonempty(p), nonempty(q), nonempty(start), not first in ("ifthenelse", "@ifclassloaded", "@ifpackageloaded", "@ifundefined", "@ifstar"), not second in ("ifthenelse", "@ifclassloaded", "@ifpackageloaded", "@ifundefined", "@ifstar")

    def ensures(h, first, p, second, q, start, text, result):
        return result


@contract
class Braced:
    target = "contracts.ifelse:braced"
    types = {"h": IE, "name": "str", "p": "pat", "text": "str"}
    returns = "bool"
    attr_types = Split.attr_types
    inlines = Split.inlines
    calls = ("latex2json.utils.tex_utils:extract_nested_content_sequence_blocks",)
    budget = 100

    def sample(rng):
        blocks = "".join(rng.choice(["{a}", "{b{c}}", " {d}", "{e\\}}", "{"]) for _ in range(rng.randrange(5)))
        return {"h": handler(), "name": rng.choice(BRACED), "p": re.compile(r"\\[@a-z]+\s*\{"), "text": "\\cmd" + blocks}

    def requires(h, name, p, text):
        return nonempty(p), name in ("ifthenelse", "@ifclassloaded", "@ifpackageloaded", "@ifundefined", "@ifstar")

    def ensures(h, name, p, text, result):
        return result
