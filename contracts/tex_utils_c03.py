r"""C03: comment stripping (latex2json/utils/tex_utils.py strip_latex_comments)."""
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract
from .tex_utils_c01 import bsl, esc, M


def gen_text(rng, part):
    return "".join(rng.choice(["%", "\\", "\\%", "\n", "a", " ", "  ", "\t", "{", "\\\\", "%%", "\r\n", "\n\n", "x%y"]) for _ in range(rng.randrange(0, 12)))


@spec
def cut(t: Str, i: Int) -> Int:
    """position of the first unescaped percent sign at or after i (or the end of the line)"""
    return i if i < 0 or i >= len(t) or (t[i] == "%" and not esc(t, i)) else cut(t, i + 1)


@spec(opaque=True)
def kept(t: Str) -> Str:
    """what remains of one line"""
    return rstrip(t[:cut(t, 0)])


@spec
def keptall(ls: List, k: Int, acc: List) -> List:
    return acc if k < 0 or k >= len(ls) else keptall(ls, k + 1, acc + [kept(vstr(ls[k]))])


@lemma(trigger="cut(t, i)", measure="len(t) - i")
def cut_range(t: Str, i: Int):
    """the cut is the first unescaped percent sign: it is one, and there is none before"""
    assert 0 <= i and i <= len(t)
    return i <= cut(t, i) and cut(t, i) <= len(t) and implies(cut(t, i) < len(t), t[cut(t, i)] == "%" and not esc(t, cut(t, i)))


@lemma(trigger="cut(t, i), t[k]", measure="len(t) - i")
def cut_first(t: Str, i: Int, k: Int):
    assert 0 <= i and i <= k and k < cut(t, i) and k < len(t)
    return t[k] != "%" or esc(t, k)


@contract
class StripComments:
    target = M + "strip_latex_comments"
    gen = {"text": gen_text}
    types = {"text": "str"}
    returns = "str"
    calls = (M + "is_escaped",)
    uses = ("cut_range",)

    def ensures(text, result):
        return result == joins("\n", keptall(lines(text), 0, []))

    def inv_cut(line: Str, i: Int, parts: List):
        return cut(line, i) == cut(line, 0), joined(parts) == line[:i]

    def inv_all(text, k: Int, acc: List):
        return keptall(lines(text), k, acc) == keptall(lines(text), 0, [])
