r"""C09: substitution of macro arguments (latex2json/utils/tex_utils.py)."""
import re
from pyvc.spec import *
from pyvc.spec import spec, lemma, axiom
from pyvc.engine import contract
from .tex_utils_c01 import M

# the text the code under contract has to search with; the axioms below say what it matches (checked in bounded/c09.py)
MARK = re.compile(r"(\\.)|(#+)([1-9])", re.DOTALL)


@spec
def hend(t: Str, i: Int) -> Int:
    """end of the run of hashes from i on"""
    return i if i < 0 or i >= len(t) or t[i] != "#" else hend(t, i + 1)


@spec(opaque=True)
def markat(t: Str, i: Int) -> Bool:
    """a backslash with the character it escapes, or hashes and a digit from 1 to 9"""
    return (t[i] == "\\" and i + 1 < len(t)) or (t[i] == "#" and hend(t, i) < len(t) and ord(t[hend(t, i)]) >= 49 and ord(t[hend(t, i)]) <= 57)


@spec
def mark(t: Str, i: Int) -> Int:
    """position of the first of these from i on (or the end of the text)"""
    return len(t) if i < 0 or i >= len(t) else i if markat(t, i) else mark(t, i + 1)


@spec(opaque=True)
def mkend(t: Str, i: Int) -> Int:
    return i + 2 if t[i] == "\\" else hend(t, i) + 1


@lemma(trigger="hend(t, i)", measure="len(t) - i")
def hend_range(t: Str, i: Int):
    assert 0 <= i and i <= len(t)
    return i <= hend(t, i) and hend(t, i) <= len(t) and implies(i < len(t) and t[i] == "#", i < hend(t, i))


@lemma(trigger="mark(t, i)", measure="len(t) - i")
def mark_range(t: Str, i: Int):
    assert 0 <= i and i <= len(t)
    return i <= mark(t, i) and mark(t, i) <= len(t) and implies(mark(t, i) < len(t), markat(t, mark(t, i)))


@lemma(trigger="mkend(t, i)", uses=("hend_range",))
def mkend_range(t: Str, i: Int):
    assert 0 <= i and i < len(t) and markat(t, i)
    return i < mkend(t, i) and mkend(t, i) <= len(t)


def sample_mark(rng):
    t = "".join(rng.choice(["#", "#", "\\", "0", "1", "2", "9", "a", "\n", " ", "\u0661", "\u00b2", "{"]) for _ in range(rng.randrange(0, 12)))
    return t, rng.randrange(0, len(t) + 1)


@axiom(trigger="found(MARK, t, k)", sample=sample_mark)
def mark_found(t: Str, k: Int):
    assert 0 <= k and k <= len(t)
    return found(MARK, t, k) == (mark(t, k) < len(t))


@axiom(trigger="found(MARK, t, k)", sample=sample_mark)
def mark_start(t: Str, k: Int):
    assert 0 <= k and k <= len(t) and found(MARK, t, k)
    return mstart(MARK, t, k) == mark(t, k) and mend(MARK, t, k) == mkend(t, mark(t, k))


@axiom(trigger="found(MARK, t, k)", sample=sample_mark)
def mark_escape(t: Str, k: Int):
    assert 0 <= k and k <= len(t) and found(MARK, t, k)
    return (mgroup(MARK, t, k, 1) != None) == (t[mark(t, k)] == "\\")


@axiom(trigger="found(MARK, t, k)", sample=sample_mark)
def mark_hashes(t: Str, k: Int):
    assert 0 <= k and k <= len(t) and found(MARK, t, k)
    return mgroup(MARK, t, k, 2) == (None if t[mark(t, k)] == "\\" else t[mark(t, k):hend(t, mark(t, k))])


@axiom(trigger="found(MARK, t, k)", sample=sample_mark)
def mark_number(t: Str, k: Int):
    assert 0 <= k and k <= len(t) and found(MARK, t, k)
    return mgroup(MARK, t, k, 3) == (None if t[mark(t, k)] == "\\" else t[hend(t, mark(t, k)):hend(t, mark(t, k)) + 1])


@spec(opaque=True)
def lvl(t: Str, i: Int) -> Int:
    """number of hashes of the mark at i, 0 for an escaped character"""
    return hend(t, i) - i if t[i] == "#" else 0


@spec
def low(t: Str, k: Int, b: Int) -> Int:
    """the lowest level of the marks from k on, b before"""
    return b if k < 0 or mark(t, k) >= len(t) else low(t, mkend(t, mark(t, k)), better(b, lvl(t, mark(t, k))))


@spec(opaque=True)
def better(b: Int, n: Int) -> Int:
    return n if n > 0 and (b == 0 or n < b) else b


@spec(opaque=True)
def braced(t: Str, i: Int, e: Int, a: Str, math: Bool) -> Str:
    """the argument a in place of t[i:e]; in math mode in braces where a letter is next to it"""
    return "{" + a + "}" if math and a != "" and ((i > 0 and isalpha(t[i - 1])) or (e < len(t) and isalpha(t[e]))) else a


@spec(opaque=True)
def repl(t: Str, i: Int, args: List, lo: Int, math: Bool) -> Str:
    """what takes the place of the mark at i"""
    return (t[i:mkend(t, i)] if t[i] == "\\" or lvl(t, i) != lo or ord(t[hend(t, i)]) - 48 > len(args)
            else braced(t, i, mkend(t, i), vstr(args[ord(t[hend(t, i)]) - 49]), math))


@spec
def subst(t: Str, k: Int, args: List, lo: Int, math: Bool, acc: Str) -> Str:
    return (acc + t[k:] if k < 0 or mark(t, k) >= len(t)
            else subst(t, mkend(t, mark(t, k)), args, lo, math, acc + t[k:mark(t, k)] + repl(t, mark(t, k), args, lo, math)))


@contract
class SubstituteArgs:
    target = M + "substitute_args"
    types = {"definition": "str", "args": "list[str]", "math_mode": "bool"}
    returns = "str"
    budget = 200
    alphabet = ["#", "#", "\\", "1", "2", "3", "a", "b", " ", "{"]
    effort = 3000
    uses = ("hend_range", "mark_range", "mkend_range", "mark_found", "mark_start", "mark_escape", "mark_hashes", "mark_number")

    def ensures(definition, args, math_mode, result):
        return result == (definition if len(args) == 0 or low(definition, 0, 0) < 1 else subst(definition, 0, args, low(definition, 0, 0), math_mode, ""))

    def inv_low(definition, pos: IntM, lo: IntM):
        return low(definition, pos, lo) == low(definition, 0, 0), lo >= 0

    def inv_sub(definition, args, math_mode, out: StrM, pos: IntM, lo: IntF):
        return subst(definition, pos, args, lo, math_mode, out) == subst(definition, 0, args, low(definition, 0, 0), math_mode, "")
