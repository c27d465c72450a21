r"""C04: splitting table source into rows and cells (latex2json/parser/handlers/tabular.py)."""
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract
from .tex_utils_c01 import bsl, esc, close, skipws, has, bend, bcont, M as TU

M = "latex2json.parser.handlers.tabular:"


def body_gen(rng, part):
    def grp(d):
        return "{" + "".join(item(d - 1) for _ in range(rng.randrange(0, 4))) + "}"

    def item(d):
        if d > 0 and rng.random() < .3:
            return grp(d)
        return rng.choice(["a", "b c", " ", "&", "&", "\\\\", "\\\\", "\\&", "\\{", "\\}", "\\", "\n", "\\%", "\\\\\\&", "\\makecell{x & y}", "}" if rng.random() < .1 else "z", "\\makecell[t]{q\\\\r}", "\\shortstack{"
                           if rng.random() < .2 else "1"])
    return "".join(item(2) for _ in range(rng.randrange(0, 9)))


@spec
def sep(t: Str, d: Str, i: Int, n: Int) -> Int:
    """first position from i on, at brace depth n, where an unescaped separator d stands at depth 0 (or the end of t)"""
    return (len(t) if i < 0 or i >= len(t)
            else sep(t, d, i + 1, n + 1) if t[i] == "{" and not esc(t, i)
            else sep(t, d, i + 1, n - 1) if t[i] == "}" and not esc(t, i)
            else i if startswith(t, d, i) and n == 0 and not esc(t, i)
            else sep(t, d, i + 1, n))


@spec(opaque=True)
def keep(acc: List, s: Str, rows: Bool) -> List:
    """a part is added unless it is blank and rows are being split"""
    return acc if rows and s == "" else append(acc, s)


@spec
def parts(t: Str, d: Str, p: Int, rows: Bool, acc: List) -> List:
    """all parts from position p on, appended to acc"""
    return (keep(acc, strip(t[p:]), rows) if p < 0 or p > len(t) or sep(t, d, p, 0) >= len(t)
            else parts(t, d, sep(t, d, p, 0) + len(d), rows, keep(acc, strip(t[p:sep(t, d, p, 0)]), rows)))


@contract
class Split:
    target = M + "split_latex_content"
    types = {"content": "str", "delimiter": "str", "is_row_split": "bool"}
    returns = "list[str]"
    gen = {"content": body_gen, "delimiter": ["&", "\\\\", "&", "\\\\", "||"]}
    calls = (TU + "is_escaped",)
    budget = 200
    effort = 1500

    def requires(content, delimiter):
        return len(delimiter) >= 1, delimiter[0] != "{", delimiter[0] != "}"

    def ensures(content, delimiter, is_row_split, result):
        return result == parts(content, delimiter, 0, is_row_split, [])

    def inv_text(content, i: Int, cur: List):
        return joined(cur) == content[i - len(joined(cur)):i], len(joined(cur)) <= i

    def inv_sep(content, delimiter, i: Int, n: Int, cur: List):
        return sep(content, delimiter, i, n) == sep(content, delimiter, i - len(joined(cur)), 0)

    def inv_parts(content, delimiter, is_row_split, i: Int, cur: List, acc: List):
        return parts(content, delimiter, i - len(joined(cur)), is_row_split, acc) == parts(content, delimiter, 0, is_row_split, [])


@contract
class Rows:
    target = M + "split_rows"
    types = {"latex_table": "str"}
    returns = "list[str]"
    gen = {"latex_table": body_gen}
    calls = (M + "split_latex_content",)

    def ensures(latex_table, result):
        return result == parts(latex_table, "\\\\", 0, True, [])


def _pattern(name, text):
    import re, latex2json.parser.handlers.tabular as m
    return getattr(m, name, None) or re.compile(text, re.DOTALL)


MK = _pattern("MAKECELL_SHORTSTACK_PATTERN", r"\\(?:makecell|shortstack)(?:\s*\[[^\]]*\])?\s*{")


@spec
def unmake(c: Str) -> Str:
    """every makecell / shortstack command with a complete argument is replaced by that argument"""
    return (c if c == "" or not found(MK, c, 0) or not has(c[mend(MK, c, 0) - 1:], "{", "}", 0)
            else unmake(c[:mstart(MK, c, 0)] + bcont(c[mend(MK, c, 0) - 1:], "{", "}", 0) + c[mend(MK, c, 0) - 1 + bend(c[mend(MK, c, 0) - 1:], "{", "}", 0):]))


@spec
def unmakes(l: List, k: Int, acc: List) -> List:
    return acc if k < 0 or k >= len(l) else unmakes(l, k + 1, append(acc, unmake(vstr(l[k]))))


@lemma(trigger="bcont(t, o, c, p)", uses=("close_range", "skip_range"))
def blk_len(t: Str, o: Chr, c: Chr, p: Int):
    assert 0 <= p and p <= len(t) and has(t, o, c, p)
    return len(bcont(t, o, c, p)) <= bend(t, o, c, p) - p - 2


@contract
class Cells:
    target = M + "split_cells"
    types = {"row": "str"}
    returns = "list[str]"
    gen = {"row": body_gen}
    calls = (M + "split_latex_content", TU + "extract_nested_content")
    hide = ("has", "bend", "bcont")
    uses = ("blk_len", "blk_range")

    def ensures(row, result):
        return result == unmakes(parts(row, "&", 0, False, []), 0, [])

    def inv_cells(row, k: Int, acc: List):
        return unmakes(parts(row, "&", 0, False, []), k, acc) == unmakes(parts(row, "&", 0, False, []), 0, [])

    def inv_cell(row, c: Str, k: Int):
        return unmake(c) == unmake(vstr(parts(row, "&", 0, False, [])[k]))

    def measure(c: Str):
        return len(c)
