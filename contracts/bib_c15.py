r"""C15: values and closing quotes of BibTeX fields, entries made of fields, and bibliography files combined."""
import os
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract, attrs
from contracts import bib
from contracts.tex_utils_c01 import esc, has, bend, bcont

B = "latex2json.parser.bib.bibtex_parser:"
H = "contracts.bib:"
LP = "latex2json.parser.tex_parser:LatexParser"
attrs(LP, bib_parser="any", current_file_dir="str | none")


def value_gen(rng, part):
    """field values: quotes, braces, escapes, joined parts"""
    def piece(d):
        r = rng.random()
        if r < .35 and d > 0:
            return "{" + "".join(piece(d - 1) for _ in range(rng.randrange(0, 3))) + "}"
        if r < .5:
            return '"' + "".join(piece(0) for _ in range(rng.randrange(0, 3))) + '"'
        return rng.choice(["a", "b c", " ", "\\", '\\"', "\\{", "\\}", "}", "{", '"', "1", ",", "="])
    return " # ".join(rng.choice(["", " "]) + rng.choice(["{%s}", '"%s"', "%s"]) % "".join(piece(2) for _ in range(rng.randrange(0, 4)))
                      for _ in range(rng.randrange(1, 3))) + rng.choice(["", ",", " ,x = {y}", "#", " # "])


@spec
def quo(t: Str, i: Int, d: Int) -> Int:
    """position of the first quote from i on that is outside braces, d braces being open at i; -1 if none"""
    return ((-1) if i < 0 or i >= len(t) else quo(t, i + 1, d + 1) if t[i] == "{" and not esc(t, i) else quo(t, i + 1, d - 1) if t[i] == "}" and not esc(t, i)
            else i if t[i] == '"' and d <= 0 else quo(t, i + 1, d))


@contract
class ClosingQuote:
    """the quote that ends a quoted value is the first one outside braces"""
    target = B + "find_closing_quote"
    types = {"text": "str"}
    returns = "int"
    gen = {"text": lambda rng, part: '"' + value_gen(rng, part)}
    calls = ("latex2json.utils.tex_utils:is_escaped",)

    def ensures(text, result):
        return result == quo(text, 1, 0), implies(result != -1, 1 <= result and result < len(text) and text[result] == '"')

    def inv(text, i: Int, d: Int):
        return quo(text, i, d) == quo(text, 1, 0)


class Value:
    target = B + "parse_bibtex_value"
    types = {"text": "str"}
    returns = "tuple[str | none, int]"
    gen = {"text": value_gen}
    unwind = 2
    calls = ("latex2json.utils.tex_utils:extract_nested_content", B + "find_closing_quote")


@contract
class Braced(Value):
    """a braced value is everything up to the brace that closes it"""
    target = B + "parse_bibtex_value#braced"

    def requires(text):
        return len(text) > 0 and text[0] == "{" and has(text, "{", "}", 0) and not mfound(rx(r"\s*#"), text[bend(text, "{", "}", 0):], 0)

    def ensures_value(text, result):
        return result[0] == strip(bcont(text, "{", "}", 0)), result[1] == bend(text, "{", "}", 0)


@contract
class Quoted(Value):
    """a quoted value is everything up to the first quote outside braces"""
    target = B + "parse_bibtex_value#quoted"

    def requires(text):
        return len(text) > 0 and text[0] == '"' and quo(text, 1, 0) >= 1 and not mfound(rx(r"\s*#"), text[quo(text, 1, 0) + 1:], 0)

    def ensures_value(text, result):
        return result[0] == strip(text[1:quo(text, 1, 0)]), result[1] == quo(text, 1, 0) + 1


@spec
def second(t: Str) -> Int:
    """where the part after the # that follows the braced part starts"""
    return bend(t, "{", "}", 0) + mmend(rx(r"\s*#"), t[bend(t, "{", "}", 0):], 0)


@contract
class Joined(Value):
    """parts joined by # are put together"""
    target = B + "parse_bibtex_value#joined"
    unwind = 3

    def requires(text):
        return (len(text) > 0 and text[0] == "{" and has(text, "{", "}", 0) and mfound(rx(r"\s*#"), text[bend(text, "{", "}", 0):], 0)
                and second(text) < len(text) and text[second(text)] == '"' and quo(text[second(text):], 1, 0) >= 1
                and not mfound(rx(r"\s*#"), text[second(text) + quo(text[second(text):], 1, 0) + 1:], 0))

    def ensures_value(text, result):
        return (result[0] == strip(bcont(text, "{", "}", 0) + text[second(text):][1:quo(text[second(text):], 1, 0)]),
                result[1] == second(text) + quo(text[second(text):], 1, 0) + 1)


@contract
class AnyValue(Value):
    """whatever the text, there is a value or none, and the position is within it"""
    target = B + "parse_bibtex_value#any"
    unwind = 0

    def ensures_range(text, result):
        return 0 <= result[1] and result[1] <= len(text)


_parser = []


def parser():
    from latex2json.parser.tex_parser import LatexParser
    if not _parser:
        _parser.append(LatexParser())
    return _parser[0]


def case(fn, **types):
    def sample(rng):
        v = {k: rng.choice(["", "k", "a b", "{x}", "k2"]) for k in types}
        return dict(v, p=parser()) if fn != "made" else v
    types = {k: "str" for k in types} if fn == "made" else dict(p='obj["%s"]' % LP, **{k: "str" for k in types})
    return dict(target=H + fn, types=types, returns="bool", sample=staticmethod(sample), _generated=True, unroll=40, depth=20, maxpaths=3000, n=40,
                extern={os.path.join: bib.joined})


class Combined:
    def ensures_kept(result):
        return result


for fn, names in (("one_file", "abcds"), ("two_files", "abcds"), ("in_folder", ("folder", "a", "b", "s")), ("no_entries", ()), ("made", ("kind", "key", "v", "w"))):
    contract(type(fn.title(), (Combined,), dict(case(fn, **{n: 1 for n in names}), __module__=__name__, __doc__="every entry is kept in order, once per key")))
