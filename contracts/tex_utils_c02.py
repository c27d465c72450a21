r"""C02: environment blocks and math spans (latex2json/utils/tex_utils.py)."""
import re
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract
from .tex_utils_c01 import bsl, esc, M

NAMES = ["a", "a*", "equation", "b"]


def env_gen(rng, part):
    def block(d):
        n = rng.choice(["a", "a", "a", "a*", "b"])
        sp = rng.choice(["", "", " ", "\n"])
        return "\\begin" + sp + "{" + n + "}" + body(d - 1) + "\\end" + rng.choice(["", "", " "]) + "{" + n + "}"

    def body(d):
        return "".join(block(d) if d > 0 and rng.random() < .5 else rng.choice(["x", " ", "\n", "\\", "\\begin{a}", "\\end{a}", "{", "}", "\\end {a*}", "\\begin{b}", "\\item"])
                       for _ in range(rng.randrange(0, 4)))
    return body(3)


PATS = [("\\\\begin\\{a\\}", "\\\\end\\{a\\}"), (re.compile("<"), re.compile(">")), ("\\(", "\\)"), (re.compile("a+"), "b|c"), ("ab", "b")]


def pat_text(rng, part):
    r = rng.random()
    al = "<>ab()c" if r < .6 else None
    return "".join(rng.choice(al) for _ in range(rng.randrange(0, 12))) if al else env_gen(rng, part)


def math_gen(rng, part):
    return rng.choice(["$", "$$", "$", "", "\\$"]) + "".join(rng.choice(["$", "$$", "{", "}", "\\", "\\$", "\\{", "\\}", "x", " ", "{$}", "\\text{a $b$}"]) for _ in range(rng.randrange(0, 9)))


@spec
def penv(t: Str, b: Pat, e: Pat, p: Int, l: Int) -> Int:
    """start of the end marker that closes nesting level l, scanning from p; -1 if none"""
    return (-1) if l <= 0 or p < 0 or p >= len(t) or not found(e, t, p) else (
        (mstart(e, t, p) if l == 1 else penv(t, b, e, mend(e, t, p), l - 1))
        if not found(b, t, p) or mstart(e, t, p) < mstart(b, t, p)
        else penv(t, b, e, mend(b, t, p), l + 1))


@spec
def pend(t: Str, b: Pat, e: Pat, p: Int, l: Int) -> Int:
    """end of that end marker; -1 if none"""
    return (-1) if l <= 0 or p < 0 or p >= len(t) or not found(e, t, p) else (
        (mend(e, t, p) if l == 1 else pend(t, b, e, mend(e, t, p), l - 1))
        if not found(b, t, p) or mstart(e, t, p) < mstart(b, t, p)
        else pend(t, b, e, mend(b, t, p), l + 1))


@lemma(trigger="penv(t, b, e, p, l)", measure="len(t) - p")
def penv_range(t: Str, b: Pat, e: Pat, p: Int, l: Int):
    assert nonempty(b) and nonempty(e) and 0 <= p and l >= 1
    return (penv(t, b, e, p, l) < 0) == (pend(t, b, e, p, l) < 0) and implies(
        penv(t, b, e, p, l) >= 0, p <= penv(t, b, e, p, l) and penv(t, b, e, p, l) < pend(t, b, e, p, l) and pend(t, b, e, p, l) <= len(t))


@contract
class NestedPattern:
    target = M + "extract_nested_content_pattern"
    gen = {"text": pat_text, "begin_pattern": lambda rng, p: rng.choice(PATS)[0],
           "end_pattern": lambda rng, p: next(y for x, y in PATS if x is p["begin_pattern"] or x == p["begin_pattern"])}
    types = {"text": "str", "begin_pattern": "str | pat", "end_pattern": "str | pat"}
    returns = "tuple[int, int, str]"
    uses = ("penv_range",)

    def requires(text, begin_pattern, end_pattern):
        return nonempty(rx(begin_pattern)) and nonempty(rx(end_pattern))

    def ensures(text, begin_pattern, end_pattern, result):
        return (
            implies(not found(rx(begin_pattern), text, 0), result == (-1, -1, "")),
            implies(found(rx(begin_pattern), text, 0) and penv(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1) < 0, result == (-1, -1, "")),
            implies(found(rx(begin_pattern), text, 0) and penv(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1) >= 0,
                    result == (mstart(rx(begin_pattern), text, 0), pend(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1),
                               text[mend(rx(begin_pattern), text, 0):penv(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1)])),
            implies(result[0] != -1, 0 <= result[0] and result[0] < result[1] and result[1] <= len(text)),
            (result[0] == -1) == (result[1] == -1),
        )

    def inv_scan(text, begin_pattern, end_pattern, p: Int, l: Int):
        return (penv(text, rx(begin_pattern), rx(end_pattern), p, l) == penv(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1)
                and pend(text, rx(begin_pattern), rx(end_pattern), p, l) == pend(text, rx(begin_pattern), rx(end_pattern), mend(rx(begin_pattern), text, 0), 1))


@spec
def bpat(n: Str) -> Pat:
    return rx("\\\\begin\\s*\\{" + reescape(n) + "}")


@spec
def epat(n: Str) -> Pat:
    return rx("\\\\end\\s*\\{" + reescape(n) + "}")


@spec(opaque=True)
def envfirst(t: Str, n: Str) -> Int:
    """position just past the first begin marker, -1 if none"""
    return mend(bpat(n), t, 0) if found(bpat(n), t, 0) else -1


@spec(opaque=True)
def envclose(t: Str, n: Str) -> Int:
    """start of the end marker that closes the first begin marker at level zero, -1 if none"""
    return penv(t, bpat(n), epat(n), mend(bpat(n), t, 0), 1) if found(bpat(n), t, 0) else -1


@contract
class EnvBlock:
    target = M + "find_matching_env_block"
    gen = {"text": env_gen, "env_name": NAMES, "start_pos": [0, 0, 1, 3, 9]}
    types = {"text": "str", "env_name": "str", "start_pos": "int"}
    returns = "tuple[int, int, str]"
    calls = (M + "extract_nested_content_pattern",)

    def requires(text, env_name, start_pos):
        return 0 <= start_pos and start_pos <= len(text)

    def ensures(text, env_name, start_pos, result):
        return (
            implies(envclose(text[start_pos:], env_name) < 0, result == (-1, -1, "")),
            implies(envclose(text[start_pos:], env_name) >= 0,
                    result == (start_pos + mstart(bpat(env_name), text[start_pos:], 0),
                               start_pos + pend(text[start_pos:], bpat(env_name), epat(env_name), mend(bpat(env_name), text[start_pos:], 0), 1),
                               strip(text[start_pos:][envfirst(text[start_pos:], env_name):envclose(text[start_pos:], env_name)]))),
            implies(result[0] != -1, start_pos <= result[0] and result[0] < result[1] and result[1] <= len(text)),
            (result[0] == -1) == (result[1] == -1),
        )


@spec
def dend(t: Str, m: Str, i: Int, d: Int) -> Int:
    """end of the first unescaped delimiter m at or after i that is outside unescaped braces (d of them open); -1 if none"""
    return (-1) if i < 0 or i >= len(t) else (
        dend(t, m, i + 1, d + 1) if t[i] == "{" and not esc(t, i) else (
            dend(t, m, i + 1, d - 1 if d > 0 else 0) if t[i] == "}" and not esc(t, i) else (
                i + len(m) if i + len(m) <= len(t) and t[i:i + len(m)] == m and not esc(t, i) and d <= 0
                else dend(t, m, i + 1, d))))


@lemma(trigger="dend(t, m, i, d)", measure="len(t) - i")
def dend_range(t: Str, m: Str, i: Int, d: Int):
    assert 0 <= i and dend(t, m, i, d) >= 0
    return i + len(m) <= dend(t, m, i, d) and dend(t, m, i, d) <= len(t)


@contract
class DelimiterEnd:
    target = M + "find_delimiter_end"
    gen = {"content": math_gen, "delimiter": ["$", "$$"], "start_pos": [0, 1, 2]}
    types = {"content": "str", "start_pos": "int", "delimiter": "str"}
    returns = "int"
    calls = (M + "is_escaped",)
    uses = ("dend_range",)

    def requires(content, start_pos, delimiter):
        return 0 <= start_pos

    def ensures(content, start_pos, delimiter, result):
        return (result == dend(content, delimiter, start_pos, 0),
                implies(result != -1, start_pos + len(delimiter) <= result and result <= len(content)))

    def inv_scan(content, start_pos, delimiter, i: Int, st: List):
        return dend(content, delimiter, i, len(st)) == dend(content, delimiter, start_pos, 0)

    def inv_scan_int(content, start_pos, delimiter, i: Int, d: Int):
        return dend(content, delimiter, i, d) == dend(content, delimiter, start_pos, 0)


@contract
class EquationContent:
    target = M + "extract_equation_content"
    gen = {"content": math_gen, "delimiter": ["$", "$$"]}
    types = {"content": "str", "delimiter": "str"}
    returns = "tuple[str, int]"
    calls = (M + "find_delimiter_end",)
    hide = ("dend",)

    def ensures(content, delimiter, result):
        return (
            implies(not startswith(content, delimiter) or dend(content, delimiter, len(delimiter), 0) < 0, result == ("", 0)),
            implies(startswith(content, delimiter) and dend(content, delimiter, len(delimiter), 0) >= 0,
                    result == (strip(content[len(delimiter):dend(content, delimiter, len(delimiter), 0) - len(delimiter)]),
                               dend(content, delimiter, len(delimiter), 0))
                    and 2 * len(delimiter) <= result[1] and result[1] <= len(content)),
        )
