r"""C01: contracts of the delimiter extraction functions of latex2json/utils/tex_utils.py."""
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract

M = "latex2json.utils.tex_utils:"


def text_gen(rng, part):
    """texts rich in blocks: nested groups, escapes and whitespace"""
    def grp(d):
        o, c = rng.choice(["{}", "{}", "[]", "()"])
        return o + "".join(item(d - 1) for _ in range(rng.randrange(0, 3))) + c

    def item(d):
        r = rng.random()
        if d > 0 and r < .45:
            return grp(d)
        return rng.choice(["a", "b", " ", "\n", "\\", "\\{", "\\}", "{", "}", "[", "]", "\\\\", "\\]"]) if r < .8 else rng.choice(["a", " "])
    if rng.random() < .5:
        return "".join(rng.choice(["", " ", "\n "]) + grp(2) for _ in range(rng.randrange(1, 4))) + rng.choice(["", "x", " ", "{", "\\{"])
    return "".join(item(2) for _ in range(rng.randrange(0, 6)))


DELIMS = {"text": text_gen, "open_delim": ["{", "[", "{"], "close_delim": lambda rng, p: {"{": "}", "[": "]"}[p["open_delim"]] if rng.random() < .9 else p["open_delim"]}


@spec(decreases="i")
def bsl(t: Str, i: Int) -> Int:
    """number of consecutive backslashes just before i"""
    return (1 + bsl(t, i - 1)) if i >= 1 and i <= len(t) and t[i - 1] == "\\" else 0


@spec
def esc(t: Str, i: Int) -> Bool:
    return bsl(t, i) % 2 == 1


@spec
def skipws(t: Str, i: Int) -> Int:
    """first position >= i that is not whitespace (or the end)"""
    return skipws(t, i + 1) if 0 <= i and i < len(t) and isspace(t[i]) else i


@spec
def close(t: Str, o: Str, c: Str, i: Int, d: Int) -> Int:
    """position just past the delimiter that brings the nesting depth d down to zero, scanning from i; -1 if none"""
    return (-1) if i < 0 or i >= len(t) else (
        close(t, o, c, i + 1, d + 1) if t[i] == o and not esc(t, i) else (
            ((-1) if d <= 0 else (i + 1 if d == 1 else close(t, o, c, i + 1, d - 1))) if t[i] == c and not esc(t, i)
            else close(t, o, c, i + 1, d)))


@spec
def wt(t: Str, o: Str, c: Str, i: Int) -> Int:
    return 0 if esc(t, i) else (1 if t[i] == o else ((-1) if t[i] == c else 0))


@spec(decreases="b - a")
def dep(t: Str, o: Str, c: Str, a: Int, b: Int) -> Int:
    """unescaped opening minus closing delimiters in t[a:b]"""
    return 0 if b <= a else wt(t, o, c, a) + dep(t, o, c, a + 1, b)


@spec
def never(t: Str, o: Str, c: Str, i: Int, d: Int) -> Bool:
    """scanning from i at depth d the depth never becomes negative and is zero at the end"""
    return d == 0 if i >= len(t) or i < 0 else (
        never(t, o, c, i + 1, d + 1) if t[i] == o and not esc(t, i) else (
            (False if d <= 0 else never(t, o, c, i + 1, d - 1)) if t[i] == c and not esc(t, i)
            else never(t, o, c, i + 1, d)))


@contract
class CountBackslashes:
    target = M + "count_preceding_backslashes"
    gen = {"text": text_gen}
    types = {"text": "str", "pos": "int"}
    returns = "int"

    def requires(text, pos):
        return 0 <= pos and pos <= len(text)

    def ensures(text, pos, result):
        return result == bsl(text, pos), result >= 0

    def inv(text, pos, k: Int, n: Int):
        return n + bsl(text, k + 1) == bsl(text, pos), n + bsl(text, k) == bsl(text, pos), n + bsl(text, pos - n) == bsl(text, pos)


@contract
class IsEscaped:
    target = M + "is_escaped"
    gen = {"text": text_gen}
    types = {"text": "str", "pos": "int"}
    returns = "bool"

    def requires(text, pos):
        return 0 <= pos and pos <= len(text)

    def ensures(text, pos, result):
        return result == esc(text, pos)


@contract
class FindMatchingDelimiter:
    target = M + "find_matching_delimiter"
    gen = DELIMS
    types = {"text": "str", "open_delim": "chr", "close_delim": "chr", "start": "int"}
    returns = "tuple[int, int]"
    calls = (M + "is_escaped",)

    def requires(text, open_delim, close_delim, start):
        return 0 <= start

    def ensures(text, open_delim, close_delim, start, result):
        return (
            implies(skipws(text, start) >= len(text), result == (-1, -1)),
            implies(skipws(text, start) < len(text) and text[skipws(text, start)] != open_delim, result == (-1, -1)),
            implies(skipws(text, start) < len(text) and text[skipws(text, start)] == open_delim
                    and close(text, open_delim, close_delim, skipws(text, start), 0) < 0, result == (-1, -1)),
            implies(skipws(text, start) < len(text) and text[skipws(text, start)] == open_delim
                    and close(text, open_delim, close_delim, skipws(text, start), 0) >= 0,
                    result == (skipws(text, start), close(text, open_delim, close_delim, skipws(text, start), 0))),
            implies(result[0] != -1, start <= result[0] and result[0] + 1 < result[1] and result[1] <= len(text)),
        )

    def inv_ws(text, start, k: Int):
        return skipws(text, k) == skipws(text, start)

    def inv_scan(text, open_delim, close_delim, start, i: Int, st: List):
        return close(text, open_delim, close_delim, i, len(st)) == close(text, open_delim, close_delim, skipws(text, start), 0)

    def inv_scan_int(text, open_delim, close_delim, start, i: Int, d: Int):
        return close(text, open_delim, close_delim, i, d) == close(text, open_delim, close_delim, skipws(text, start), 0)


@lemma(trigger="bsl(t[p:], i)", measure="i")
def bsl_suffix(t: Str, p: Int, i: Int):
    assert 0 <= p and p <= len(t) and 0 <= i and i <= len(t) - p and (p == 0 or t[p - 1] != "\\")
    return bsl(t[p:], i) == bsl(t, p + i)


@lemma(trigger="skipws(t[p:], i)", measure="len(t) - p - i")
def skip_suffix(t: Str, p: Int, i: Int):
    assert 0 <= p and p <= len(t) and 0 <= i and i <= len(t) - p
    return skipws(t[p:], i) + p == skipws(t, p + i)


@lemma(trigger="skipws(t, i)", measure="len(t) - i")
def skip_range(t: Str, i: Int):
    assert 0 <= i and i <= len(t)
    return i <= skipws(t, i) and skipws(t, i) <= len(t)


@lemma(trigger="close(t[p:], o, c, i, d)", measure="len(t) - p - i", uses=("bsl_suffix",))
def close_suffix(t: Str, o: Chr, c: Chr, p: Int, i: Int, d: Int):
    assert 0 <= p and p <= len(t) and 0 <= i and i <= len(t) - p and (p == 0 or t[p - 1] != "\\")
    return (close(t, o, c, p + i, d) < 0) if close(t[p:], o, c, i, d) < 0 else close(t[p:], o, c, i, d) + p == close(t, o, c, p + i, d)


@lemma(trigger="close(t, o, c, i, d)", measure="len(t) - i")
def close_range(t: Str, o: Chr, c: Chr, i: Int, d: Int):
    assert 0 <= i and i <= len(t) and close(t, o, c, i, d) >= 0
    return i + 1 <= close(t, o, c, i, d) and close(t, o, c, i, d) <= len(t) and t[close(t, o, c, i, d) - 1] == c


@spec(opaque=True)
def has(t: Str, o: Chr, c: Chr, i: Int) -> Bool:
    """a block starts (after whitespace) at i"""
    return skipws(t, i) < len(t) and t[skipws(t, i)] == o and close(t, o, c, skipws(t, i), 0) >= 0


@spec(opaque=True)
def bend(t: Str, o: Chr, c: Chr, i: Int) -> Int:
    return close(t, o, c, skipws(t, i), 0)


@spec(opaque=True)
def bcont(t: Str, o: Chr, c: Chr, i: Int) -> Str:
    return t[skipws(t, i) + 1:close(t, o, c, skipws(t, i), 0) - 1]


@lemma(trigger="has(t[p:], o, c, 0)", uses=("bsl_suffix", "skip_suffix", "close_suffix", "close_range", "skip_range"))
def blk_suffix(t: Str, o: Chr, c: Chr, p: Int):
    assert 0 <= p and p <= len(t) and (p == 0 or t[p - 1] != "\\")
    return (has(t[p:], o, c, 0) == has(t, o, c, p)
            and implies(has(t, o, c, p), bend(t[p:], o, c, 0) + p == bend(t, o, c, p)
                        and bcont(t[p:], o, c, 0) == bcont(t, o, c, p)))


@lemma(trigger="has(t, o, c, p)", uses=("close_range", "skip_range"))
def blk_range(t: Str, o: Chr, c: Chr, p: Int):
    assert 0 <= p and p <= len(t) and has(t, o, c, p)
    return p + 2 <= bend(t, o, c, p) and bend(t, o, c, p) <= len(t) and t[bend(t, o, c, p) - 1] == c


@lemma(trigger="has(t, o, c, p), has(t, o, c, q)")
def blk_skip(t: Str, o: Chr, c: Chr, p: Int, q: Int):
    assert 0 <= p and p < len(t) and q == p + 1 and isspace(t[p])
    return has(t, o, c, p) == has(t, o, c, q) and bend(t, o, c, p) == bend(t, o, c, q) and bcont(t, o, c, p) == bcont(t, o, c, q)


@spec
def seq(t: Str, o: Chr, c: Chr, i: Int, unb: Bool, m: Int, acc: List) -> List:
    """contents of the consecutive blocks from i on, at most m of them unless unb"""
    return acc if (not unb and m <= 0) or not has(t, o, c, i) else seq(t, o, c, bend(t, o, c, i), unb, m - 1, acc + [bcont(t, o, c, i)])


@spec
def seqend(t: Str, o: Chr, c: Chr, i: Int, unb: Bool, m: Int, last: Int) -> Int:
    return last if (not unb and m <= 0) or not has(t, o, c, i) else seqend(t, o, c, bend(t, o, c, i), unb, m - 1, bend(t, o, c, i))


@contract
class ExtractNestedContent:
    target = M + "extract_nested_content"
    gen = DELIMS
    types = {"text": "str", "open_delim": "chr", "close_delim": "chr"}
    returns = "tuple[str, int] | tuple[none, int]"
    calls = (M + "find_matching_delimiter",)

    def ensures(text, open_delim, close_delim, result):
        return (
            implies(not has(text, open_delim, close_delim, 0), result == (None, 0)),
            implies(has(text, open_delim, close_delim, 0),
                    result == (bcont(text, open_delim, close_delim, 0), bend(text, open_delim, close_delim, 0))
                    and 2 <= result[1] and result[1] <= len(text)),
        )


@contract
class SequenceBlocks:
    target = M + "extract_nested_content_sequence_blocks"
    gen = DELIMS
    types = {"text": "str", "open_delim": "chr", "close_delim": "chr", "max_blocks": "int | inf"}
    returns = "tuple[list[str], int]"
    uses = ("blk_suffix", "blk_range", "blk_skip")
    hide = ("has", "bend", "bcont")

    def requires(text, open_delim, close_delim, max_blocks):
        return close_delim != "\\"

    def ensures(text, open_delim, close_delim, max_blocks, result):
        return (
            result[0] == seq(text, open_delim, close_delim, 0, isinf(max_blocks), fin(max_blocks), []),
            result[1] == seqend(text, open_delim, close_delim, 0, isinf(max_blocks), fin(max_blocks), 0),
            0 <= result[1] and result[1] <= len(text),
        )

    def inv_seq(text, open_delim, close_delim, max_blocks, p: Int, k: Int, bl: List):
        return (seq(text, open_delim, close_delim, p, isinf(max_blocks), fin(max_blocks) - k, bl)
                == seq(text, open_delim, close_delim, 0, isinf(max_blocks), fin(max_blocks), []))

    def inv_end(text, open_delim, close_delim, max_blocks, p: Int, k: Int, last: Int):
        return (seqend(text, open_delim, close_delim, p, isinf(max_blocks), fin(max_blocks) - k, last)
                == seqend(text, open_delim, close_delim, 0, isinf(max_blocks), fin(max_blocks), 0))

    def inv_noesc(text, p: Int):
        return p == 0 or text[p - 1] != "\\"


@contract
class CheckBalance:
    target = M + "check_delimiter_balance"
    gen = DELIMS
    types = {"text": "str", "open_delim": "chr", "close_delim": "chr"}
    returns = "bool"

    def ensures(text, open_delim, close_delim, result):
        return result == never(text, open_delim, close_delim, 0, 0)

    def inv_scan(text, open_delim, close_delim, i: Int, st: List):
        return never(text, open_delim, close_delim, i, len(st)) == never(text, open_delim, close_delim, 0, 0)

    def inv_scan_int(text, open_delim, close_delim, i: Int, d: Int):
        return never(text, open_delim, close_delim, i, d) == never(text, open_delim, close_delim, 0, 0)


@contract
class ExtractArgs:
    target = M + "extract_args"
    gen = {"content": text_gen, "req_args": [0, 1, 2], "opt_args": [0, 1, 2]}
    types = {"content": "str", "req_args": "int", "opt_args": "int"}
    returns = 'tuple[dict["opt:list[str]", "req:list[str]"], int]'
    uses = ("blk_suffix", "blk_range", "blk_skip")
    hide = ("has", "bend", "bcont")
    calls = (M + "extract_nested_content_sequence_blocks",)

    def ensures(content, req_args, opt_args, result):
        return (
            result[0]["opt"] == seq(content, "[", "]", 0, False, opt_args, []),
            result[0]["req"] == seq(content[seqend(content, "[", "]", 0, False, opt_args, 0):], "{", "}", 0, False, req_args, []),
            result[1] == seqend(content, "[", "]", 0, False, opt_args, 0)
            + seqend(content[seqend(content, "[", "]", 0, False, opt_args, 0):], "{", "}", 0, False, req_args, 0),
            0 <= result[1] and result[1] <= len(content),
        )


# the recursive definition `close` is the declarative one: the shortest prefix whose unescaped delimiters balance
@lemma(trigger="close(t, o, c, i, d), dep(t, o, c, i, j)", measure="len(t) - i", uses=("close_range",))
def close_balanced_first(t: Str, o: Chr, c: Chr, i: Int, d: Int, j: Int):
    """close(..) = e: the depth is positive strictly before e and zero at e"""
    assert 0 <= i and i <= len(t) and o != c and d >= 0 and close(t, o, c, i, d) >= 0 and (d >= 1 or (i < len(t) and t[i] == o and not esc(t, i)))
    assert i < j and j <= close(t, o, c, i, d)
    return implies(j < close(t, o, c, i, d), dep(t, o, c, i, j) + d >= 1) and implies(j == close(t, o, c, i, d), dep(t, o, c, i, j) + d == 0)


@lemma(trigger="close(t, o, c, i, d), dep(t, o, c, i, j)", measure="len(t) - i")
def close_none(t: Str, o: Chr, c: Chr, i: Int, d: Int, j: Int):
    """no close: no prefix balances"""
    assert 0 <= i and i <= len(t) and o != c and close(t, o, c, i, d) < 0 and (d >= 1 or (d == 0 and i < len(t) and t[i] == o and not esc(t, i)))
    assert i < j and j <= len(t)
    return dep(t, o, c, i, j) + d >= 1
