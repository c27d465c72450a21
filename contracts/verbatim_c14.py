r"""C14: names that do not occur in the text, blocks taken out of it and put back, tokens of code blocks."""
from pyvc.spec import *
from pyvc.spec import spec, lemma, axiom
from pyvc.engine import contract, attrs
from contracts import verbatim, tex_utils_c01
from contracts.verbatim import mark
from latex2json.parser import tex_preprocessor as tp

PP = "latex2json.parser.tex_preprocessor:"
H = "contracts.verbatim:"
C = "latex2json.parser.handlers.code_block:"
WORDS = ["CODE_BLOCK", "CODE_BLOCKX", "X", "__", "0__", "__CODE_BLOCK__0__", "__CODE_BLOCKX__1__", "\\verb|a|", "\\verb|CODE_BLOCKXX|", "\\begin{verbatim}", "\\end{verbatim}", "%", "\n", " ", "\\begin{lstlisting}[x]",
         "\\end{lstlisting}", "a", "b", "\\", "\\%", "MATH_BLOCK", "|"]


def text(rng, part):
    return "".join(rng.choice(WORDS) for _ in range(rng.randrange(0, 8)))


@axiom(trigger="find(s, a + b, k)")
def parts_inside(s: Str, a: Str, b: Str, k: Int):
    """a text that contains a + b contains a and contains b"""
    return implies(find(s, a + b, 0) >= 0, find(s, a, 0) >= 0 and find(s, b, 0) >= 0)


@contract
class Prefix:
    """a name for placeholders that the text does not contain, whatever it contains"""
    target = PP + "get_placeholder_prefix"
    types = {"content": "str", "name": "str"}
    returns = "str"
    uses = ("parts_inside",)
    gen = {"content": text, "name": lambda rng, part: rng.choice(["CODE_BLOCK", "MATH_BLOCK", "X"])}

    def requires(content, name):
        return len(name) >= 1

    def ensures_fresh(content, name, result):
        return not (result in content), len(result) >= 1

    def measure(content, name: Str):
        return len(content) - len(name)


@contract
class Finder:
    """the finder of code blocks goes on from the end of each block: it ends for every text"""
    target = PP + "find_code_blocks"
    calls = ("latex2json.utils.tex_utils:is_escaped",)
    types = {"content": "str"}
    returns = "any"
    gen = {"content": text}


@contract
class Extract:
    """taking out the blocks of all kinds ends for every text"""
    target = PP + "LatexPreprocessor._extract_verbatim_blocks"
    calls = (PP + "get_placeholder_prefix",)
    types = {"self": 'obj["%s"]' % (PP + "LatexPreprocessor"), "content": "str"}
    returns = "any"
    unsampled = True


class Cut:
    types = {"content": "str"}
    returns = "bool"
    unsampled = True
    unroll = 20
    depth = 12
    calls = (PP + "get_placeholder_prefix",)

    def requires(content):
        return (0 <= mark(content, 0), mark(content, 0) <= mark(content, 1), mark(content, 1) <= mark(content, 2), mark(content, 2) <= mark(content, 3),
                mark(content, 3) <= mark(content, 4), mark(content, 4) <= mark(content, 5), mark(content, 5) <= len(content))

    def ensures_kept(result):
        return result


for n in range(4):
    contract(type("Cut%d" % n, (Cut,), dict(target=H + "cut_%d" % n, extern={getattr(tp, "find_code_blocks", None): getattr(verbatim, "found_%d" % n)}, _generated=True, __module__=__name__,
                                            __doc__="%d blocks taken out of a text: names of their own in their places, in order, leading to the blocks" % n)))


def sample(*types):
    def f(rng):
        return {n: text(rng, 0) if n == "content" else rng.choice(WORDS) for n in types}
    return staticmethod(f)


class Kept:
    returns = "bool"
    unroll = 20

    def ensures_kept(result):
        return result


@contract
class PutBack(Kept):
    """all blocks are put back in the order of the names"""
    target = H + "put_back"
    types = dict.fromkeys(["content", "p", "q", "r", "a", "b", "c"], "str")
    sample = sample("content", "p", "q", "r", "a", "b", "c")

    def requires(content, p, q, r, a, b, c):
        return p != q, q != r, p != r


@contract
class PutBackNone(Kept):
    """nothing to put back: the text as it is"""
    target = H + "put_back_none"
    types = {"content": "str"}
    sample = sample("content")


def code_sample(rng):
    return {"h": verbatim.CodeBlockHandler(), "content": rng.choice(["", "\\begin{verbatim}", "\\begin {lstlisting}", "\\begin{lstlisting}[a b]", "\\verb|", "\\verb*+", "a"]) + text(rng, 0)
            + rng.choice(["", "\\end{verbatim}", "\\end{lstlisting}", "|", "+"]) + rng.choice(["", " x"])}


@contract
class Code(Kept):
    """the token of a code block holds its text up to surrounding white space, its title and whether it is inline; anything else is declined"""
    target = H + "code_token"
    types = {"h": 'obj["%s"]' % (C + "CodeBlockHandler"), "content": "str"}
    sample = staticmethod(code_sample)
