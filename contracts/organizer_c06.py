r"""C06: where the organizer puts a token, for every combination of levels. The harness functions (contracts/organizer.py) call the real
TokenBuilder._recursive_organize; the trees are written as numbers, one digit per token in document order."""
from pyvc.spec import *
from pyvc.engine import contract

TB = "latex2json.structure.builder:TokenBuilder"
H = "contracts.organizer:"


def builder():
    from latex2json.structure.builder import TokenBuilder
    return TokenBuilder()


def case(n, **types):
    types = dict(b='obj["%s"]' % TB, **types)

    def sample(rng):
        out = {}
        for k, t in types.items():
            out[k] = (builder() if k == "b" else rng.random() < .5 if t == "bool" else rng.choice([0, 1, 1, 2, 2, 3, 4]) if t == "int" else
                      rng.choice(["text", "environment", "figure", "equation", "table", "algorithm", "math_env"] if k == "kind" else ["", "", "a", " a", "b ", ".", "("]))
        return out
    return type("Case", (), dict(types=types, returns=n if isinstance(n, str) else "tuple[%s]" % ", ".join(["int"] * n), sample=staticmethod(sample), _generated=True, maxpaths=3000, unwind=6, recursion=4,
                                 inlines=(TB + "._recursive_organize", TB + "._process_tokens")))


@spec
def other(kind: Str) -> Bool:
    return (kind != "section" and kind != "paragraph" and kind != "appendix" and kind != "bibliography" and kind != "list")


NumCase = case(3, l1="int", l2="int", appendix="bool", num="bool")
Three = case("tuple[int, int, int, int, str]", l1="int", l2="int", l3="int", kind="str", appendix="bool")
TwoTexts = case(3, l1="int", l2="int", appendix="bool")
Pars = case(4, l1="int", p1="int", p2="int", kind="str", appendix="bool")
AlonePars = case(3, p1="int", p2="int", kind="str", appendix="bool")
EndedCase = case(5, p1="int", l1="int", p2="int", l2="int", kind="str", appendix="bool")
DeepCase = case(4, l1="int", l2="int", p1="int", kind="str", appendix="bool")
Bib = case(4, l1="int", p1="int", kind="str", appendix="bool")
App = case(5, l1="int", p1="int", l2="int", kind="str", after="bool")
HeldCase = case(4, l1="int", l2="int", kind="str", appendix="bool")
WordsCase = case(2, l1="int", appendix="bool")
ListsCase = case(7, l1="int", kind="str", appendix="bool", depth="int")


JoinedCase = case("tuple[int, str, str, bool, bool, str, str, str, str, int, bool]", x="str", y="str", same="bool", bold="bool", l1="str", l2="str", merge="bool")
PartedCase = case("tuple[int, str, str, str, int, str, str, int, int, str, bool]", x="str", y="str", z="str", kind="str", merge="bool")
TitledCase = case("tuple[int, int, str, int, str, int, int, bool, int, str]", x="str", y="str", z="str", level="int")
CellsCase = case("tuple[int, int, int, int, str, int, str, str, int]", x="str", y="str")
TwiceCase = case("tuple[int, int, int, int, opt[str], opt[str], bool, bool]", x="str", l1="int", l2="int", kind="str")


@contract
class Joined(JoinedCase):
    """adjacent texts of one style become one with the labels of both, texts of different styles stay; the caller's tokens stay"""
    target = H + "joined"

    def ensures_same(x, y, same, bold, l1, l2, merge, result):
        return (implies(same, result[0] == 1 and result[3] == bold),
                implies(same, result[1] == x + y or result[1] == x + " " + y),
                implies(same and l1 == "", result[5] == l2), implies(same and l2 == "", result[5] == l1),
                implies(same and l1 != "" and l2 != "", result[5] == l1 + "+" + l2))

    def ensures_different(x, y, same, bold, l1, l2, merge, result):
        return implies(not same, result[0] == 2 and result[1] == x and result[2] == y and result[3] == bold and result[4] == (not bold)
                       and result[5] == l1 and result[6] == l2)

    def ensures_caller(x, y, same, bold, l1, l2, merge, result):
        return result[7] == x and result[8] == y and result[9] == 2 and not result[10]


@contract
class Parted(PartedCase):
    """texts are joined within a token, never across one"""
    target = H + "parted"

    def requires(kind):
        return other(kind) and kind != "text" and kind != "tabular"

    def ensures_parts(x, y, z, kind, merge, result):
        return (result[0] == 3 and result[1] == x and result[2] == kind and result[3] == "n" and result[4] == 1 and result[6] == z,
                result[5] == y + z or result[5] == y + " " + z)

    def ensures_caller(x, y, z, kind, merge, result):
        return result[7] == 3 and result[8] == 2 and result[9] == y and not result[10]


@contract
class Titled(TitledCase):
    """title and content of a section"""
    target = H + "titled"

    def ensures_title(x, y, z, level, result):
        return (result[0] == 1 and result[1] == 1 and result[3] == 1 and result[4] == z and result[5] == level,
                result[2] == x + y or result[2] == x + " " + y)

    def ensures_caller(x, y, z, level, result):
        return result[6] == 2 and not result[7] and result[8] == 2 and result[9] == x


@contract
class Cells(CellsCase):
    """cells stay apart"""
    target = H + "cells"

    def ensures_cells(x, y, result):
        return (result[0] == 1 and result[1] == 2 and result[2] == 2 and result[3] == 1 and result[4] == x and result[5] == 1 and result[7] == y,
                result[6] == x + y or result[6] == x + " " + y, result[8] == 2)


@contract
class Twice(TwiceCase):
    """a second build of the same tokens gives the same"""
    target = H + "twice"

    def requires(l1, l2, kind):
        return other(kind) and kind != "text" and kind != "tabular" and l2 <= l1

    def ensures_same(x, l1, l2, kind, result):
        return (result[0] == 3 and result[1] == 3 and result[2] == 1 and result[3] == 1 and not result[6] and not result[7],
                result[4] == result[5])


@contract
class ThreeSections(Three):
    """a section is put into the nearest preceding section of lower level, text into the last section"""
    target = H + "three"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, l2, l3, kind, appendix, result):
        return (implies(l1 < l2 and l2 < l3, result == (1, 2, 3, 4, "x")),
                implies(l1 < l2 and l3 <= l2 and l1 < l3, result == (1, 23, 0, 4, "x")),
                implies(l1 < l2 and l3 <= l1, result == (13, 2, 0, 4, "x")),
                implies(l2 <= l1 and l2 < l3, result == (12, 0, 3, 4, "x")),
                implies(l2 <= l1 and l3 <= l2, result == (123, 0, 0, 4, "x")))


@contract
class Texts(TwoTexts):
    """text before the first section is at the top, text after a section in it"""
    target = H + "two_texts"

    def ensures_tree(l1, l2, appendix, result):
        return (implies(l1 < l2, result == (12, 34, 5)), implies(l2 <= l1, result == (124, 3, 5)))


@contract
class Paragraphs(Pars):
    """paragraphs nest by level below the section they are in, whatever its level"""
    target = H + "paragraphs"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, p1, p2, kind, appendix, result):
        return (implies(p1 < p2, result == (1, 2, 3, 4)), implies(p2 <= p1, result == (1, 23, 0, 4)))


@contract
class Alone(AlonePars):
    """paragraphs outside of sections"""
    target = H + "alone"

    def requires(kind):
        return other(kind)

    def ensures_tree(p1, p2, kind, appendix, result):
        return (implies(p1 < p2, result == (1, 2, 3)), implies(p2 <= p1, result == (12, 0, 3)))


@contract
class Ended(EndedCase):
    """a section ends the paragraph before it and is never put into one"""
    target = H + "ended"

    def requires(kind):
        return other(kind)

    def ensures_tree(p1, l1, p2, l2, kind, appendix, result):
        return (implies(l1 < l2, result == (12, 0, 34, 0, 5)), implies(l2 <= l1, result == (124, 0, 3, 0, 5)))


@contract
class Deep(DeepCase):
    """a paragraph is put into the innermost open section"""
    target = H + "deep"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, l2, p1, kind, appendix, result):
        return (implies(l1 < l2, result == (1, 2, 3, 4)), implies(l2 <= l1, result == (12, 0, 3, 4)))


@contract
class Bibliography(Bib):
    """a bibliography is at the top and ends sections and paragraphs"""
    target = H + "bibliography"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, p1, kind, appendix, result):
        return result == (134, 2, 0, 0)


@contract
class Appendix(App):
    """an appendix is at the top, ends sections and paragraphs, and holds what follows up to a bibliography"""
    target = H + "appendix"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, p1, l2, kind, after, result):
        return result == (1378, 2, 0, 45, 6)


@contract
class Held(HeldCase):
    """what a token holds stays in it and ends nothing outside of it"""
    target = H + "held"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, l2, kind, appendix, result):
        return result == (1, 23, 1, 2)


@contract
class Words(WordsCase):
    """what is no dictionary keeps its place"""
    target = H + "words"

    def ensures_tree(l1, appendix, result):
        return result == (12, 3)


@contract
class Lists(ListsCase):
    """depth of lists"""
    target = H + "lists"

    def requires(kind):
        return other(kind)

    def ensures_tree(l1, kind, appendix, depth, result):
        return result == (depth + 1, depth + 2, depth + 1, 1, 23, 1, 1)


@contract
class Numbered(NumCase):
    """numbers do not change the tree"""
    target = H + "numbered"

    def requires(l1, l2):
        return l1 <= 4 and l2 <= 4

    def ensures_tree(l1, l2, appendix, num, result):
        return implies(l1 < l2, result == (1, 2, 3)), implies(l2 <= l1, result == (12, 0, 3))
