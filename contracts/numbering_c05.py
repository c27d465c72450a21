r"""C05: one step of the numbering, for every state of the counters. The harness functions (contracts/numbering.py) call the real
TokenBuilder._recursive_organize on one token; since that function takes the tokens of a list one after the other (and the content of
a token when it is the token's turn), the numbers of a document are what these steps give one after the other, starting from `cleared`."""
from pyvc.spec import *
from pyvc.engine import contract

TB = "latex2json.structure.builder:TokenBuilder"
H = "contracts.numbering:"
NAMES = ["part", "s1", "s2", "s3", "s4", "thm", "eq", "tab", "fig", "alg"]
COUNTERS = {k: "nat" for k in NAMES}
TEN = "tuple[%s]" % ", ".join(["int"] * 10)


def builder():
    from latex2json.structure.builder import TokenBuilder
    return TokenBuilder()


def case(returns, **types):
    types = dict(b='obj["%s"]' % TB, **types)

    def sample(rng):
        out = {}
        for k, t in types.items():
            out[k] = (builder() if k == "b" else rng.random() < .5 if t == "bool" else rng.choice([0, 0, 1, 2, 3, 9, 26]) if t == "nat" else
                      rng.choice(["text", "environment", "list", "figure", "equation", "table", "algorithm", "math_env"]))
        return out
    return type("Case", (), dict(types=types, returns=returns, sample=staticmethod(sample), _generated=True, maxpaths=400, inlines=(TB + "._recursive_organize", TB + "._process_tokens")))


Item = case("tuple[opt[str], %s]" % TEN, numbered="bool", appendix="bool", **COUNTERS)
Section = case("tuple[opt[str], %s]" % TEN, numbered="bool", appendix="bool", **COUNTERS)
Plain = case("tuple[opt[str], %s]" % TEN, kind="str", appendix="bool", **COUNTERS)
Appendix = case(TEN, **COUNTERS)
Cleared = case(TEN, **COUNTERS)


@contract
class Equation(Item):
    """a numbered equation gets the next number of its own counter; an unnumbered one gets none and counts nothing"""
    target = H + "equation"

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(numbered, result[0] == show(eq + 1) and result[1] == (part, s1, s2, s3, s4, thm, eq + 1, tab, fig, alg))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Table(Item):
    """a numbered table gets the next number of its own counter; an unnumbered one gets none and counts nothing"""
    target = H + "table"

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(numbered, result[0] == show(tab + 1) and result[1] == (part, s1, s2, s3, s4, thm, eq, tab + 1, fig, alg))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Figure(Item):
    """a numbered figure gets the next number of its own counter; an unnumbered one gets none and counts nothing"""
    target = H + "figure"

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(numbered, result[0] == show(fig + 1) and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig + 1, alg))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Algorithm(Item):
    """a numbered algorithm gets the next number of its own counter; an unnumbered one gets none and counts nothing"""
    target = H + "algorithm"

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(numbered, result[0] == show(alg + 1) and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg + 1))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Theorem(Item):
    """a numbered theorem: number of the section (its letter in the appendix), dot, own counter"""
    target = H + "theorem"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and (not appendix or s1 == 0), result[0] == show(s1) + "." + show(thm + 1)),
                implies(numbered and appendix and s1 > 0, result[0] == chr(64 + s1) + "." + show(thm + 1)),
                implies(numbered, result[1] == (part, s1, s2, s3, s4, thm + 1, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Unmarked(Plain):
    """an item that does not say that it is numbered is not"""
    target = H + "plain"

    def requires(kind):
        return (kind == "equation" or kind == "table" or kind == "figure" or kind == "algorithm" or kind == "math_env" or kind == "text"
                or kind == "environment" or kind == "list")

    def ensures_nothing(kind, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg)


@contract
class Section0(Section):
    """parts are counted on their own"""
    target = H + "section0"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and not appendix, result[0] == show(part + 1)),
                implies(numbered and appendix, result[0] == show(part + 1)),
                implies(numbered, result[1] == (part + 1, s1, s2, s3, s4, thm, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Section1(Section):
    """the path of the counters of the levels above and the own one; lower ones restart, theorems too"""
    target = H + "section1"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and not appendix, result[0] == show(s1 + 1)),
                implies(numbered and appendix, result[0] == chr(65 + s1)),
                implies(numbered, result[1] == (part, s1 + 1, 0, 0, 0, 0, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Section2(Section):
    """the path of the counters of the levels above and the own one; lower ones restart"""
    target = H + "section2"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and not appendix, result[0] == show(s1) + "." + show(s2 + 1)),
                implies(numbered and appendix, result[0] == chr(64 + s1) + "." + show(s2 + 1)),
                implies(numbered, result[1] == (part, s1, s2 + 1, 0, 0, thm, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Section3(Section):
    """the path of the counters of the levels above and the own one; lower ones restart"""
    target = H + "section3"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and not appendix, result[0] == show(s1) + "." + show(s2) + "." + show(s3 + 1)),
                implies(numbered and appendix, result[0] == chr(64 + s1) + "." + show(s2) + "." + show(s3 + 1)),
                implies(numbered, result[1] == (part, s1, s2, s3 + 1, 0, thm, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class Section4(Section):
    """the path of the counters of the levels above and the own one; lower ones restart"""
    target = H + "section4"

    def requires(s1):
        return s1 <= 1000000

    def ensures_numbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return (implies(numbered and not appendix, result[0] == show(s1) + "." + show(s2) + "." + show(s3) + "." + show(s4 + 1)),
                implies(numbered and appendix, result[0] == chr(64 + s1) + "." + show(s2) + "." + show(s3) + "." + show(s4 + 1)),
                implies(numbered, result[1] == (part, s1, s2, s3, s4 + 1, thm, eq, tab, fig, alg)))

    def ensures_unnumbered(numbered, appendix, part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return implies(not numbered, result[0] == None and result[1] == (part, s1, s2, s3, s4, thm, eq, tab, fig, alg))


@contract
class AppendixStart(Appendix):
    """an appendix lets the section counters start again and leaves the others alone"""
    target = H + "appendix"

    def ensures_reset(part, s1, s2, s3, s4, thm, eq, tab, fig, alg, result):
        return result == (part, 0, 0, 0, 0, thm, eq, tab, fig, alg)


@contract
class Clear(Cleared):
    """clearing a builder: every counter starts at zero"""
    target = H + "cleared"

    def ensures_zero(result):
        return result == (0, 0, 0, 0, 0, 0, 0, 0, 0, 0)


@contract
class ProcessTokens:
    target = TB + "._process_tokens"
    types = {"self": 'obj["%s"]' % TB, "in_tokens": "any"}
    returns = "list"
    trusted = True        # joins texts in a copy of the tokens; no counter occurs in it


@contract
class Organize:
    """organizing a document begins with all counters at zero (precondition, obliged where organize_content calls it)"""
    target = TB + "._recursive_organize"
    types = {"self": 'obj["%s"]' % TB, "tokens": "any", "in_appendix": "bool", "list_depth": "int"}
    returns = "list"
    trusted = True

    def requires(self, in_appendix, list_depth):
        return (self.part_number == 0, self.math_env_number == 0, self.equation_number == 0, self.table_env_number == 0,
                self.figure_env_number == 0, self.algorithm_number == 0, self.section_numbers[1] == 0, not in_appendix, list_depth == 0)


@contract
class NewDocument:
    """whatever a builder has built before, the next document is organized with all counters at zero"""
    target = TB + ".organize_content"
    types = {"self": 'obj["%s"]' % TB, "in_tokens": "any"}
    returns = "list"
    unsampled = True      # the bounded driver builds documents one after the other


class Deep(case("bool", numbered="bool", appendix="bool", known="bool", **{"s%d" % i: "nat" for i in range(1, 7)})):
    unroll = 8

    def requires(s1):
        return s1 <= 1000000

    def ensures_path(result):
        return result


for level in (4, 5, 6):
    contract(type("Deep%d" % level, (Deep,), dict(target=H + "deep%d" % level, _generated=True, __module__=__name__,
                                                  __doc__="a section of level %d while deeper ones were numbered, or as the first of its level" % level)))
