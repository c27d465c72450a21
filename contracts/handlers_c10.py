r"""C10: every recognizer consumes at least one and at most all characters of a text it accepts."""
from pyvc.spec import *
from pyvc.spec import spec, lemma
from pyvc.engine import contract, attrs
from .tex_utils_c01 import M as TU
from . import tex_utils_c02, ifelse_c13, tabular_c04, tex_utils_c03

import latex2json.parser.packages.boxes as bx

H = "latex2json.parser.handlers."
P = "latex2json.parser.packages."


@contract
class Flatten:
    target = TU + "flatten_all_to_string"
    types = {"tokens": "any"}
    returns = "str"


E = H + "environment:"
NAMES = "an environment name taken from a match of the environment pattern consists of letters, digits, _ and @ and may be followed by white space"


@contract
class TryHandle:
    """an environment or group recognised at the start of the text"""
    target = E + "BaseEnvironmentHandler.try_handle"
    types = {"content": "str"}
    returns = 'tuple[opt[dict["content:any"]], int]'
    assumes = {"NestedPattern": NAMES}
    join = 8

    def ensures(content, result):
        return (0 <= result[1] and result[1] <= len(content),
                implies(result[0] != None, result[1] >= 1))


@contract
class FindSkip:
    target = E + "find_pattern_while_skipping_nested_envs"
    types = {"content": "str", "pattern": "pat", "start_pos": "int"}
    returns = "int"
    join = 8

    def requires(content, pattern, start_pos):
        return 0 <= start_pos and start_pos <= len(content)

    def ensures(content, pattern, start_pos, result):
        return result == -1 or (start_pos <= result and result <= len(content))

    def inv_end(content, start_pos, e: Int):
        return e == -1 or (start_pos <= e and e <= len(content))


@contract
class ConvertPairs:
    target = E + "convert_any_env_pairs_to_begin_end"
    types = {"content": "str"}
    returns = "str"
    total = False        # every rewriting removes an \\end..., which the length of the text does not show; the bounded part covers it
    assumes = {"NestedPattern": NAMES}


BH = P + "boxes:BoxHandler.handle"


class Lengths:
    """a recognizer applied directly to a text: its length lies within the text"""
    returns = "tuple[any, int]"
    join = 8
    budget = 400
    assumes = {"NestedPattern": NAMES}


@contract
class BoxHandle(Lengths):
    target = BH
    types = {"self": 'obj["%sboxes:BoxHandler"]' % P, "content": "str", "prev_token": "any"}
    assumes = {"int() of arbitrary text": "a box name that str.isdigit accepts was matched by \\d+ (the other alternative starts with { or a backslash)"}

    def ensures(self, content, prev_token, result):
        return 0 <= result[1] and result[1] <= len(content)


FH = H + "formatting:FormattingHandler.handle"


@contract
class FormattingHandle(Lengths):
    target = FH
    types = {"self": 'obj["%sformatting:FormattingHandler"]' % H, "content": "str", "prev_token": "any", "exclude_patterns": "any"}

    def ensures(self, content, prev_token, exclude_patterns, result):
        return 0 <= result[1] and result[1] <= len(content)


CH = H + "content_command:ContentCommandHandler"


@contract
class ContentHandle(Lengths):
    target = CH + ".handle"
    types = {"self": 'obj["%s"]' % CH, "content": "str", "prev_token": "any"}

    def ensures(self, content, prev_token, result):
        return 0 <= result[1] and result[1] <= len(content)


@contract
class ContentSearch(Lengths):
    target = CH + ".search"
    types = {"self": 'obj["%s"]' % CH, "content": "str"}
    returns = "opt[int]"

    def ensures(self, content, result):
        return implies(result != None, 0 <= result and result < len(content))


EQ = H + "equation:EquationHandler"
attrs(EQ, formatter='obj["%sformatting:FormattingHandler"]' % H, box_handler='obj["%sboxes:BoxHandler"]' % P, content_command='obj["%s"]' % CH)


@contract
class EqStrip(Lengths):
    target = EQ + "._strip_out_formatting"
    types = {"self": 'obj["%s"]' % EQ, "equation": "str"}
    returns = "str"
    total = False      # what a command leaves may again start with a command; the bounded part covers it


@contract
class EqLabels(Lengths):
    target = EQ + "._handle_labels"
    types = {"self": 'obj["%s"]' % EQ, "equation": "str"}
    returns = "tuple[str, list]"


@contract
class EqPlaceholders(Lengths):
    target = EQ + "._extract_contentcommands_as_placeholders"
    types = {"self": 'obj["%s"]' % EQ, "eq_token": 'dict["content:str"]'}
    returns = "any"

    def measure_rest(math: Str, current_pos: Int):
        return len(math) - current_pos


@contract
class Csname(Lengths):
    target = H + "new_definition:extract_and_concat_nested_csname"
    assumes = {}
    types = {"content": "str"}
    returns = "tuple[str, int]"

    def ensures(content, result):
        return (result[1] == -1 or (1 <= result[1] and result[1] <= len(content)),
                implies(result[1] == -1, result[0] == ""))


TB = H + "tabular:"


@contract
class TableStructures(Lengths):
    target = TB + "extract_table_structures"
    types = {"content": "str"}
    returns = "tuple[str, any]"

    def measure_rest(current_content: Str, pos: Int):
        return len(current_content) - pos


@contract
class ParseTabular(Lengths):
    target = TB + "parse_tabular"
    types = {"latex_table": "str", "cell_parser_fn": "any"}
    returns = "list"


@contract
class FlattenTokens(Lengths):
    target = "latex2json.parser.flatten:flatten_tokens"
    types = {"tokens": "any"}
    returns = "tuple[str, any]"


class Accept:
    inlines = (BH, FH, CH + ".handle")
    types = {"content": "str", "prev_token": "any"}
    returns = "int"
    budget = 400
    join = 8
    assumes = {"NestedPattern": NAMES}

    def ensures_bounds(content, result):
        return result <= len(content)

    def ensures_progress(content, result):
        return result == -1 or result >= 1


class AcceptOr0(Accept):
    """may give the length 0: that is how it declines after all"""

    def ensures_progress(content, result):
        return result >= -1


def handler(path):
    return dict(Accept.types, h='obj["%s"]' % path)


@contract
class ForLoop(Accept):
    target = "contracts.accept:accept#ForLoop"
    types = handler(H + "for_loop_statements:ForLoopHandler")


@contract
class CodeBlock(Accept):
    target = "contracts.accept:accept#CodeBlock"
    types = handler(H + "code_block:CodeBlockHandler")


@contract
class TextFormatting(Accept):
    target = "contracts.accept:accept#TextFormatting"
    types = handler(H + "text_formatting:TextFormattingHandler")


@contract
class Formatting(Accept):
    target = "contracts.accept:accept#Formatting"
    types = handler(H + "formatting:FormattingHandler")


@contract
class Diacritics(Accept):
    target = "contracts.accept:accept#Diacritics"
    types = handler(H + "diacritics:DiacriticsHandler")


IE = H + "if_else_statements:IfElseBlockHandler"
attrs(IE, all_ifs="list[tuple[str, pat]]", all_ifs_compiled="opt[pat]")


@contract
class IfElse(AcceptOr0):
    target = "contracts.accept:accept#IfElse"
    types = handler(IE)
    assumes = {"Extract": "the patterns of conditionals (the built-in ones and \\\\if followed by the name in \\\\newif) match no empty text"}


@contract
class Legacy(AcceptOr0):
    cost = 300
    target = "contracts.accept:accept#Legacy"
    types = handler(H + "legacy_formatting:LegacyFormattingHandler")
    unroll = 5


@contract
class Item(Accept):
    target = "contracts.accept:accept#Item"
    types = handler(H + "item:ItemHandler")


@contract
class Author(Accept):
    target = "contracts.accept:accept#Author"
    types = handler(H + "author:AuthorHandler")


@contract
class ContentCommand(Accept):
    target = "contracts.accept:accept#ContentCommand"
    types = handler(H + "content_command:ContentCommandHandler")


@contract
class Equation(Accept):
    target = "contracts.accept:accept#Equation"
    types = handler(H + "equation:EquationHandler")


@contract
class Tabular(Accept):
    target = "contracts.accept:accept#Tabular"
    types = handler(H + "tabular:TabularHandler")


@contract
class Environment(Accept):
    target = "contracts.accept:accept#Environment"
    types = handler(H + "environment:EnvironmentHandler")


@contract
class Overpic(Accept):
    target = "contracts.accept:accept#Overpic"
    types = handler(P + "overpic:OverpicHandler")


@contract
class Tikz(Accept):
    target = "contracts.accept:accept#Tikz"
    types = handler(P + "tikz_pgf:TikzPGFHandler")


@contract
class Etoolbox(Accept):
    target = "contracts.accept:accept#Etoolbox"
    types = handler(P + "etoolbox:EtoolboxHandler")


@contract
class Titlesec(Accept):
    target = "contracts.accept:accept#Titlesec"
    types = handler(P + "titlesec:TitlesecHandler")


@contract
class Box(Accept):
    target = "contracts.accept:accept#Box"
    assumes = BoxHandle.cls.assumes
    types = handler(P + "boxes:BoxHandler")
