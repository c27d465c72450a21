r"""C12: the token accumulator (LatexParser.add_token, _handle_label) on lists of tokens with any beginning.

The harness functions in contracts/tokens.py call the real methods; the list handed to them has an arbitrary beginning and a last
token of the shape the clause speaks about."""
from pyvc.spec import *
from pyvc.engine import contract, attrs

LP = "latex2json.parser.tex_parser:LatexParser"
attrs(LP, current_env="none", current_str="str", labels="dict")
H = "contracts.tokens:"
PLAIN = 'dict["type:=text", "content:str", "styles:absent", "labels:absent"]'
LABELLED = 'dict["type:=text", "content:str", "styles:absent", "labels:list[str]?"]'
STYLED = 'dict["type:=text", "content:str", "styles:any"]'
OTHER = 'dict["type:=equation", "content:str", "labels:list[str]?"]'
FULL = 'dict["type:=environment", "content:list", "name:str", "labels:absent"]'
ENV = 'dict["type:=environment", "content:any", "labels:list[str]?"]'

TEXTS = ["", " ", "a", "b ", " c", "x  ", "\n", "a b"]
_parser = []


def parser():
    from latex2json.parser.tex_parser import LatexParser
    if not _parser:
        _parser.append(LatexParser())
    _parser[0].clear()
    return _parser[0]


def dic(rng, kind):
    t = {"type": "equation" if kind == OTHER else "environment" if kind in (ENV, FULL) else "text", "content": rng.choice(TEXTS)}
    if kind in (LABELLED, OTHER, ENV) and rng.random() < .5:
        t["labels"] = [rng.choice("lmn") for _ in range(rng.randrange(0, 3))]
    if kind == STYLED:
        t["styles"] = ["bold"]
    if kind in (ENV, FULL):
        t["content"] = [dic(rng, PLAIN) for _ in range(rng.randrange(0, 3))]
        t["name"] = "center"
    return t


def mk(ty, rng):
    if ty == "str":
        return rng.choice(TEXTS)
    if ty == "bool":
        return rng.random() < .5
    if ty == "name":
        return rng.choice(["", "l", "fig:a"])
    if ty.startswith("tail["):
        return [dic(rng, rng.choice([PLAIN, STYLED, OTHER, LABELLED])) for _ in range(rng.randrange(0, 3))] + [dic(rng, ty[5:-1])]
    if ty.startswith("obj["):
        return parser()
    if ty == "list":
        return [dic(rng, rng.choice([PLAIN, STYLED, OTHER, LABELLED])) for _ in range(rng.randrange(0, 3))]
    if ty == "none":
        return None
    if ty == "emptydict":
        return {}
    kind = next(k for k in (PLAIN, LABELLED, STYLED, OTHER, FULL, ENV) if k == ty)
    return dic(rng, kind)


def case(fn, returns, **types):
    """class attributes of one contract on a harness function"""
    types = dict(p='obj["%s"]' % LP, **types)

    def sample(rng):
        return {k: mk(v.replace("| none", "").strip(), rng) for k, v in types.items()}
    return type(fn, (), dict(types=types, returns=returns, sample=staticmethod(sample), _generated=True))


Text = case("add_text", "tuple[int, str, str, str]", tokens="tail[%s]" % LABELLED, token="str", add_space="bool")
TextDict = case("add_text", "tuple[int, str, str, str]", tokens="tail[%s]" % LABELLED, token=LABELLED, add_space="bool")
Labels = case("add_labelled", "tuple[int, list[str], list[str]]", tokens="tail[%s]" % LABELLED, content="str", a="name", b="name")
AfterStyled = case("add_after", "tuple[int, str, str, str, bool]", tokens="tail[%s]" % STYLED, token="str", add_space="bool")
AfterOther = case("add_after", "tuple[int, str, str, str, bool]", tokens="tail[%s]" % OTHER, token="str", add_space="bool")
SAME = "tuple[int, bool, str, str, str]"
StyledAfter = case("add_same", SAME, tokens="tail[%s]" % PLAIN, token=STYLED, add_space="bool")
StyledStyled = case("add_same", SAME, tokens="tail[%s]" % STYLED, token=STYLED, add_space="bool")
DictAfterStyled = case("add_same", SAME, tokens="tail[%s]" % STYLED, token=PLAIN, add_space="bool")
DictAfterOther = case("add_same", SAME, tokens="tail[%s]" % OTHER, token=LABELLED, add_space="bool")
OtherAfter = case("add_same", SAME, tokens="tail[%s]" % LABELLED, token=OTHER, add_space="bool")
EnvAfter = case("add_same", SAME, tokens="tail[%s]" % LABELLED, token=FULL, add_space="bool")
Many = case("add_many", "tuple[int, str, str]", tokens="tail[%s]" % LABELLED, token="list", add_space="bool")
Nothing = case("add_many", "tuple[int, str, str]", tokens="tail[%s]" % LABELLED, token="none", add_space="bool")
Empty = case("add_many", "tuple[int, str, str]", tokens="tail[%s]" % LABELLED, token="emptydict", add_space="bool")
First = case("add_first", "tuple[int, str]", token="str")
FirstDict = case("add_first", "tuple[int, str]", token=LABELLED)
LabelText = case("label", "tuple[int, list[str], list[str]]", tokens="tail[%s]" % LABELLED, name="str")
LabelOther = case("label", "tuple[int, list[str], list[str]]", tokens="tail[%s]" % OTHER, name="str")
LabelEnv = case("label_env", "tuple[int, list[str], list[str], bool]", env=ENV, tokens="tail[%s]" % PLAIN, name="str")
LabelAlone = case("label_alone", "tuple[int, str, str]", name="str")
LabelEnvAlone = case("label_env_alone", "tuple[int, list[str], list[str]]", env=ENV, name="str")


@contract
class TextAfterText(Text):
    """unstyled text after unstyled text: no new token, the texts are put together (with a space between when asked for and missing)"""
    target = H + "add_text#str"

    def requires(token):
        return token != ""

    def ensures_joined(token, add_space, result):
        return (result[0] == 0,
                implies(add_space and not ends(result[1], " "), result[2] == result[1] + " " + token),
                implies(not add_space or ends(result[1], " "), result[2] == result[1] + token))

    def ensures_pending(result):
        return result[3] == ""


@contract
class TextTokenAfterText(TextDict):
    target = H + "add_text#dict"

    def ensures_joined(token, add_space, result):
        return (result[0] == 0,
                implies(add_space and not ends(result[1], " "), result[2] == result[1] + " " + token["content"]),
                implies(not add_space or ends(result[1], " "), result[2] == result[1] + token["content"]))


@contract
class EmptyText(Text):
    """an empty text adds nothing"""
    target = H + "add_text#empty"

    def requires(token):
        return token == ""

    def ensures_nothing(result):
        return result[0] == 0 and result[2] == result[1]


@contract
class LabelsOfJoinedText(Labels):
    """the labels of a text (here: two) that is joined to the one before stay, behind its own"""
    target = H + "add_labelled"
    types = dict(Labels.types, a="str", b="str")

    def ensures_labels(a, b, result):
        return result[0] == 0 and result[2] == result[1] + [a] + [b]


@contract
class TextAfterStyled(AfterStyled):
    """unstyled text after styled text: a token of its own, the styled one unchanged"""
    target = H + "add_after#styled"

    def requires(token):
        return token != ""

    def ensures_new(token, result):
        return result[0] == 1 and result[2] == result[1] and result[3] == token and not result[4]


@contract
class TextAfterOther(AfterOther):
    target = H + "add_after#other"

    def requires(token):
        return token != ""

    def ensures_new(token, result):
        return result[0] == 1 and result[2] == result[1] and result[3] == token and not result[4]


class Kept:
    def ensures_appended(result):
        return result[0] == 1 and result[1] and result[3] == result[2] and result[4] == ""


@contract
class StyledAfterText(Kept, StyledAfter):
    """styled text is never joined"""
    target = H + "add_same#styled"


@contract
class StyledAfterStyled(Kept, StyledStyled):
    target = H + "add_same#styled2"


@contract
class TextTokenAfterStyled(Kept, DictAfterStyled):
    target = H + "add_same#after_styled"


@contract
class TextTokenAfterOther(Kept, DictAfterOther):
    target = H + "add_same#after_other"


@contract
class OtherAfterText(Kept, OtherAfter):
    """any other token is appended as it is"""
    target = H + "add_same#other"


@contract
class EnvironmentAfterText(EnvAfter):
    """so is an environment with content; one without content and labels is left out"""
    target = H + "add_same#environment"

    def ensures_appended(token, result):
        return (implies(len(token["content"]) > 0, result[0] == 1 and result[1]), result[3] == result[2],
                implies(len(token["content"]) == 0, result[0] == 0))


@contract
class ManyTokens(Many):
    """a list of tokens is appended as a whole"""
    target = H + "add_many#list"

    def ensures_all(token, result):
        return result[0] == len(token) and result[2] == result[1]


@contract
class NoToken(Nothing):
    target = H + "add_many#none"

    def ensures_nothing(result):
        return result[0] == 0 and result[2] == result[1]


@contract
class EmptyToken(Empty):
    target = H + "add_many#empty"

    def ensures_nothing(result):
        return result[0] == 0 and result[2] == result[1]


@contract
class FirstText(First):
    target = H + "add_first#str"

    def requires(token):
        return token != ""

    def ensures_only(token, result):
        return result[0] == 1 and result[1] == token


@contract
class FirstTextToken(FirstDict):
    target = H + "add_first#dict"

    def ensures_only(token, result):
        return result[0] == 1 and result[1] == token["content"]


class OneMore:
    def ensures_once(name, result):
        return result[0] == 0 and result[2] == result[1] + [name]


@contract
class LabelAfterText(OneMore, LabelText):
    """outside constructs a label goes to the token before, exactly once"""
    target = H + "label#text"


@contract
class LabelAfterOther(OneMore, LabelOther):
    target = H + "label#other"


@contract
class LabelInside(OneMore, LabelEnv):
    """inside a construct it goes to the construct, not to the token before"""
    target = H + "label_env"

    def ensures_only_there(result):
        return not result[3]


@contract
class LabelFirst(LabelAlone):
    """with neither it becomes a token of its own"""
    target = H + "label_alone"

    def ensures_own(name, result):
        return result[0] == 1 and result[1] == "label" and result[2] == name


@contract
class LabelInsideFirst(OneMore, LabelEnvAlone):
    target = H + "label_env_alone"
