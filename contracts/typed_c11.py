r"""C11: typed tokens keep the data of their fields, and so does the JSON, for token dictionaries of every known type with arbitrary texts,
labels, styles, names, numbers and levels. The harness functions (contracts/typed.py) call the real TokenFactory.create and model_dump."""
import inspect
from pyvc.spec import *
from pyvc.engine import contract
from contracts import typed

H = "contracts.typed:"
KIND = {"s": "str", "t": "str", "n": "str", "kind": "str", "level": "int", "rows": "int", "columns": "int", "align": "bool", "block": "bool"}


def case(f):
    types = {p: KIND[p] for p in inspect.signature(f).parameters}

    def sample(rng):
        return {k: rng.choice(["", "a", "b c", "\u00fc\"\\", "{x}\n", "$1$"]) if k != "kind" and t == "str" else
                rng.choice(["marker", "xyz", "TEXT", "", "newcommand"]) if k == "kind" else rng.choice([0, 1, 2, 7]) if t == "int" else rng.random() < .5 for k, t in types.items()}
    return dict(target=H + f.__name__, types=types, returns="bool", sample=staticmethod(sample), _generated=True, maxpaths=3000, unroll=60, recursion=30, depth=60,
                construct=(typed.TokenFactory,), n=40)


@spec
def unheard(kind: Str) -> Bool:
    return (kind != "document" and kind != "title" and kind != "section" and kind != "paragraph" and kind != "abstract" and kind != "appendix"
            and kind != "command" and kind != "text" and kind != "quote" and kind != "environment" and kind != "math_env" and kind != "figure"
            and kind != "subfigure" and kind != "table" and kind != "tabular" and kind != "caption" and kind != "includegraphics" and kind != "includepdf"
            and kind != "diagram" and kind != "list" and kind != "item" and kind != "equation" and kind != "code" and kind != "algorithm"
            and kind != "algorithmic" and kind != "citation" and kind != "ref" and kind != "url" and kind != "footnote" and kind != "bibliography"
            and kind != "bibitem" and kind != "author" and kind != "email" and kind != "affiliation" and kind != "keywords" and kind != "address"
            and kind != "group" and kind != "date")


class Kept:
    def ensures_kept(result):
        return result


class Unheard:
    def requires(kind):
        return unheard(kind)

    def ensures_kept(result):
        return result


for f in [v for k, v in list(vars(typed).items()) if inspect.isfunction(v) and v.__module__ == typed.__name__ and set(inspect.signature(v).parameters) <= set(KIND)
          and k not in ("text", "kids", "common", "plain", "holder", "holder_text")]:
    base = Unheard if "kind" in inspect.signature(f).parameters else Kept
    contract(type(f.__name__.title(), (base,), dict(case(f), __module__=__name__, __doc__="every field of this type is kept")))
