r"""C07: clear() restores everything that may have been written since the object was made; two objects share nothing that is written."""
from pyvc.spec import *
from pyvc.engine import contract, attrs
from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
from contracts import states

LatexUnicodeConverter()     # its class-level tables are filled by the first object made and never again (frame obligation)
H = "contracts.states:"


class Clear:
    def ensures_same(result):
        return result


for name in ("parser_cleared", "parsers_apart", "preprocessor_cleared", "styles_cleared", "bibliography_cleared", "commands_cleared", "conditionals_cleared",
             "builder_cleared", "builders_apart", "reader_cleared", "readers_apart"):
    contract(type("C_" + name, (Clear,), dict(target=H + name, types={}, returns="bool", construct="all", unsampled=True, depth=30, unroll=60, budget=150,
                                              _generated=True, __module__=__name__, __doc__=getattr(states, name).__doc__ or name)))
