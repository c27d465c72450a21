"""Harness of C07: objects that keep state. The real constructors and the real clear() are called; disturb, alike and apart are carried out by the
verifier on its heap (pyvc/graph.py)."""
from latex2json.parser.tex_parser import LatexParser
from latex2json.parser.tex_preprocessor import LatexPreprocessor
from latex2json.parser.sty_parser import LatexStyParser
from latex2json.parser.bib.bib_parser import BibParser
from latex2json.parser.handlers.command_manager import CommandManager
from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
from latex2json.structure.builder import TokenBuilder
from latex2json.tex_reader import TexReader


def disturb(obj):
    """every attribute, of every object reachable, that is written after the objects are made gets an arbitrary value"""
    raise NotImplementedError


def alike(a, b):
    """the same classes, attributes, values and sharing"""
    raise NotImplementedError


def apart(a, b):
    """no object in common that anything writes to"""
    raise NotImplementedError


for f in (disturb, alike, apart):
    f.pyvc_native = f.__name__


def parser_cleared():
    used = LatexParser()
    disturb(used)
    used.clear()
    return alike(used, LatexParser())


def parsers_apart():
    return apart(LatexParser(), LatexParser())


def preprocessor_cleared():
    used = LatexPreprocessor()
    disturb(used)
    used.clear()
    return alike(used, LatexPreprocessor())


def styles_cleared():
    used = LatexStyParser()
    disturb(used)
    used.clear()
    return alike(used, LatexStyParser())


def bibliography_cleared():
    used = BibParser()
    disturb(used)
    used.clear()
    return alike(used, BibParser())


def commands_cleared():
    used = CommandManager()
    disturb(used)
    used.clear()
    return alike(used, CommandManager())


def conditionals_cleared():
    used = IfElseBlockHandler()
    disturb(used)
    used.clear()
    return alike(used, IfElseBlockHandler())


def builder_cleared():
    used = TokenBuilder()
    disturb(used)
    used.clear()
    return alike(used, TokenBuilder())


def builders_apart():
    return apart(TokenBuilder(), TokenBuilder())


def reader_cleared():
    used = TexReader()
    disturb(used)
    used.clear()
    return alike(used, TexReader())


def readers_apart():
    return apart(TexReader(), TexReader())

