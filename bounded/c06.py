"""C06: the section tree against an independent account of where every token belongs."""
from . import c05


def run(b):
    c05.run(b, number=False)
