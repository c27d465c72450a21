"""Harness of C14: code blocks taken out of a text, put back, and turned into tokens. The finder of the blocks is a stand-in that reports blocks
at arbitrary places (its own behaviour is checked by the bounded driver)."""
from pyvc.spec import *
from pyvc.spec import spec
from latex2json.parser.tex_preprocessor import extract_code_blocks, restore_placeholder_blocks
from latex2json.parser.handlers.code_block import PATTERNS, CodeBlockHandler


@spec(abstract=True)
def mark(t: Str, i: Int) -> Int:
    """where the blocks begin and end: block i is from mark 2i to mark 2i + 1"""
    return 0


class Found:
    """stands for the match of a code block"""

    def __init__(self, text, i):
        self.text, self.i = text, i

    def start(self):
        return mark(self.text, 2 * self.i)

    def end(self):
        return mark(self.text, 2 * self.i + 1)

    def span(self):
        return self.start(), self.end()

    def group(self, n=0):
        return self.text[self.start():self.end()]

    def __getitem__(self, n):
        return self.text[self.start():self.end()]


def found_0(content):
    return []


def found_1(content):
    return [Found(content, 0)]


def found_2(content):
    return [Found(content, 0), Found(content, 1)]


def found_3(content):
    return [Found(content, 0), Found(content, 1), Found(content, 2)]


def block(content, i):
    return content[mark(content, 2 * i):mark(content, 2 * i + 1)]


def cut(content, n):
    """the text between the blocks stays, every block is replaced by a name of its own, and the names lead to the blocks, in order"""
    text, blocks = extract_code_blocks(content)
    names = list(blocks)
    if len(names) != n:
        return False
    want, pos = "", 0
    for i in range(n):
        if blocks[names[i]] != block(content, i):
            return False
        want = want + content[pos:mark(content, 2 * i)]
        want = want + names[i]
        pos = mark(content, 2 * i + 1)
    return text == want + content[pos:]


def cut_0(content):
    return cut(content, 0)


def cut_1(content):
    return cut(content, 1)


def cut_2(content):
    return cut(content, 2)


def cut_3(content):
    return cut(content, 3)


def put_back(content, p, q, r, a, b, c):
    """every name in the text is replaced by its block"""
    blocks = {}
    blocks[p] = a
    blocks[q] = b
    blocks[r] = c
    return restore_placeholder_blocks(content, blocks) == content.replace(p, a).replace(q, b).replace(r, c)


def put_back_none(content):
    return restore_placeholder_blocks(content, {}) == content


def code_token(h, content):
    """the code token holds the text of the block and the whole block is consumed"""
    token, end = h.handle(content)
    m = PATTERNS["verbatim_env"].match(content)
    if m:
        return end == m.end() and token["type"] == "code" and token["content"] == m.group(1).strip() and token.get("display") is None and token.get("title") is None
    m = PATTERNS["lstlisting"].match(content)
    if m:
        return (end == m.end() and token["type"] == "code" and token["content"] == m.group(2).strip() and token.get("display") is None
                and token.get("title") == (m.group(1).strip() if m.group(1) else None))
    m = PATTERNS["verb_command"].match(content)
    if m:
        return end == m.end() and token["type"] == "code" and token["content"] == m.group(2).strip() and token.get("display") == "inline" and token.get("title") is None
    return token is None and end == 0
