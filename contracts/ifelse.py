"""Harness of C13: what the handler of conditionals makes of one conditional (latex2json/parser/handlers/if_else_statements.py), whichever
patterns it knows. Each function lets the real IfElseBlockHandler.handle take a text and compares the token with the pieces the text has."""
from latex2json.parser.handlers.if_else_statements import extract_else_elseif_fi
from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks


def split(h, first, p, second, q, start, text):
    """a conditional ended by fi: the branches of what follows the condition, exchanged when the condition is false"""
    h.all_ifs, h.all_ifs_compiled = [(first, p), (second, q)], start
    m = p.match(text) or q.match(text)
    if m and "\\csname" in m.group(0):
        return True
    token, n = h.handle(text)
    if not m:
        return token is None and n == 0
    try:
        yes, no, others, length = extract_else_elseif_fi(text[m.end():], start_delimiter=start)
    except ValueError:
        return token is None and n == 0
    if token is None or n != m.end() + length:
        return False
    if token["condition"].replace("{", "").replace("}", "") == "false":
        yes, no = no, yes
    return (token["type"] == "conditional-" + (first if p.match(text) else second) and token["if_content"] == yes
            and token["else_content"] == no and token["elsif_branches"] == others)


def braced(h, name, p, text):
    """a conditional with its branches in braces"""
    h.all_ifs = [(name, p)]
    token, n = h.handle(text)
    m = p.match(text)
    if not m:
        return token is None and n == 0
    blocks, length = extract_nested_content_sequence_blocks(text[m.end() - 1:], "{", "}", max_blocks=2 if name == "@ifstar" else 3)
    if len(blocks) == 0 or name == "ifthenelse" and len(blocks) != 3:
        return token is None and n == 0
    if token is None or n != m.end() - 1 + length or token["type"] != ("conditional-ifstar" if name == "@ifstar" else "conditional-" + name):
        return False
    if name == "@ifstar":
        return token["if_content"] == blocks[0] and token["else_content"] == (blocks[1] if len(blocks) > 1 else "")
    return (token["condition"] == blocks[0] and token["if_content"] == (blocks[1] if len(blocks) > 1 else "")
            and token["else_content"] == (blocks[2] if len(blocks) > 2 else ""))
