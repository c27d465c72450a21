"""Harness of C10: what the parser does with a recognizer (latex2json/parser/tex_parser.py, _check_handlers): ask it, then let it work."""


def accept(h, content, prev_token):
    """number of characters consumed, -1 if the recognizer declines"""
    if not h.can_handle(content):
        return -1
    token, end = h.handle(content, prev_token)
    return end
