"""Harness of C11: token dictionaries of every known type with arbitrary contents, given to the real TokenFactory.create; what comes out
is compared with an account of its own of the classes and of the fields declared for every type, and dumped as the reader does."""
from latex2json.structure.token_factory import TokenFactory
from latex2json.structure.tokens import base, document, equation, table_figure_list, graphics, tabular, ref_and_cite, code_and_algo, bibliography, metadata
from latex2json.structure.tokens.types import TokenType

CLASSES = {"document": document.DocumentToken, "title": document.TitleToken, "section": document.SectionToken, "paragraph": document.ParagraphToken,
           "abstract": document.AbstractToken, "appendix": document.AppendixToken, "command": base.CommandToken, "text": base.TextToken,
           "quote": base.QuoteToken, "environment": base.EnvironmentToken, "math_env": base.MathEnvToken, "figure": table_figure_list.FigureToken,
           "subfigure": table_figure_list.SubFigureToken, "table": table_figure_list.TableToken, "tabular": tabular.TabularToken,
           "caption": table_figure_list.CaptionToken, "includegraphics": graphics.IncludeGraphicsToken, "includepdf": graphics.IncludePdfToken,
           "diagram": graphics.DiagramToken, "list": table_figure_list.ListToken, "item": table_figure_list.ItemToken, "equation": equation.EquationToken,
           "code": code_and_algo.CodeToken, "algorithm": code_and_algo.AlgorithmToken, "algorithmic": code_and_algo.AlgorithmicToken,
           "citation": ref_and_cite.CitationToken, "ref": ref_and_cite.ReferenceToken, "url": ref_and_cite.UrlToken, "footnote": ref_and_cite.FootnoteToken,
           "bibliography": bibliography.BibliographyToken, "bibitem": bibliography.BibItemToken, "author": metadata.AuthorToken,
           "email": metadata.EmailToken, "affiliation": metadata.AffiliationToken, "keywords": metadata.KeywordsToken, "address": metadata.AddressToken,
           "group": base.GroupToken}
FIELDS = {"environment": ("name",), "math_env": ("name", "numbering", "title", "proof"), "command": ("command",), "section": ("title", "level", "numbering"),
          "paragraph": ("title", "level", "numbering"), "equation": ("align", "display", "numbering", "placeholders"), "citation": ("title",),
          "ref": ("title",), "url": ("title",), "figure": ("numbering",), "table": ("numbering",), "caption": ("title",), "item": ("title",),
          "list": ("name", "depth"), "bibitem": ("format", "cite_key", "label", "fields"), "code": ("title", "display"),
          "algorithm": ("name", "numbering"), "includegraphics": ("page",), "includepdf": ("pages",), "diagram": ("name",)}


def text(s):
    return {"type": "text", "content": s}


def kids(s, t):
    """texts with an unknown token, a date and a nested token between them"""
    return [text(s), {"type": "unheard of", "content": [text(t)]}, {"type": "quote", "styles": [t], "content": [text(t), {"type": "date", "content": t}, text(s)]},
            {"type": "date", "content": s}, {"type": "equation", "content": t, "labels": [s]}]


def known(x):
    return not isinstance(x, dict) or "type" not in x or x["type"] in CLASSES


def same(got, want):
    """a value of a typed token against the one given"""
    if isinstance(want, list):
        want = [x for x in want if known(x)]
        if not isinstance(got, list) or len(got) != len(want):
            return False
        for i in range(len(want)):
            if not same(got[i], want[i]):
                return False
        return True
    if isinstance(want, dict) and "type" in want:
        return kept(got, want)
    if isinstance(want, dict) and "rowspan" in want:
        return got.rowspan == want["rowspan"] and got.colspan == want["colspan"] and same(got.content, want["content"])
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return False
        for k in want:
            if not same(got[k], want[k]):
                return False
        return True
    return got == want


def kept(token, data):
    """the token has the class of its type and the data of its fields"""
    kind = data["type"]
    if token.__class__ is not CLASSES[kind] or token.type != TokenType(kind):
        return False
    for f in ("content", "labels", "styles") + FIELDS.get(kind, ()):
        if f in data:
            if f == "display" and kind == "equation":
                if str(getattr(token, f).value) != data[f]:
                    return False
            elif not same(getattr(token, f), data[f]):
                return False
    return True


def dumped(got, want):
    """a value in the JSON data against the one given"""
    if isinstance(want, list):
        want = [x for x in want if known(x)]
        if not isinstance(got, list) or len(got) != len(want):
            return False
        for i in range(len(want)):
            if not dumped(got[i], want[i]):
                return False
        return True
    if isinstance(want, dict) and "type" in want:
        return carried(got, want)
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return False
        for k in want:
            if not dumped(got[k], want[k]):
                return False
        return True
    return got == want


def carried(out, data):
    kind = data["type"]
    if out["type"] != kind:
        return False
    for f in ("content", "labels", "styles") + FIELDS.get(kind, ()):
        if f in data and not dumped(out[f], data[f]):
            return False
    return True


def both(data):
    token = TokenFactory().create(data)
    return kept(token, data) and carried(token.model_dump(mode="json", exclude_none=True), data)


def common(kind, s, t):
    return {"type": kind, "labels": [s, t], "styles": [t], "unheard of": s}


def plain(kind, s, t):
    """types that hold nothing but a text"""
    return both({**common(kind, s, t), "content": s})


def holder(kind, s, t):
    """types that hold tokens"""
    return both({**common(kind, s, t), "content": kids(s, t)}) and both({"type": kind, "content": []})


def holder_text(kind, s, t):
    """... or a text"""
    return both({**common(kind, s, t), "content": s}) and both({"type": kind, "content": t})


def quote(s, t):
    return holder("quote", s, t) and holder_text("quote", s, t)


def document(s, t):
    return holder("document", s, t) and holder_text("document", s, t)


def abstract(s, t):
    return holder("abstract", s, t) and holder_text("abstract", s, t)


def subfigure(s, t):
    return holder("subfigure", s, t) and holder_text("subfigure", s, t)


def title(s, t):
    return holder("title", s, t) and holder_text("title", s, t)


def footnote(s, t):
    return holder("footnote", s, t) and holder_text("footnote", s, t)


def keywords(s, t):
    return holder("keywords", s, t) and holder_text("keywords", s, t)


def address(s, t):
    return holder("address", s, t) and holder_text("address", s, t)


def affiliation(s, t):
    return holder("affiliation", s, t) and holder_text("affiliation", s, t)


def email(s, t):
    return holder("email", s, t) and holder_text("email", s, t)


def figure(s, t, n):
    return both({**common("figure", s, t), "content": kids(s, t), "numbering": n}) and holder_text("figure", s, t)


def table(s, t, n):
    return both({**common("table", s, t), "content": kids(s, t), "numbering": n}) and holder_text("table", s, t)


def group(s, t):
    return holder("group", s, t)


def appendix(s, t):
    return holder("appendix", s, t)


def environment(s, t, n):
    return both({**common("environment", s, t), "content": kids(s, t), "name": n}) and holder_text("environment", s, t)


def algorithm(s, t, n):
    return both({**common("algorithm", s, t), "content": kids(s, t), "name": n, "numbering": s}) and holder_text("algorithm", s, t)


def listing(s, t, n, level):
    return both({**common("list", s, t), "content": [{"type": "item", "title": kids(t, s), "content": kids(s, t)}, {"type": "item", "content": []}], "name": n, "depth": level})


def item(s, t):
    return both({**common("item", s, t), "content": kids(s, t), "title": kids(t, s)}) and holder_text("item", s, t)


def caption(s, t, n):
    return both({**common("caption", s, t), "content": kids(s, t), "title": n}) and holder_text("caption", s, t)


def section(s, t, n, level):
    return (both({**common("section", s, t), "title": kids(t, s), "content": kids(s, t), "level": level, "numbering": n})
            and both({"type": "section", "title": t, "level": level, "content": []}))


def paragraph(s, t, n, level):
    return (both({**common("paragraph", s, t), "title": kids(t, s), "content": kids(s, t), "level": level, "numbering": n})
            and both({"type": "paragraph", "title": t, "level": level, "content": []}))


def math_env(s, t, n):
    proof = {"type": "math_env", "name": "proof", "content": kids(t, s), "labels": [t]}
    return (both({**common("math_env", s, t), "title": kids(t, s), "content": kids(s, t), "name": n, "numbering": t, "proof": proof})
            and both({"type": "math_env", "content": kids(s, t), "name": n, "proof": {"type": "math_env", "name": "proof", "content": []}}))


def command(s, t):
    return both({**common("command", s, t), "command": s}) and both({"type": "command", "command": t, "content": s})


def words(s, t):
    """types that hold nothing but a text"""
    return both({**common("text", s, t), "content": s}) and both({**common("algorithmic", s, t), "content": s})


def code(s, t, n):
    return both({**common("code", s, t), "content": s, "title": t, "display": n}) and both({"type": "code", "content": s})


def graphics_of(s, t, n, level):
    return (both({**common("includegraphics", s, t), "content": s, "page": level}) and both({**common("includepdf", s, t), "content": s, "pages": n})
            and both({**common("diagram", s, t), "content": s, "name": n}) and both({"type": "includegraphics", "content": s}))


def equation_of(s, t, n, align, block):
    display = "block" if block else "inline"
    return (both({**common("equation", s, t), "content": s, "numbering": n, "align": align, "display": display, "placeholders": {"_0": kids(s, t), "_1": []}})
            and both({"type": "equation", "content": t}))


def reference(s, t):
    return (both({**common("ref", s, t), "content": [s, t], "title": kids(s, t)}) and both({**common("citation", s, t), "content": [t, s], "title": kids(t, s)})
            and both({"type": "citation", "content": [s]}) and both({"type": "ref", "content": [s], "title": t}))


def url(s, t):
    return both({**common("url", s, t), "content": s, "title": kids(s, t)}) and both({"type": "url", "content": s, "title": t})


def author(s, t):
    return both({**common("author", s, t), "content": [kids(s, t), [], [text(t)]]})


def bibitem(s, t, n):
    """an entry, alone and with others in a bibliography: what is no entry is dropped there"""
    entry = {**common("bibitem", s, t), "content": kids(s, t), "format": n, "cite_key": s, "label": t, "fields": {"author": s, "title": t}}
    second = {"type": "bibitem", "content": s, "cite_key": t}
    data = {**common("bibliography", s, t), "content": [entry, text(t), second, {"type": "unheard of", "content": s}]}
    token = TokenFactory().create(data)
    wanted = {**data, "content": [entry, second]}
    return both(entry) and both(second) and kept(token, wanted) and carried(token.model_dump(mode="json", exclude_none=True), wanted)


def table_of(s, t, rows, columns):
    """cells: text, nothing, tokens, spans"""
    data = {**common("tabular", s, t), "content": [[s, None, kids(s, t)], [], [{"content": kids(t, s), "rowspan": rows, "colspan": columns}, {"content": None, "rowspan": rows, "colspan": columns}],
                                                   [[{"type": "group", "content": kids(s, t)}, text(t)], t, {"content": t, "rowspan": rows, "colspan": columns}]]}
    return both(data)


def dropped(s, t, kind):
    """a type that is not known, and a date: nothing, wherever it is"""
    f = TokenFactory()
    return (f.create({"type": kind, "content": s}) is None and f.create({"type": "date", "content": [text(s)]}) is None
            and len(f.create({"type": "group", "content": [text(s), {"type": kind, "content": t}, text(t)]}).content) == 2)


def cell_of_unknown(s, kind):
    """a lone cell token of unknown type leaves an empty cell"""
    row = TokenFactory().create({"type": "tabular", "content": [[[text(s)], {"type": kind, "content": s}, s]]}).content[0]
    return len(row) == 3 and row[0][0].content == s and row[1] is None and row[2] == s
