"""Harness of C06: where the organizer puts the tokens of short documents with arbitrary levels.
Each function lets the real TokenBuilder._recursive_organize (latex2json/structure/builder.py) take the tokens and writes down the tree:
every list of tokens as a number, the digits of which are the positions (from 1) of its tokens in the document, in order."""


def sec(level):
    return {"type": "section", "title": "t", "level": level, "numbered": False}


def par(level):
    return {"type": "paragraph", "title": "t", "level": level, "numbered": False}


def digits(tokens, document):
    n = 0
    for t in tokens:
        d = 9
        for i in range(len(document)):
            if document[i] is t:
                d = i + 1
        n = n * 10 + d
    return n


def three(b, l1, l2, l3, kind, appendix):
    """three sections and some other token"""
    doc = [sec(l1), sec(l2), sec(l3), {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), digits(doc[2]["content"], doc), doc[3]["content"]


def numbered(b, l1, l2, appendix, num):
    """the same with numbers"""
    doc = [sec(l1), sec(l2), {"type": "text", "content": "x"}]
    doc[0]["numbered"] = doc[1]["numbered"] = num
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc)


def two_texts(b, l1, l2, appendix):
    """text, a section, text, another section, text"""
    doc = [{"type": "text", "content": "x"}, sec(l1), {"type": "text", "content": "y"}, sec(l2), {"type": "text", "content": "z"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[1]["content"], doc), digits(doc[3]["content"], doc)


def paragraphs(b, l1, p1, p2, kind, appendix):
    """a section, two paragraphs and some other token"""
    doc = [sec(l1), par(p1), par(p2), {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), digits(doc[2]["content"], doc)


def alone(b, p1, p2, kind, appendix):
    """two paragraphs outside of all sections"""
    doc = [par(p1), par(p2), {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc)


def ended(b, p1, l1, p2, l2, kind, appendix):
    """a section ends the paragraph before it, whatever the levels"""
    doc = [par(p1), sec(l1), par(p2), sec(l2), {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return (digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), digits(doc[2]["content"], doc),
            digits(doc[3]["content"], doc))


def deep(b, l1, l2, p1, kind, appendix):
    """two sections, a paragraph in the inner one"""
    doc = [sec(l1), sec(l2), par(p1), {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), digits(doc[2]["content"], doc)


def bibliography(b, l1, p1, kind, appendix):
    """a bibliography ends section and paragraph"""
    doc = [sec(l1), par(p1), {"type": "bibliography", "content": []}, {"type": kind, "content": "x"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), len(doc[2]["content"])


def appendix(b, l1, p1, l2, kind, after):
    """an appendix ends section and paragraph and holds all that follows up to the bibliography"""
    doc = [sec(l1), par(p1), {"type": "appendix"}, {"type": kind, "content": "x"}, sec(l2), {"type": "text", "content": "y"},
           {"type": "bibliography", "content": []}, {"type": "text", "content": "z"}]
    out = b._recursive_organize(doc, after)
    return (digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], doc), digits(doc[2]["content"], doc),
            digits(doc[4]["content"], doc))


def held(b, l1, l2, kind, appendix):
    """what a token holds is organized on its own: nothing leaves it and it ends no section outside"""
    inner = [sec(l2), {"type": "text", "content": "y"}]
    doc = [sec(l1), {"type": kind, "content": inner}, {"type": "text", "content": "z"}]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[0]["content"], doc), digits(doc[1]["content"], inner), digits(inner[0]["content"], inner)


def words(b, l1, appendix):
    """what is no dictionary keeps its place"""
    x = [1]
    y = [2]
    doc = [x, sec(l1), y]
    out = b._recursive_organize(doc, appendix)
    return digits(out, doc), digits(doc[1]["content"], doc)


def lists(b, l1, kind, appendix, depth):
    """the depth of a list is the number of lists around it, and it starts again at no other token"""
    inner = {"type": "list", "content": []}
    item = {"type": kind, "content": [inner]}
    outer = {"type": "list", "content": [item]}
    second = {"type": "list", "content": []}
    doc = [sec(l1), outer, second]
    out = b._recursive_organize(doc, appendix, depth)
    return (outer["depth"], inner["depth"], second["depth"], digits(out, doc), digits(doc[0]["content"], doc),
            digits(outer["content"], [item]), digits(item["content"], [inner]))


def text(content, bold, label):
    t = {"type": "text", "content": content}
    if bold:
        t["styles"] = ["bold"]
    if label:
        t["labels"] = [label]
    return t


def joined(b, x, y, same, bold, l1, l2, merge):
    """two texts and what the caller keeps"""
    doc = [text(x, bold, l1), text(y, bold if same else not bold, l2)]
    b.merge_proof_environments = merge
    out = b.organize_content(doc)
    return (len(out), out[0]["content"], out[-1]["content"], "styles" in out[0], "styles" in out[-1],
            "+".join(out[0].get("labels", [])), "+".join(out[-1].get("labels", [])),
            doc[0]["content"], doc[1]["content"], len(doc), out[0] is doc[0] or out[-1] is doc[1])


def parted(b, x, y, z, kind, merge):
    """what is no text parts texts, and holds its own"""
    doc = [text(x, False, ""), {"type": kind, "name": "n", "content": [text(y, False, ""), text(z, False, "")]}, text(z, False, "")]
    b.merge_proof_environments = merge
    out = b.organize_content(doc)
    return (len(out), out[0]["content"], out[1]["type"], out[1]["name"], len(out[1]["content"]), out[1]["content"][0]["content"], out[2]["content"],
            len(doc), len(doc[1]["content"]), doc[1]["content"][0]["content"], out[1] is doc[1] or out[1]["content"] is doc[1]["content"])


def titled(b, x, y, z, level):
    """the title of a section is joined like other texts, the section of the caller stays as it is"""
    doc = [{"type": "section", "level": level, "numbered": False, "title": [text(x, False, ""), text(y, False, "")]}, text(z, False, "")]
    out = b.organize_content(doc)
    return (len(out), len(out[0]["title"]), out[0]["title"][0]["content"], len(out[0]["content"]), out[0]["content"][0]["content"], out[0]["level"],
            len(doc), "content" in doc[0], len(doc[0]["title"]), doc[0]["title"][0]["content"])


def cells(b, x, y):
    """cells of a table are not joined, the parts of a cell are"""
    doc = [{"type": "tabular", "content": [[text(x, False, ""), [text(x, False, ""), text(y, False, "")]], [text(y, False, "")]]}]
    out = b.organize_content(doc)
    rows = out[0]["content"]
    return (len(out), len(rows), len(rows[0]), len(rows[1]), rows[0][0]["content"], len(rows[0][1]), rows[0][1][0]["content"], rows[1][0]["content"],
            len(doc[0]["content"][0][1]))


def twice(b, x, l1, l2, kind):
    """one builder, the same tokens, two builds"""
    doc = [text(x, False, ""), sec(l1), {"type": kind, "content": x, "numbered": True}, sec(l2), text(x, False, "")]
    first = b.organize_content(doc)
    second = b.organize_content(doc)
    return (len(first), len(second), len(first[1]["content"]), len(second[1]["content"]), first[1]["content"][0].get("numbering"),
            second[1]["content"][0].get("numbering"), "content" in doc[1], "numbering" in doc[2])
