"""Harness of C15: bibliography files with the entries they hold given to the real LatexParser._parse_bib_file (the reader of one file is a
stand-in that hands out the entries), and entries made of arbitrary fields."""
import os
from latex2json.parser.bib.bibtex_parser import BibTexEntry


def joined(folder, name):
    """stands for os.path.join: one and the same path for the same folder and name"""
    return folder + "/" + name


class Files:
    """stands for BibParser: the n-th file asked for holds the n-th list of entries, or cannot be read"""

    def __init__(self, held):
        self.held = held
        self.asked = []

    def clear(self):
        pass

    def parse_file(self, path):
        self.asked.append(path)
        entries = self.held[len(self.asked) - 1]
        if entries is None:
            raise OSError(path)
        return entries


def firsts(entries):
    """of several entries with the same key the first"""
    out = []
    for e in entries:
        new = True
        for o in out:
            if o.citation_key == e.citation_key:
                new = False
        if new:
            out.append(e)
    return out


def represents(token, e):
    return (token["type"] == "bibitem" and token["cite_key"] == e.citation_key and token["content"] == e.content and token["format"] == e.format
            and token["label"] == e.label and token["fields"] is e.fields)


def read(p, names, folder, held):
    p.bib_parser = Files(held)
    p.current_file_dir = folder
    token = p._parse_bib_file(names)
    want = firsts([e for entries in held if entries is not None for e in entries])
    got = token["content"]
    if token["type"] != "bibliography" or len(got) != len(want):
        return False
    for i in range(len(want)):
        if not represents(got[i], want[i]):
            return False
    return True


def entry(key, text):
    return BibTexEntry(citation_key=key, content=text, label=text, fields={"title": text, "key": key}, entry_type="article")


def one_file(p, a, b, c, d, s):
    """four entries in one file"""
    return read(p, "refs", None, [[entry(a, s), entry(b, "B"), entry(c, "C"), entry(d, s)]]) and p.bib_parser.asked == ["refs"]


def two_files(p, a, b, c, d, s):
    """entries in two of three files, the one between them cannot be read; blanks and empty names in the list"""
    return (read(p, " one,two ,, three ", None, [[entry(a, s), entry(b, "B")], None, [entry(c, "C"), entry(d, s)]])
            and p.bib_parser.asked == ["one", "two", "three"])


def in_folder(p, folder, a, b, s):
    """the names are taken relative to the folder of the document"""
    asked = [os.path.join(folder, "one"), os.path.join(folder, "two")] if folder else ["one", "two"]
    return read(p, "one,two", folder, [[entry(a, s)], [entry(b, "B")]]) and p.bib_parser.asked == asked


def no_entries(p):
    return read(p, "one,two", None, [[], None]) and read(p, "", None, []) and read(p, " , ", None, [])


def made(kind, key, v, w):
    """an entry made of its fields keeps them"""
    e = BibTexEntry.from_bibtex(kind, key, {"title": v, "year": w})
    none = BibTexEntry.from_bibtex(kind, key, {})
    return (e.citation_key == key and e.entry_type == kind and e.format == "bibtex" and len(e.fields) == 2 and e.fields["title"] == v and e.fields["year"] == w
            and none.citation_key == key and none.entry_type == kind and len(none.fields) == 0)
