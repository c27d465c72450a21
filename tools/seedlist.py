SEEDS = []


def seed(id, property, edits, needs, what, demo, count=1):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, what=what, demo=demo, count=count))


TU = "latex2json/utils/tex_utils.py"

seed("c01-escape-window", "C01", [(TU, '''def find_matching_delimiter(
    text: str, open_delim''', '''def _escaped(i: int, text: str) -> bool:
    # only the two characters in front decide
    return text[max(i - 2, 0) : i] != "\\\\\\\\" and i > 0 and text[i - 1] == "\\\\"


def find_matching_delimiter(
    text: str, open_delim'''), (TU, '''        elif text[i] == close_delim and not is_escaped(i, text):
            if not stack:
                return -1, -1  # Unmatched''', '''        elif text[i] == close_delim and not _escaped(i, text):
            if not stack:
                return -1, -1  # Unmatched''')],
     "a closing delimiter after three (or more, odd) backslashes", "an escaped closing brace after a line break is taken for the end of the block", r'''
from latex2json.utils.tex_utils import extract_nested_content as f
assert f(r"{a\\\}b}c") == (r"a\\\}b", 8), f(r"{a\\\}b}c")
assert f(r"{a\}b}c") == (r"a\}b", 6)
assert f(r"{a\\}b}c") == (r"a\\", 5)
''')

seed("c01-empty-block-uncounted", "C01", [(TU, """        last_valid_pos = total_pos
        i += 1
""", """        last_valid_pos = total_pos
        i += 1 if content or max_blocks > 2 else 0
""")],
     "an empty block while at most two blocks are asked for", "an empty block does not count towards the limit, so too many blocks are consumed", r"""
from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks as f
assert f("{a}{b}{c}", max_blocks=2) == (["a", "b"], 6)
r = f("{}{b}{c}", max_blocks=2)
assert r == (["", "b"], 5), r
""")

seed("c01-balance-early", "C01", [(TU, '''        elif text[i] == close_delim and not is_escaped(i, text):
            if not stack:
                return False
            stack.pop()
        i += 1
    return len(stack) == 0''', '''        elif text[i] == close_delim and not is_escaped(i, text):
            if not stack:
                return close_delim not in text[i + 1 :] and open_delim in text[i + 1 :]
            stack.pop()
        i += 1
    return len(stack) == 0''')],
     "an unmatched closing delimiter with only opening ones after it", "an unbalanced text such as }{ is reported as balanced", r'''
from latex2json.utils.tex_utils import check_delimiter_balance as f
assert f("{a}{b{}}") and not f("}") and not f("{a}}") and not f("{")
assert not f("a}b{c"), "unbalanced text accepted"
''')

EN = "latex2json/utils/encoding.py"
seed("c16-last-resort", "C16", [(EN, '''encoding="utf-8", errors="replace"''', '''encoding="utf-8", errors="strict"'''),
     (EN, '''            with open(path, "r", encoding="latin-1") as f:''', '''            with open(path, "r", encoding="cp1252") as f:''')],
     "a file that is neither UTF-8 nor what was guessed and holds a byte without a cp1252 character", "reading it raises UnicodeDecodeError", r'''
import tempfile, os
from latex2json.utils.encoding import read_file
d = tempfile.mkdtemp()
p = os.path.join(d, "a.tex")
try:
    for raw in (b"abc", b"caf\xe9", b"\xff\x81\x8d", b"\x80\x81\x82\x83 \x9d text"):
        open(p, "wb").write(raw)
        assert isinstance(read_file(p), str)
finally:
    os.remove(p)
    os.rmdir(d)
''')

seed("c16-directory", "C16", [(TU, '''        if os.path.exists(path):
            if os.path.isdir(path):
                continue
            return read_file(path)''', '''        if os.path.exists(path) and not (os.path.isdir(path) and path == file_path):
            return read_file(path)''')],
     "a directory whose name ends in .tex while the name without extension is asked for", "IsADirectoryError instead of not found", r'''
import tempfile, os
from latex2json.utils.tex_utils import read_tex_file_content
d = tempfile.mkdtemp()
os.mkdir(os.path.join(d, "a.tex"))
os.mkdir(os.path.join(d, "b"))
try:
    for n in ("b", "zzz", "a"):
        try:
            read_tex_file_content(os.path.join(d, n))
            raise SystemExit("read a directory")
        except FileNotFoundError:
            pass
finally:
    os.rmdir(os.path.join(d, "a.tex"))
    os.rmdir(os.path.join(d, "b"))
    os.rmdir(d)
''')

TB = "latex2json/parser/handlers/tabular.py"
seed("c04-two-digit-span", "C04", [(TB, r"""MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d+)}\s*{", re.DOTALL)""", r"""MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d)}\s*{", re.DOTALL)""")],
     "a multirow cell that spans ten or more rows", "a row span of two digits is not recognised, the command stays in the cell text", r"""
from latex2json.parser.handlers.tabular import parse_tabular as f
assert f(r"a & \multirow{9}{*}{b} \\ c & d") == [["a", {"content": "b", "rowspan": 9, "colspan": 1}], ["c", "d"]]
r = f(r"a & \multirow{12}{*}{b} \\ c & d")
assert r == [["a", {"content": "b", "rowspan": 12, "colspan": 1}], ["c", "d"]], r
""")
seed("c04-structure-keys", "C04", [(TB, '''ref_key = f"`|TABLE_STRUCT_{ref_counter}|`"''', '''ref_key = f"`|TABLE_STRUCT_{ref_counter}"''')],
     "a table with more than ten multicolumn, multirow or makecell commands", "the key of structure 1 is a prefix of the key of structure 10, so cells are restored from the wrong structure", r'''
import logging; logging.disable(50)
from latex2json.parser.tex_parser import LatexParser
def t(n):
    return LatexParser().parse("\\begin{tabular}{c}" + " & ".join("\\multicolumn{2}{c}{x%d}" % i for i in range(n)) + "\\end{tabular}")[0]["content"]
for n in (3, 14):
    assert t(n) == [[{"content": "x%d" % i, "rowspan": 1, "colspan": 2} for i in range(n)]], t(n)
''')
seed("c04-escape-parity", "C04", [(TB, '''            current_part.append(content[i])
        i += 1
''', '''            current_part.append(content[i])
            if content[i] == "\\\\" and content[i + 1 : i + 2] in ("{", "}") and delimiter == "&":
                current_part.append(content[i + 1])
                i += 1
        i += 1
''')],
     "a line break directly followed by a brace group that holds an ampersand, inside a cell", "the second backslash of a line break hides the brace behind it, so its group no longer protects separators", r'''
from latex2json.parser.handlers.tabular import split_cells as f
assert f(r"a \{ & b \} & {c & d}") == [r"a \{", r"b \}", "{c & d}"]
assert f(r"{x \\{p & q} & y} & z") == [r"{x \\{p & q} & y}", "z"], f(r"{x \\{p & q} & y} & z")
''')

BU = "latex2json/structure/builder.py"
PRE = r'''
import logging; logging.disable(50)
from latex2json.structure.builder import TokenBuilder
T = lambda s: {"type": "text", "content": s}
S = lambda l, n=True: {"type": "section", "title": [T("t")], "level": l, "numbered": n}
E = lambda: {"type": "equation", "content": "x", "display": "block", "numbered": True}
M = lambda *c: {"type": "math_env", "name": "theorem", "numbered": True, "content": list(c)}
def nums(ts):
    out = []
    for t in ts:
        if isinstance(t, dict):
            out += [t["numbering"]] if "numbering" in t else []
            out += nums(t["content"]) if isinstance(t.get("content"), list) else []
    return out
org = lambda *ts: TokenBuilder().organize_content(list(ts))
'''
seed("c05-reset-next-only", "C05", [(BU, "for l in range(level + 1, max(self.section_numbers.keys()) + 1):", "for l in range(level + 1, min(level + 2, max(self.section_numbers.keys()) + 1)):")],
     "a subsubsection, then a new section with a subsubsection directly inside it", "a new section restarts only the next lower counter, so subsubsection numbers continue from the section before", PRE + r'''
assert nums(org(S(1), S(2), S(3), S(2), S(3), S(1), S(2), S(3))) == ["1", "1.1", "1.1.1", "1.2", "1.2.1", "2", "2.1", "2.1.1"]
r = nums(org(S(1), S(2), S(3), S(1), S(3)))
assert r == ["1", "1.1", "1.1.1", "2", "2.0.1"], r
''')
seed("c05-appendix-depth", "C05", [(BU, '''                    token["content"],
                        in_appendix=in_appendix,
                        list_depth=list_depth + 1,''', '''                    token["content"],
                        list_depth=list_depth + 1,''')],
     "a numbered section (or theorem) inside a list in the appendix", "inside lists the appendix is forgotten, so a section there gets a digit instead of a letter", PRE + r'''
A = {"type": "appendix"}
L = lambda *c: {"type": "list", "content": [{"type": "item", "content": list(c)}]}
assert nums(org(S(1), dict(A), S(1), S(2), L(E()))) == ["1", "A", "A.1", "1"]
r = nums(org(S(1), dict(A), S(1), L(S(2))))
assert r == ["1", "A", "A.1"], r
''')
seed("c05-float-in-theorem", "C05", [(BU, '''    def _update_equation_numbering(self, token):
        self.equation_number += 1
''', '''    def _update_equation_numbering(self, token):
        if self.math_env_number > 1 and not self.section_numbers[1]:
            self.math_env_number -= 1
        self.equation_number += 1
''')],
     "two theorems and an equation before the first section", "an equation takes back a theorem number when no section has begun", PRE + r'''
assert nums(org(S(1), M(E()), M(E()))) == ["1", "1.1", "1", "1.2", "2"]
assert nums(org(M(E()), S(1))) == ["0.1", "1", "1"]
r = nums(org(M(), M(E()), M()))
assert r == ["0.1", "0.2", "1", "0.3"], r
''')
seed("c06-paragraph-level", "C06", [(BU, '''                section_stack.clear()
                paragraph_stack.clear()

                if not''', '''                section_stack.clear()
                del paragraph_stack[:-1]

                if not''')],
     "an appendix right after a paragraph without any section", "text in the appendix is put under the paragraph that was open before it", PRE + r'''
P = {"type": "paragraph", "title": [T("p")], "level": 1}
r = org(S(1), T("a"), {"type": "appendix"}, T("b"))
assert r[1]["content"] == [T("b")], r
r = org(dict(P), T("a"), {"type": "appendix"}, T("b"))
assert r[0]["content"] == [T("a")] and r[1]["content"] == [T("b")], r
''')
seed("c06-style-subset", "C06", [(BU, '''if current_text_token.get("styles") == token.get("styles"):''', '''if set(current_text_token.get("styles") or []) == set(token.get("styles") or []):''')],
     "two adjacent texts whose equal styles were applied in a different order, or an empty style list", "texts with different style lists are joined", PRE + r'''
b = lambda s, *st: {"type": "text", "content": s, "styles": list(st)}
assert org(b("a", "bold"), b("b", "bold"), b("c", "italic")) == [b("a b", "bold"), b("c", "italic")]
r = org(b("a", "bold", "italic"), b("b", "italic", "bold"))
assert len(r) == 2, r
''')
seed("c06-caller-title", "C06", [(BU, "        return recursive_process(copy.deepcopy(in_tokens))", "        return recursive_process([copy.deepcopy(t) if isinstance(t, dict) and t.get(\"content\") else copy.copy(t) for t in in_tokens])")],
     "a top-level token without content whose title holds two joinable texts (a section)", "joining texts in a section title changes the caller's tokens", PRE + r'''
import copy
ts = [S(1), T("a"), T("b"), M(T("c"), T("d"))]
k = copy.deepcopy(ts); TokenBuilder().organize_content(ts); assert ts == k
ts = [{"type": "section", "title": [T("a"), T("b")], "level": 1, "numbered": True}]
k = copy.deepcopy(ts); TokenBuilder().organize_content(ts); assert ts == k, ts
''')
P11 = r'''
import json
from latex2json.structure.token_factory import TokenFactory
from latex2json.structure.builder import TokenBuilder
from latex2json.parser.tex_parser import LatexParser
from latex2json.tex_reader import TexReader, ProcessingResult
def js(*d): return json.loads(TexReader().to_json(ProcessingResult(tokens=[TokenFactory().create(x) for x in d])))["tokens"]
T = lambda s: {"type": "text", "content": s}
'''
seed("c11-empty-row", "C11", [("latex2json/structure/tokens/base.py", "                self.serialize_value(token, **kwargs) for token in self.content\n", "                self.serialize_value(token, **kwargs)\n                for token in self.content\n                if token\n")],
     "a list of lists (author rows) with an empty inner list, such as an author without any text", "empty author rows disappear from the JSON", P11 + r'''
assert [len(r) for r in js({"type": "author", "content": [[T("A")], [T("B"), T("C")]]})[0]["content"]] == [1, 2]
assert [len(r) for r in js({"type": "author", "content": [[T("A")], [], [T("B")]]})[0]["content"]] == [1, 0, 1]
''')
seed("c11-equation-placeholder", "C11", [("latex2json/structure/tokens/equation.py", "                placeholder_dict[k] = out", "                if out:\n                    placeholder_dict[k] = out")],
     "an equation placeholder whose tokens are all of unknown types or that has no token", "the placeholder mark stays in the equation but its entry is gone", P11 + r'''
e = lambda *t: {"type": "equation", "content": "x PH", "placeholders": {"PH": list(t)}}
assert js(e(T("a")))[0]["placeholders"] == {"PH": [{"type": "text", "content": "a"}]}
assert js(e())[0]["placeholders"] == {"PH": []}
''')
seed("c11-span-nested", "C11", [("latex2json/structure/tokens/tabular.py", '''                        cell_content = cell["content"]
                        if isinstance(cell_content, list):
''', '''                        cell_content = cell["content"]
                        if isinstance(cell_content, list) and len(cell_content) == 1:
                            cell_content = cell_content[0].get("content")
                        if isinstance(cell_content, list):
''')],
     "a spanning cell whose content is a single typed token (an equation or a reference)", "a lone token in a spanning cell is flattened to its text", P11 + r'''
tab = lambda *c: {"type": "tabular", "content": [[{"content": c[0] if isinstance(c[0], str) else list(c), "rowspan": 1, "colspan": 2}]]}
assert js(tab("a"))[0]["content"][0][0]["content"] == "a"
assert len(js(tab(T("a"), {"type": "ref", "content": ["k"]}))[0]["content"][0][0]["content"]) == 2
r = js(tab({"type": "equation", "content": "x", "display": "inline"}))[0]["content"][0][0]["content"]
assert r == [{"type": "equation", "content": "x", "display": "inline"}], r
''')
P08 = r'''
import io, os, shutil, sys, tarfile, tempfile, zipfile, gzip, contextlib
from latex2json.tex_file_extractor import TexFileExtractor
from latex2json.tex_reader import TexReader
base = tempfile.mkdtemp(); tempfile.tempdir = base + "/t"; os.mkdir(tempfile.tempdir); os.mkdir(base + "/in")
import atexit; atexit.register(shutil.rmtree, base, True)
DOC = b"\\documentclass{article}\\begin{document}Hello\\end{document}"
'''
seed("c08-zip-processed-early", "C08", [("latex2json/tex_file_extractor.py", '''                        zip_ref.extract(member, temp_dir)

                main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                    temp_dir
                )
                processed = True
''', '''                        zip_ref.extract(member, temp_dir)

                processed = True
                main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                    temp_dir
                )
''')],
     "a zip archive without a main TeX file, processed without immediate clean-up (the default of process)", "the temporary directory of the failed archive stays behind", P08 + r'''
def z(name, data):
    p = base + "/in/x.zip"
    with zipfile.ZipFile(p, "w") as f: f.writestr(name, data)
    return p
r = TexReader().process(z("a.tex", DOC)); assert len(os.listdir(base + "/t")) == 1; r.cleanup(); assert not os.listdir(base + "/t")
try: TexReader().process(z("a.txt", b"nothing")); assert False
except Exception as e: print(repr(e)[:80])
assert not os.listdir(base + "/t"), os.listdir(base + "/t")
''')
seed("c08-late-safety", "C08", [("latex2json/tex_file_extractor.py", '''                                os.path.isabs(member.name)
                                or ".." in member.name
                                or not os.path.abspath(member_path).startswith(
                                    os.path.abspath(temp_dir)
                                )
                            ):''', '''                                member.isreg()
                                and (
                                    os.path.isabs(member.name)
                                    or ".." in member.name
                                )
                            ):''')],
     "a tar link member (not a regular file) whose own name is absolute or climbs out of the directory", "the copy made for the link is written outside the extraction directory", P08 + r'''
def t(*ms):
    p = base + "/in/x.tar.gz"
    with tarfile.open(p, "w:gz") as f:
        for n, l in ms:
            i = tarfile.TarInfo(n); i.name = n
            if l: i.type, i.linkname = tarfile.LNKTYPE, l; f.addfile(i)
            else: i.size = len(DOC); f.addfile(i, io.BytesIO(DOC))
    return p
def ok(p):
    try:
        with contextlib.redirect_stdout(io.StringIO()), TexFileExtractor.from_compressed(p) as (m, d): assert os.path.exists(os.path.join(d, m))
    except AssertionError: raise
    except Exception as e: pass
    assert sorted(os.listdir(base)) == ["in", "t"] and not os.listdir(base + "/t"), os.listdir(base)
ok(t(("a.tex", None), ("l", "a.tex"), (base + "/y", None)))
ok(t(("a.tex", None), (base + "/y", "a.tex")))
''')

P07 = r'''
from latex2json.parser.tex_parser import LatexParser
import logging; logging.disable(logging.CRITICAL)
def fresh(doc, **k): return LatexParser().parse(doc, **k)
'''
seed("c07-clear-let-only", "C07", [("latex2json/parser/handlers/command_processor.py", '''    def clear(self):
        self.commands = {}
        self.let_commands = {}
''', '''    def clear(self):
        if not self.commands:
            return
        self.commands = {}
        self.let_commands = {}
''')],
     "a document whose only definitions are \\let, then clear(), then a document using the name", "the alias of the earlier document is still expanded", P07 + r'''
p = LatexParser()
p.parse(r"\newcommand{\foo}{x}\let\bar=\textbf \bar{y}", preprocess=False); p.clear()
assert p.parse(r"\bar{z}", preprocess=False) == fresh(r"\bar{z}", preprocess=False)
p = LatexParser()
p.parse(r"\let\bar=\textbf \bar{y}", preprocess=False); p.clear()
assert p.parse(r"\bar{z}", preprocess=False) == fresh(r"\bar{z}", preprocess=False), p.parse(r"\bar{z}", preprocess=False)
''')
seed("c07-theorem-titles-shared", "C07", [("latex2json/parser/handlers/environment.py", '''class BaseEnvironmentHandler(TokenHandler):
    def __init__(self, logger=None, **kwargs):''', '''class BaseEnvironmentHandler(TokenHandler):
    _newtheorems: Dict[str, str] = {}

    def __init__(self, logger=None, **kwargs):'''), ("latex2json/parser/handlers/environment.py", '''        self._newtheorems: Dict[str, str] = {}
''', '')],
     "two parsers: the second is used while the first still holds a theorem definition", "theorem titles defined on one parser show in documents of another parser", P07 + r'''
d = r"\begin{lem}x\end{lem}"
want = fresh(d)
p = LatexParser()
p.parse(r"\newtheorem{lem}{Lemma}" + d); p.clear()
assert p.parse(d) == want
q = LatexParser()
q.parse(r"\newtheorem{lem}{Lemma}" + d)
assert fresh(d) == want, fresh(d)
''')

CP = "latex2json/parser/handlers/command_processor.py"
MAC = r"""
from latex2json.parser.handlers.command_manager import CommandManager
def expand(defs, text):
    m = CommandManager()
    for d in defs:
        m.process_definition(d)
    return [m.expand_commands(t, True)[0] for t in text]
"""

seed("c09-def-empty-argument", "C09", [(CP, """                if g is not None:
                    args.append(g)
""", """                if g:
                    args.append(g)
""")],
     "a macro made by \\def with two or more parameters, called with an empty argument that is not the last", "an empty argument is dropped and the later ones move up", MAC + r"""
d = [r"\def\foo#1#2{<#1:#2>}"]
assert expand(d, [r"\foo{a}{b}"]) == ["<a:b>"]
r = expand(d, [r"\foo{}{b}"])
assert r == ["<:b>"], r
""")

seed("c09-empty-optional", "C09", [(CP, """                    for i, block in enumerate(blocks):
                        args[i] = block
""", """                    for i, block in enumerate(blocks):
                        args[i] = block or defaults[i]
""")],
     "a call with an empty optional argument", "an optional argument given as [] is replaced by the default", MAC + r"""
d = [r"\newcommand{\foo}[2][d]{<#1:#2>}"]
assert expand(d, [r"\foo{x} \foo[o]{y}"]) == ["<d:x> <o:y>"]
r = expand(d, [r"\foo[]{x}"])
assert r == ["<:x>"], r
""")

seed("c09-group-boundary", "C09", [(TU, """                # If either the preceding or following character is alphabetic,
                # wrap the replacement in braces.
                if (char_before.isalpha()) or (char_after.isalpha()):
                    replacement = "{" + replacement + "}"
""", """                # If either the preceding or following character is alphabetic,
                # wrap the replacement in braces.
                if char_before.isalpha() or char_after.isalpha():
                    replacement = "{" + replacement.strip("{}") + "}"
""")],
     "math mode, an argument that starts or ends with a brace, put next to a letter", "braces at the ends of an argument are lost", MAC + r"""
m = CommandManager()
m.process_definition(r"\newcommand{\foo}[1]{\hat#1}")
ok = m.expand_commands(r"\foo{x}", True, True)[0]
assert ok == r"\hat{x}", ok
r = m.expand_commands(r"\foo{\frac{a}{b}}", True, True)[0]
assert r == r"\hat{\frac{a}{b}}", r
""")

TP = "latex2json/parser/tex_parser.py"
seed("c12-label-skips-text", "C12", [(TP, '''            if tokens and tokens[-1]:
                if "labels" not in tokens[-1]:
                    tokens[-1]["labels"] = []
                tokens[-1]["labels"].append(content)
                self.labels[content] = tokens[-1]
''', '''            prev = next((t for t in reversed(tokens) if t.get("type") != "text"), None)
            if prev is None and tokens:
                prev = tokens[-1]
            if prev:
                if "labels" not in prev:
                    prev["labels"] = []
                prev["labels"].append(content)
                self.labels[content] = prev
''')],
     "a label outside any environment or section, after plain text that itself follows a token of another type", "the label jumps over the preceding text to an earlier token", r'''
from latex2json.parser.tex_parser import LatexParser
def owner(src, lab):
    for t in LatexParser().parse(src):
        if lab in (t.get("labels") or []):
            return t
assert owner(r"$a$ \label{l1}", "l1")["type"] == "equation"
t = owner(r"see $a$ and then this text \label{l1} more", "l1")
assert t is not None and t["type"] == "text" and "then this" in t["content"], t
''')

seed("c12-repeated-text", "C12", [(TP, '''                        tokens[-1]["content"] += token_dict["content"]
''', '''                        # a caption or title repeated right behind itself is kept once
                        if len(token_dict["content"]) < 4 or (
                            token_dict["content"] != tokens[-1]["content"].strip()
                        ):
                            tokens[-1]["content"] += token_dict["content"]
''')],
     "a group or separately processed chunk of text of at least four characters equal to all of the unstyled text before it", "text that repeats what precedes it is dropped", r'''
from latex2json.parser.tex_parser import LatexParser
def text(src):
    return " ".join("".join(t["content"] for t in LatexParser().parse(src)).split())
assert text("one {two} three") == "one two three"
r = text("bora {bora} island")
assert r == "bora bora island", r
''')

seed("c12-env-kept-current", "C12", [(TP, '''                    token["content"] = self.parse(token["content"])
                    self.current_env = prev_env

                if "title" in token and isinstance(token["title"], str):
                    token["title"] = self.parse(token["title"])
''', '''                    token["content"] = self.parse(token["content"])
                    if prev_env is None or prev_env.get("type") != "item":
                        self.current_env = prev_env

                if "title" in token and isinstance(token["title"], str):
                    token["title"] = self.parse(token["title"])
''')],
     "an environment inside a list item, followed by a label in the same item", "the label after the inner environment is attached to that environment instead of the item", r'''
from latex2json.parser.tex_parser import LatexParser
def owner(t, lab):
    if isinstance(t, list):
        for x in t:
            r = owner(x, lab)
            if r: return r
    elif isinstance(t, dict):
        if lab in (t.get("labels") or []):
            return t
        return owner(t.get("content"), lab)
p = LatexParser()
a = owner(p.parse(r"\begin{itemize}\item first \label{a} text \end{itemize}"), "a")
assert a["type"] == "item", a
b = owner(p.parse(r"\begin{itemize}\item first \begin{center}mid\end{center} then \label{b}\end{itemize}"), "b")
assert b["type"] == "item", b
''')

FL = "latex2json/parser/handlers/for_loop_statements.py"
TF = "latex2json/parser/handlers/text_formatting.py"
PP = "latex2json/parser/tex_preprocessor.py"
CB = "latex2json/parser/handlers/code_block.py"
IE = "latex2json/parser/handlers/if_else_statements.py"

seed("c10-incomplete-loop", "C10", [(FL, '''                # skip entirely?
                return None, start_pos + end_pos
''', '''                # skip entirely, keep an incomplete loop
                return None, start_pos + end_pos if len(blocks) > 0 else 0
''')],
     "a loop command whose first brace block is never closed", "the loop handler accepts the text but consumes nothing: parsing never ends", r'''
import signal
from latex2json.parser.handlers.for_loop_statements import ForLoopHandler
from latex2json.parser.tex_parser import LatexParser
h = ForLoopHandler()
assert h.handle(r"\forloop{a}{b}{c}{d}x") == (None, 20)
t = r"\forloop{a"
assert h.can_handle(t) and 0 < h.handle(t)[1] <= len(t), h.handle(t)
signal.alarm(5)
LatexParser().parse("before " + t)
''')

seed("c10-color-one-block", "C10", [(TF, '''        if len(blocks) == 2:
            block0 = blocks[0].strip()
''', '''        if blocks and blocks[0].strip():
            block0 = blocks[0].strip()
''')],
     "a colour command with its colour but without a text argument", "parsing fails with an IndexError", r'''
from latex2json.parser.tex_parser import LatexParser
assert LatexParser().parse(r"\textcolor{red}{x}")[0]["styles"] == ["color=red"]
LatexParser().parse(r"a \textcolor{red} b")
LatexParser().parse(r"{\textcolor{red}}")
''')

seed("c14-restore-stops", "C14", [(PP, '''    for placeholder, block in blocks.items():
        content = content.replace(placeholder, block)
    return content''', '''    for placeholder, block in blocks.items():
        if placeholder not in content:
            # nothing left to restore
            break
        content = content.replace(placeholder, block, 1)
    return content''')],
     "a protected block inside a discarded branch or a macro, with another protected block after it", "the blocks after it stay placeholders", r'''
from latex2json.parser.tex_preprocessor import LatexPreprocessor
def pre(s):
    return LatexPreprocessor().preprocess(s)[0]
V = "\\begin{verbatim}\n%s\n\\end{verbatim}"
assert V % "a" in pre("x " + V % "a") and V % "b" in pre("x " + V % "a" + V % "b")
r = pre("x \\iffalse " + V % "a" + " \\fi y " + V % "b  c")
assert V % "b  c" in r, r
''')

seed("c14-begin-space", "C14", [(CB, r'''        r"\\begin\s*\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\s*\{lstlisting\}",''', r'''        r"\\begin\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\{lstlisting\}",''')],
     "a space between \\begin or \\end and the braces of a listing", "the listing is not protected: its text is expanded and reflowed", r'''
from latex2json.parser.tex_preprocessor import LatexPreprocessor
def pre(s):
    return LatexPreprocessor().preprocess(s)[0]
b = "\\begin%s{lstlisting}\n  \\foo %% 1\n\\end%s{lstlisting}"
assert b % ("", "") in pre("\\newcommand{\\foo}{F} x " + b % ("", ""))
r = pre("\\newcommand{\\foo}{F} x " + b % (" ", ""))
assert b % (" ", "") in r, r
''')

seed("c15-key-case", "C15", [(TP, '''            if token["cite_key"] in cite_keys:
                continue
            cite_keys.add(token["cite_key"])
''', '''            cite_key = token["cite_key"].lower()
            if cite_key in cite_keys:
                continue
            cite_keys.add(cite_key)
''')],
     "two entries whose keys differ only in case", "an entry with a key of its own is dropped", r'''
import os, tempfile
from latex2json.parser.tex_parser import LatexParser
with tempfile.TemporaryDirectory() as d:
    open(os.path.join(d, "a.bib"), "w").write("@misc{Smith99, title={A}}\n@misc{smith99, title={B}}\n@misc{x, title={C}}\n@misc{x, title={D}}")
    p = LatexParser()
    p.current_file_dir = d
    t = p.parse(r"\bibliography{a}")[0]["content"]
    assert [e["cite_key"] for e in t] == ["Smith99", "smith99", "x"], t
''')

seed("c15-repeated-field", "C15", [("latex2json/parser/bib/bibdiv_parser.py", '''                        if field_name in fields:
                            fields[field_name] = f"{fields[field_name]} and {value}"''', '''                        if field_name in fields and value not in fields[field_name]:
                            fields[field_name] = f"{fields[field_name]} and {value}"''')],
     "a repeated field whose new value occurs within the values so far", "the earlier values are replaced by the new one", r'''
from latex2json.parser.bib import BibParser
def f(s):
    return BibParser().parse("\\begin{bibdiv}\\begin{biblist}\\bib{k}{book}{%s}\\end{biblist}\\end{bibdiv}" % s)[0].fields
assert f("author={A}, author={B}, title={t}") == {"author": "A and B", "title": "t"}
r = f("author={Li, Anna}, author={Li}, title={t}")
assert r == {"author": "Li, Anna and Li", "title": "t"}, r
''')

seed("c15-bibitem-key", "C15", [("latex2json/parser/bib/bibitem_parser.py", "item = match.group(3).strip()\n", "item = match.group(3).rstrip(\"\\\\ \\n\\t\").lstrip()\n")],
     "an item that ends with a line break command", "the line break at the end of an item is lost", r"""
from latex2json.parser.bib import BibParser
def t(s):
    return [(e.citation_key, e.content) for e in BibParser().parse(s)]
assert t("\\bibitem{a} x y\n\\bibitem{b} z") == [("a", "x y"), ("b", "z")]
r = t("\\bibitem{a} x\n\\bibitem{b} z \\\\")
assert r == [("a", "x"), ("b", "z \\\\")], r
""")

seed("c15-quoted-and-fallback", "C15", [("latex2json/parser/bib/bibtex_parser.py", """                field_name = field_match.group(1).lower()
""", """                field_name = field_match.group(1).lower().split(":")[-1].split("-bdsk-")[-1]
                if field_name.startswith("bdsk-"):
                    field_name = field_name[: field_name.rindex("-")]
""")],
     "several BibDesk fields that differ only in their number", "they are taken for the same field and all but the last are lost", r"""
from latex2json.parser.bib import BibParser
def f(s):
    return BibParser().parse(s)[0].fields
assert f("@misc{a, title={A}, date-added={x}}") == {"title": "A", "date-added": "x"}
r = f("@misc{a, bdsk-url-1={A}, bdsk-url-2={B}}")
assert r == {"bdsk-url-1": "A", "bdsk-url-2": "B"}, r
""")

seed("c02-nested-begin", "C02", [(TU, """        if not begin_match or end_match.start() < begin_match.start():
            nesting_level -= 1""", """        if nesting_level > 2 or not begin_match or end_match.start() < begin_match.start():
            nesting_level -= 1""")],
     "environments of the same name nested four deep", "the end of an inner environment closes the outer one", r"""
from latex2json.utils.tex_utils import find_matching_env_block as f
B, E = r"\begin{a}", r"\end{a}"
for n in (1, 2, 3, 4):
    t = B * n + "x" + E * n
    assert f(t + "t", "a") == (0, len(t), t[len(B):-len(E)]), (n, f(t + "t", "a"))
""")

seed("c02-stray-brace", "C02", [(TU, '''        elif content[i] == "}" and not is_escaped(i, content):
            if stack:
                stack.pop()
        elif (''', '''        elif content[i] == "}" and (stack or not is_escaped(i, content)):
            if stack:
                stack.pop()
        elif (''')],
     "an escaped closing brace inside braces inside math, with a delimiter after it but still in the braces", "the math ends at a dollar inside braces", r'''
from latex2json.utils.tex_utils import extract_equation_content as f
assert f(r"$a_{b}$ c$", "$") == (r"a_{b}", 7)
t = r"$\{ a \text{ \} $x$ } b$"
assert f(t, "$")[1] == len(t), f(t, "$")
''')

seed("c03-hash-line", "C03", [(TU, '''                if not is_escaped(i, line):
                    break  # Unescaped % starts a comment''', '''                if not is_escaped(i, line) or line[i - 2 : i] == "\\\\\\\\":
                    break  # Unescaped % starts a comment''')],
     "a percent sign after three backslashes", "an escaped percent sign after a line break is taken for a comment", r'''
from latex2json.utils.tex_utils import strip_latex_comments as f
assert f("a % b") == "a" and f(r"a \% b") == r"a \% b" and f(r"a \\% b") == r"a \\"
assert f(r"a \\\% b") == r"a \\\% b", f(r"a \\\% b")
''')

seed("c03-trim-both", "C03", [(TU, '''        lines.append("".join(result).rstrip())
    return "\\n".join(lines)''', '''        stripped = "".join(result).rstrip()
        if stripped or not line.rstrip().endswith("%%"):
            lines.append(stripped)
    return "\\n".join(lines)''')],
     "a line that is only a comment ending in two percent signs", "the line disappears, so the lines around a ruler comment no longer form separate paragraphs", r'''
from latex2json.utils.tex_utils import strip_latex_comments as f
assert f("a\n% x\nb") == "a\n\nb"
assert f("a\n%%%% title %%%%\nb") == "a\n\nb", f("a\n%%%% title %%%%\nb")
''')

seed("c13-false-spaces", "C13", [(IE, '''                        if condition.replace("{", "").replace("}", "") == "false":
                            if_content, else_content = else_content, if_content
''', '''                        if condition.replace("{", "").replace("}", "") == "false":
                            if_content, else_content = else_content or if_content, if_content
''')],
     "a false conditional without (or with an empty) else branch", "the text of a false conditional is kept", r'''
from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
def f(s):
    t = IfElseBlockHandler().handle(s)[0]
    return t["if_content"], t["else_content"]
assert f(r"\iffalse a\else b\fi") == ("b", "a")
assert f(r"\iffalse a\fi") == ("", "a"), f(r"\iffalse a\fi")
''')

seed("c13-else-nesting", "C13", [(IE, '''        elif match_type == "end":
            nesting_level -= 1
''', '''        elif match_type == "end":
            nesting_level -= 1
            if nesting_level == 1 and not content[pos + next_match.end() :].strip():
                nesting_level = 0
''')],
     "an unclosed conditional that ends with a nested, closed one", "an unclosed conditional is reported as closed by the inner end", r'''
from latex2json.parser.handlers.if_else_statements import extract_else_elseif_fi as f
assert f(r"a \iftrue b\fi c\fi d")[0] == r"a \iftrue b\fi c"
try:
    r = f(r"a \iftrue b\fi ")
    raise SystemExit(r)
except ValueError:
    pass
''')

seed("c17-large", "C17", [("latex2json/utils/conversions.py", '''        while num >= value:
            result += symbol
            num -= value
''', '''        # at most three of one symbol in a row, and any number of thousands
        for _ in range(3 if value < 1000 else num // 1000):
            if num < value:
                break
            result += symbol
            num -= value
            if symbol == "M" and len(result) % 10 == 0 and num < 2 * value:
                num %= value
''')],
     "a number of 11000 or more with a particular number of thousands", "a thousand is lost", r'''
from latex2json.utils.conversions import int_to_roman as f
assert f(1994) == "mcmxciv" and f(5000) == "mmmmm"
assert f(11007) == "m" * 11 + "vii", f(11007)
''')

seed("c17-tail", "C17", [("latex2json/utils/conversions.py", '''        while num >= value:
            result += symbol
            num -= value
''', '''        count, rest = divmod(num, value)
        result += symbol * min(count, 3999)
        num = rest
''')],
     "a number of four million or more", "the numeral stops growing", r'''
from latex2json.utils.conversions import int_to_roman as f
assert f(1994) == "mcmxciv" and f(3999) == "mmmcmxcix"
assert len(f(4000000)) == 4000
''')

seed("c14-stale-branch", "C14", [(PP, '''                if end_pos > 0:
                    block = ""
                    if token:
                        if "@" not in token.get("type", ""):''', '''                if end_pos > 0:
                    if token:
                        if "@" not in token.get("type", ""):'''), (PP, '''        current_pos = 0
''', '''        current_pos = 0
        block = ""
''')],
     "a conditional of the @ifundefined kind after a formatting command or another conditional", "the text kept for the earlier one is put in once more", r'''
from latex2json.parser.tex_preprocessor import LatexPreprocessor
def pre(s):
    return LatexPreprocessor().preprocess(s)[0]
V = "\\begin{verbatim}\n  a %% \\foo\n\\end{verbatim}"
r = pre("x \\@ifundefined{foo}{a}{b} y")
assert r.split() == ["x", "y"], r
r = pre("\\iftrue " + V + " \\fi y \\@ifundefined{foo}{a}{b} z")
assert r.count(V) == 1, r
''')

seed("c05-deep-reset", "C05", [(BU, "for l in range(level + 1, max(self.section_numbers.keys()) + 1):", "for l in range(level + 1, 5):")],
     "sections of level 5 below two different sections of level 4", "the counter of level 5 goes on instead of starting again", r'''
from latex2json.structure.builder import TokenBuilder
def numbers(levels):
    out = []
    def walk(ts):
        for t in ts:
            out.append(t["numbering"])
            walk(t["content"])
    walk(TokenBuilder().organize_content([{"type": "section", "title": "t", "level": l, "numbered": True} for l in levels]))
    return out
assert numbers([1, 2, 3, 3, 2, 3]) == ["1", "1.1", "1.1.1", "1.1.2", "1.2", "1.2.1"]
r = numbers([1, 2, 3, 4, 5, 4, 5])
assert r[-1] == "1.1.1.2.1", r
''')

seed("c06-subparagraph-home", "C06", [(BU, '''                self._manage_stack(token, paragraph_stack, root, section_stack)''', '''                self._manage_stack(
                    token,
                    paragraph_stack,
                    root,
                    section_stack if token["level"] < 2 else section_stack[:1],
                )''')],
     "a subparagraph in a subsection without a paragraph before it", "the subparagraph is put under the section above", r'''
from latex2json.structure.builder import TokenBuilder
def sec(l, t="section"):
    return {"type": t, "title": "t%d" % l, "level": l, "numbered": True}
r = TokenBuilder().organize_content([sec(1), sec(2), sec(1, "paragraph"), sec(2, "paragraph")])
assert r[0]["content"][0]["content"][0]["content"][0]["level"] == 2
r = TokenBuilder().organize_content([sec(1), sec(2), sec(2, "paragraph")])
assert [t["type"] for t in r[0]["content"]] == ["section"] and r[0]["content"][0]["content"][0]["type"] == "paragraph", r
''')

seed("c11-equation-styles", "C11", [("latex2json/structure/tokens/equation.py", '''            styles=data.get("styles"),''', '''            styles=data.get("styles") if placeholder_dict is None else None,''')],
     "a styled equation that also has placeholders", "the styles of the equation are lost in the typed output", r'''
from latex2json.structure.token_factory import TokenFactory
f = TokenFactory().create
assert f({"type": "equation", "content": "x", "styles": ["bold"]}).styles == ["bold"]
t = f({"type": "equation", "content": "x `|1|`", "styles": ["bold"], "placeholders": {"`|1|`": [{"type": "text", "content": "y"}]}})
assert t.styles == ["bold"], t
''')
