"""C14, bounded: documents of prose, definitions, uses of macros, conditionals, comments, quotes, math and code blocks with
arbitrary contents, generated together with the words and blocks that have to come out of preprocessing, in order."""
import logging, re
from pyvc.runner import limit, Timeout, quiet

BITS = ["\\foo", "\\bar{x}", "\\fi", "\\else", "\\iftrue", "\\iffalse", "\\ifdraft", "%", "% rest", "\\%", "``q''", "`s'", "$x$", "$", "{", "}", "\\begin{center}", "\\end{figure}",
        "\\newcommand{\\foo}{Z}", "\\def\\foo{Q}", "\\vspace{2pt}", "\\hspace*{1em}", "\\usepackage{zzz}", "\\documentclass{article}", "\\noindent", "\\\\", "\\[", "#1", "##", "~", "&",
        "__VERBATIM_BLOCK__0__", "__VERBATIM_BLOCK__1__", "__CODE_BLOCK__0__", "__CODE_BLOCK__1__", "__MATH_BLOCK_0__", "__MATH_BLOCK__0__", "<PARA_BREAK>", "\\verb", "\\newif\\ifzz", "\\input{zzz}",
        "\\begin{equation}a\\end{equation}", "\\addto\\x{y}", "\\let\\a\\foo", "\\csname foo\\endcsname", "\\texttt{t}", "\\clearpage", "a", "bc", "(1)", "=", "\\'e", "\\setlength{\\x}{1pt}",
        "\\begin{algorithm}", "\\end{algorithm}"]
WS = ["", " ", "  ", "\t", " \t "]


class Doc:
    def __init__(self, rng, left):
        self.rng, self.left, self.n = rng, left, 0
        self.want = []          # ("w", word) or ("b", block)

    def word(self, keep):
        self.n += 1
        w = "Ww%dw" % self.n
        if keep:
            self.want.append(("w", w))
        return w

    def block(self, keep, inline=False):
        rng = self.rng
        self.n += 1
        k = 2 if inline else rng.randrange(3)
        n = rng.choice([0, 1, 2, 3, 5])
        if k == 2:
            c = rng.choice(WS).join(["Bb%db" % self.n] + [rng.choice(BITS) for _ in range(n)])
            d = next((d for d in rng.sample("|+!;=@-", 7) if d not in c), None)
            if d is None:
                return self.word(keep)
            s = "\\verb%s%s%s%s" % (rng.choice(["", "*"]), d, c, d)
        else:
            lines = [rng.choice(WS) + rng.choice(WS).join(rng.choice(BITS) for _ in range(rng.randrange(4))) + rng.choice(WS) for _ in range(n)]
            lines.insert(rng.randrange(len(lines) + 1), "Bb%db" % self.n)
            c = rng.choice(["\n", " ", "\n\n\n"]) + "\n".join(lines) + rng.choice(["\n", ""])
            name = ("verbatim", "lstlisting")[k]
            opt = "[language=C, x={%s}]" % rng.choice(["1", "\\foo", "a b"]) if k == 1 and rng.random() < .4 else ""
            s = "\\begin%s{%s}%s%s\\end%s{%s}" % (rng.choice(["", "", " "]), name, opt, c, rng.choice(["", "", " "]), name)
        if keep:
            self.want.append(("b", s))
        return s

    def body(self, keep, depth):
        rng, out = self.rng, []
        for _ in range(rng.randrange(1, 7)):
            self.left -= 1
            k = rng.random()
            if k < .3 or self.left < 0:
                out.append(self.word(keep))
            elif k < .55:
                out.append(self.block(keep))
            elif k < .62:
                w = self.word(keep)
                out.append(w + " " + rng.choice(["%", "% x \\foo", "% \\begin{verbatim}", "% \\end{verbatim}", "% \\verb|a", "% \\verb|a|", "%\\begin{lstlisting}a\\end{lstlisting}", "\\% \\%%x"]) + "\n" + self.word(keep))
            elif k < .7:
                out.append(rng.choice(["\\newcommand{\\foo}{Fo}", "\\def\\foo{Fo}", "\\newcommand{\\bar}[1]{<#1>}", "\\renewcommand{\\foo}[1]{[#1]}", "\\let\\fooo\\foo", "\\vspace{1pt}", "\\noindent",
                                       "$a \\foo$", "\\(b\\)", "\\begin{equation}\nc\n\\end{equation}", "``WORD''", "`WORD'", "\\usepackage{zzz}", "\\\\", "\\foo", "\\&", "\n\n",
                                       "\\begin{algorithm}\n WORD\n\\end{algorithm}", "\\@ifundefined{foo}{a}{b}", "\\@ifpackageloaded{zz}{a}{b}", "\\@ifclassloaded{zz}{}{\\relax}", "\\\\verb|WORD|", "\\\\verb+ WORD", "VERBATIM_BLOCK", "__CODE_BLOCK__0__", "__VERBATIM_BLOCK__0__", "CODE_BLOCKX", "__MATH_BLOCK_0__"]))
                if "WORD" in out[-1]:
                    out[-1] = out[-1].replace("WORD", self.word(keep))
            elif k < .78 and depth < 3:
                a, b = rng.random() < .5, rng.random() < .6
                s = ("\\iftrue " if a else "\\iffalse ") + self.body(keep and a, depth + 1)
                if b:
                    s += " \\else " + self.body(keep and not a, depth + 1)
                out.append(s + " \\fi")
            elif k < .88 and depth < 3:
                out.append(rng.choice(["\\begin{center}%s\\end{center}", "\\bar{%s}", "{\\bf %s}", "\\section{%s}", "\\emph{%s}", "\\footnote{ %s }", "\\begin{itemize}\\item %s\\end{itemize}"]) % self.body(keep, depth + 1))
            else:
                out.append(self.word(keep) + rng.choice(["", " ", ", ", "\\%", " 5\\% ", "\\\\", " \\& "]) + self.block(keep, True) + rng.choice(["", ".", " "]))
        s = out[0]
        for x in out[1:]:
            s += rng.choice(["\n", " ", "\n\n", " \n "]) + x
        return s


def judge(text, out, tokens, want):
    pos = 0
    for kind, s in want:
        i = out.find(s, pos)
        if i < 0:
            j = re.search("[WB][bw]\\d+[bw]", s).group()
            at = out.find(j)
            return "the %s %r %s" % ("text" if kind == "w" else "block", s, "is missing" if at < 0 else "comes out as %r" % out[max(0, at - 60):at + 80] if kind == "b" and out.find(s) < 0 else "is out of order")
        pos = i + len(s)
    for w, n in (("[WB][bw]\\d+[bw]", len(want)),):
        got = re.findall(w, out)
        if len(got) != n:
            return "%d words and blocks come out, there are %d: %r" % (len(got), n, got[:6])
    # between two of them none of the bits of a block is left over
    for name in ("CODE_BLOCK", "VERBATIM_BLOCK", "MATH_BLOCK"):
        for what, o in (("text", out), ("definitions", str(tokens))):
            for m in re.finditer("_*%sX*_*\\d*_*" % name, o):
                if m.group() not in text:
                    return "the placeholder %r is left in the %s" % (m.group(), what)
    return None


def run(b):
    from latex2json.parser.tex_preprocessor import LatexPreprocessor, restore_placeholder_blocks
    from latex2json.parser.tex_parser import LatexParser
    logging.disable(logging.CRITICAL)
    rng = b.rng
    p = LatexPreprocessor()
    quick = b.tier == "quick"
    b.begin("protect")
    while not b.full(.3) and b.parts[b.part] < (1500 if quick else 30000):
        d = Doc(rng, 20)
        src = " ".join(d.block(True) if rng.random() < .5 else rng.choice(BITS) for _ in range(rng.randrange(40)))
        b.case(src)
        with limit(5), quiet():
            text, blocks = p._extract_verbatim_blocks(src)
            back = restore_placeholder_blocks(text, blocks)
        if back != src:
            i = next((i for i in range(min(len(back), len(src))) if back[i] != src[i]), min(len(back), len(src)))
            b.fail(("protect", src), "protecting and restoring the code blocks of %r changes it at %d: %r" % (src, i, back[i:i + 60]), source=src, text=text, blocks=blocks)
            return
        for s in [s for k, s in d.want if k == "b"]:
            if s in text:
                # fully visible: only if an unfinished block in front swallows its beginning
                if not any(s in v for v in blocks.values()) and not re.search(r"\\verb|\\begin\s*\{(verbatim|lstlisting|algorithm)", text.split(s)[0]):
                    b.fail(("extract", src), "the block %r of %r is not protected" % (s, src), source=src, text=text)
                    return
    b.begin("documents")
    while not b.full(.8) and b.parts[b.part] < (1200 if quick else 30000):
        d = Doc(rng, rng.choice([2, 4, 8, 16, 40]))
        src = d.body(True, 0)
        b.case(src)
        try:
            with limit(20), quiet():
                p.clear()
                out, tokens = p.preprocess(src)
        except Timeout:
            b.fail(("endless", src), "preprocessing of %r does not end" % src, source=src)
            return
        why = judge(src, out, tokens, d.want)
        if why:
            b.fail(src, "preprocessing %r: %s" % (src, why), source=src, out=out)
            if len(b.bad) > 5:
                return
    # prose, comments and blocks: the code tokens of the parser
    b.begin("code tokens")
    q = LatexParser()
    while not b.full() and b.parts[b.part] < (400 if quick else 10000):
        d = Doc(rng, 20)
        parts = []
        for _ in range(rng.randrange(1, 8)):
            k = rng.random()
            parts.append(d.word(True) if k < .4 else d.word(True) + rng.choice([" % x\n", " %\\begin{verbatim}\n"]) if k < .6 else "\\newcommand{\\foo}{Fo} \\foo" if k < .7 else d.block(True))
        src = "\n".join(parts)
        if rng.random() < .3:
            src = "\\begin{center}\n%s\n\\end{center}" % src if not any(x in src for x in ("center",)) else src
        b.case(src)
        with limit(5), quiet():
            q.clear()
            toks = q.parse(src, preprocess=True)
        got = []

        def walk(t):
            for x in t:
                if x.get("type") == "code":
                    got.append(x["content"])
                elif isinstance(x.get("content"), list):
                    walk(x["content"])
        walk(toks)
        want = []
        for k, s in d.want:
            if k == "b":
                m = re.match(r"\\verb\*?(.)(.*)\1$", s) or re.match(r"\\begin\s*\{(\w+)\}(?:\[[^\]]*\])?(.*?)\\end\s*\{\w+\}$", s, re.S)
                want.append(m.group(2).strip())
        if got != want:
            i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
            b.fail(("code", src), "parsing %r: code block number %d comes out as %r, the source has %r" % (src, i, got[i:i + 1], want[i:i + 1]), source=src, tokens=toks)
            if len(b.bad) > 5:
                return
