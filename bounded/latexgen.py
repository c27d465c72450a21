"""Random LaTeX documents: grammar based (mostly well formed) and fragment soup (anything)."""
FRAG = [r'\begin{', r'\end{', 'equation', '}', 'tabular', '{', '}', '[', ']', '$', '$$', '\\', '\\\\', '%', '\n', ' ', 'a', 'bc', '1', '#1', r'\item', r'\section', r'\footnote', r'\caption', r'\label', r'\ref', r'\cite',
        r'\textbf', r'\it', r'\bf', r'\if', r'\iffalse', r'\else', r'\fi', r'\verb|', r'\href', r'\url', r'\author', r'\title', r'\begin{tikzpicture}', r'\end{tikzpicture}', r'\begin{overpic}', r'\begin{theorem}', r'\end{theorem}',
        r'\begin{itemize}', r'\end{itemize}', r'\begin{figure}', r'\end{figure}', r'\begin{tabular}{cc}', r'\end{tabular}', '&', r'\multicolumn{2}{c}', r'\parbox', r'\fbox', r'\foreach', r'\forloop', r'\ifthenelse', r'\ifx',
        r'\input', r'\bibliography', r'\begin{thebibliography}', r'\bibitem', r"\'e", r'\"', r'\color', r'\ensuremath', r'\phantom', r'\subfloat', r'\savebox', r'\usebox', r'\csname', r'\endcsname',
        r'\(', r'\)', r'\[', r'\]', r'\begin{align}', r'\end{align}', r'\appendix', r'\paragraph', r'\abstract', r'\includegraphics', r'\makebox', r'\hspace', r'\vskip 1pt', r'\setlength', r'\today', '~', '|', ',', '=', '*',
        r'\begin{verbatim}', r'\end{verbatim}', r'\footnotemark', r'\mathchoice', r'\bm', r'\textcolor', r'\char', r'\hyperref', r'\subsection*', r'\newline', r'\par', r'\affil', r'\thanks', r'\email', r'\crefrange',
        r'\citealias', r'\defcitealias', r'\keywords', r'\tabular', r'\endtabular', r'\mbox', r'\underline', r'\begin{subfigure}', r'\begin{minipage}', r'\begin{algorithm}', r'\begin{algorithmic}', r'\begin{table}',
        r'\crefname', r'\definecolor', r'\floatname', r'\captionof', r'\graphicspath', r'\string', r'\romannumeral', r'\uppercase', r'\textsuperscript', r'\raisebox', r'\adjustbox', r'\rotatebox', r'\resizebox', r'\scalebox',
        r'\includepdf', r'\bookmark', r'\begin{lstlisting}', r'\end{lstlisting}', r'\begin{quote}', r'\end{quote}', r'\begin{proof}', r'\end{proof}', r'\multirow{2}{*}', r'\makecell', r'\intertext', r'\tag', r'\nonumber', r'\date',
        r'\maketitle', r'\begin{document}', r'\end{document}', r'\begin{abstract}', r'\end{abstract}', r'\begin{enumerate}', r'\begin{description}', r'\begin{subequations}', r'\part', r'\chapter', r'\subparagraph', r'\tableofcontents',
        r'\ifdefined', r'\IfFileExists', r'\or', r'\elsif', r'\@ifstar', r'\@', r'\textcolor{red}', r'\colorbox', r'\framebox', r'\pagestyle', r'\thispagestyle', r'\vspace{1em}', r'\noindent', r'\centering', r'\hline', r'\cline{1-2}',
        'é', '“', '\t', '\x0b', '\x00', '\u2028', r'\&', r'\%', r'\$', r'\_', r'\{', r'\}', r'\#', r'\^', r'\~', "'", '"', '`', '--', '---', '<', '>', ';', ':', '@', '/', '(', ')', '-', '+', '.', '?', '!',
        r'\array', r'\endarray', r'\list', r'\endlist', r'\bgroup', r'\egroup', r'\begingroup', r'\endgroup', r'\begin{array}{c}', r'\end{array}', r'\begin{equation}', r'\end{equation}', r'\def\x', r'\x', r'\let']


def soup(rng, n=9):
    t = ''.join(rng.choice(FRAG) for _ in range(rng.randrange(1, n)))
    return t + '{' + t + '}' if rng.random() < .25 else t


WRAP = [("$", "$"), ("$$", "$$"), ("\\(", "\\)"), ("\\[", "\\]"), ("\\begin{equation}", "\\end{equation}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\section{", "}"), ("\\textbf{", "}"), ("{\\bf ", "}"),
        ("\\begin{tabular}{cc}", "\\end{tabular}"), ("\\begin{figure}\\caption{", "}\\end{figure}"), ("\\begin{theorem}[", "]x\\end{theorem}"), ("\\author{", "}"), ("\\begin{group}", "\\end{group}"), ("\\item ", "\\item"), ("\\hbox{", "}")]


def swarm(rng, n=10):
    """many occurrences of few fragments, possibly inside one construct"""
    fs = rng.sample(FRAG, rng.randrange(1, 5)) + ["x", " "]
    for f in list(fs):
        if f.startswith("\\begin{") and "\\end{" + f[7:].split("}")[0] + "}" in FRAG:
            fs.append("\\end{" + f[7:].split("}")[0] + "}")
        if "\\end" + f[1:] in FRAG:
            fs.append("\\end" + f[1:])
    t = "".join(rng.choice(fs) for _ in range(rng.randrange(2, n)))
    if rng.random() < .6:
        a, z = rng.choice(WRAP)
        t = a + t + (z if rng.random() < .85 else "")
    return t


class Gen:
    """grammar based; words are numbered so that every piece of text can be recognised again"""

    def __init__(self, rng, macros=False):
        self.rng, self.n, self.macros = rng, 0, macros

    def word(self):
        self.n += 1
        return self.rng.choice(["w%d", "W%d", "x%dy", "n%d."]) % self.n

    def pick(self, *a):
        return self.rng.choice(a)

    def text(self, d=1):
        return " ".join(self.inline(d) for _ in range(self.rng.randrange(1, 4)))

    def inline(self, d=1):
        r, w = self.rng, self.word
        k = r.randrange(30) if d > 0 else r.randrange(12)
        if k < 8:
            return w()
        if k == 8:
            return "$%s$" % self.math(d)
        if k == 9:
            return self.pick("\\cite{k%d}", "\\ref{r%d}", "\\citep[see][p.~2]{k%d}", "\\eqref{e%d}", "\\cref{a,b%d}", "\\url{http://x.y/%d}") % r.randrange(9)
        if k == 10:
            return self.pick("\\%", "\\&", "\\_", "\\{", "~", "\\ldots", "---", "``q''", "\\'e", "\\\"o", "\\\\", "\\textbackslash", "\\ ", "é")
        if k == 11:
            return "\\unknowncmd" + self.pick("", "{%s}" % w(), "[o]{%s}" % w())
        if k < 16:
            return self.pick("\\textbf", "\\emph", "\\textit", "\\underline", "\\texttt", "\\textcolor{red}", "\\mbox", "\\textsuperscript", "\\uppercase") + "{%s}" % self.text(d - 1)
        if k == 16:
            return "{%s %s}" % (self.pick("\\bf", "\\it", "\\small", "\\bfseries", "\\color{blue}", ""), self.text(d - 1))
        if k == 17:
            return "\\footnote{%s}" % self.text(d - 1)
        if k == 18:
            return "\\href{http://a.b/}{%s}" % self.text(d - 1)
        if k == 19:
            return "\\verb|%s|" % w()
        if k == 20:
            return "\\hyperref[sec:a]{%s}" % self.text(d - 1)
        if k == 21:
            return "\\ifx\\a\\b %s \\else %s \\fi" % (self.text(d - 1), self.text(d - 1))
        if k == 22:
            return self.pick("\\parbox{3cm}", "\\fbox", "\\makebox[2cm]", "\\raisebox{1pt}", "\\colorbox{red}", "\\scalebox{2}") + "{%s}" % self.text(d - 1)
        if k == 23:
            return "\\(%s\\)" % self.math(d)
        if k == 24:
            return "\\includegraphics[width=1cm]{f%d.png}" % r.randrange(9)
        if k == 25:
            return "\\label{l%d}" % r.randrange(99)
        return w()

    def math(self, d=1):
        return self.pick("x_{%d}" % self.rng.randrange(9), "a^2 + b", "\\frac{a}{b}", "\\alpha", "\\text{if %s}" % self.word(), "\\mathbf{x}", "\\hbox{%s}" % self.word(), "x \\& y", "\\left( a \\right)", "f(x)=\\{y\\}", "\\ref{a}", "\\mbox{\\cite{b}}")

    def block(self, d=2):
        r = self.rng
        k = r.randrange(26)
        L = self.pick("", "", "\\label{l%d}" % r.randrange(99))
        if k < 5 or d <= 0:
            return self.text(2)
        if k == 5:
            return "\\section%s{%s}%s" % (self.pick("", "*"), self.text(1), L)
        if k == 6:
            return self.pick("\\subsection{%s}", "\\subsubsection{%s}", "\\paragraph{%s}", "\\subparagraph{%s}", "\\chapter{%s}", "\\part{%s}") % self.text(1) + L
        if k == 7:
            return "\\begin{%s}%s %s %s\\end{%s}" % ((e := self.pick("equation", "equation*", "align", "gather", "eqnarray", "displaymath", "multline")), L, self.math(), self.pick("", "\\\\ b", "\\nonumber", "\\tag{7}", "\\intertext{%s} c" % self.word()), e)
        if k == 8:
            return self.pick("$$%s$$", "\\[%s\\]", "\\begin{math}%s\\end{math}") % self.math()
        if k == 9:
            e = self.pick("itemize", "enumerate", "description")
            return "\\begin{%s}%s %s\\end{%s}" % (e, self.pick("", "[noitemsep]", "\\setlength{\\itemsep}{0pt}", self.word() if r.random() < .1 else ""), "".join("\\item%s %s " % (self.pick("", "[%s]" % self.inline(0)), self.block(d - 1)) for _ in range(r.randrange(0, 3))), e)
        if k == 10:
            return "\\begin{figure}%s \\centering \\includegraphics[page=2]{a.pdf} %s \\caption{%s}%s \\end{figure}" % (self.pick("", "[ht]"), self.pick("", self.text(1), "\\begin{subfigure}{2cm}\\includegraphics{b}\\caption{%s}\\end{subfigure}" % self.word(), "\\subfloat[%s]{\\includegraphics{c}}" % self.word()), self.text(1), L)
        if k == 11:
            return "\\begin{table}[t] \\caption{%s}%s %s \\end{table}" % (self.text(1), L, self.tabular(d - 1))
        if k == 12:
            return self.tabular(d - 1)
        if k == 13:
            e = self.pick("theorem", "lemma", "proof", "definition", "remark")
            return "\\begin{%s}%s%s %s \\end{%s}" % (e, self.pick("", "[%s]" % self.text(0)), L, self.blocks(d - 1), e)
        if k == 14:
            return "\\begin{verbatim}%s \\x{ %% $\\end{verbatim}" % self.word()
        if k == 15:
            return "\\begin{lstlisting}[language=C]\n%s {;}\n\\end{lstlisting}" % self.word()
        if k == 16:
            return "\\begin{%s}%s\\end{%s}" % ((e := self.pick("quote", "center", "quotation", "minipage", "abstract", "flushleft", "foo", "foo*", "tikzpicture", "group", "multicols")), ("{5cm}" if e == "minipage" else "{2}" if e == "multicols" else "") + self.blocks(d - 1), e)
        if k == 17:
            return "\\begin{algorithm}%s\\caption{%s}\\begin{algorithmic}\\State %s \\If{a} \\EndIf\\end{algorithmic}\\end{algorithm}" % (L, self.word(), self.math())
        if k == 18:
            return "\\begin{thebibliography}{9}%s\\end{thebibliography}" % "".join("\\bibitem%s{k%d} %s " % (self.pick("", "[%s]" % self.word()), i, self.text(1)) for i in range(r.randrange(0, 3)))
        if k == 19:
            return self.pick("\\title{%s}", "\\author{%s \\and B \\thanks{t} \\\\ Inst}", "\\keywords{%s, c}", "\\abstract{%s}", "\\date{%s}", "\\affil{%s}", "\\email{%s@b}", "\\address{%s}", "\\affiliation{%s}") % self.text(1)
        if k == 20:
            return self.pick("\\appendix", "\\maketitle", "\\newpage", "\\tableofcontents", "\\vspace{1em}", "\\includepdf[pages=1-2]{z.pdf}", "\\noindent", "\n\n", "\\begin{appendices} %s \\end{appendices}" % self.text(1), "\\captionof{figure}{%s}" % self.word())
        if k == 21:
            return "%% %s\n" % self.word()
        if k == 22:
            return "\\footnotetext[2]{%s}" % self.text(1)
        if k == 23:
            return "\\begin{tabular}{c}\\begin{equation}%s\\end{equation} & %s\\end{tabular}" % (self.math(), self.text(1))
        return self.text(1)

    def blocks(self, d=2, n=None):
        return self.pick("\n", "\n\n", " ").join(self.block(d) for _ in range(self.rng.randrange(1, 4) if n is None else n))

    def cell(self, d):
        c = self.pick("", self.word(), self.text(1), self.inline(1))
        k = self.rng.random()
        return "\\multicolumn{2}{c|}{%s}" % c if k < .1 else "\\multirow{2}{*}{%s}" % c if k < .2 else "\\makecell{%s \\\\ z}" % c if k < .25 else c

    def tabular(self, d):
        return "\\begin{tabular}{lc}%s %s \\end{tabular}" % (self.pick("", "\\hline", "\\toprule"), " \\\\ ".join(" & ".join(self.cell(d) for _ in range(self.rng.randrange(1, 4))) for _ in range(self.rng.randrange(1, 4))))

    def document(self):
        s = self.blocks(2, self.rng.randrange(1, 6))
        return s if self.rng.random() < .6 else "\\documentclass{article}\n\\newtheorem{theorem}{Theorem}\n\\newtheorem{lemma}[theorem]{Lemma}\\title{%s}\\begin{document}%s\\end{document}" % (self.text(1), s)


def mutate(rng, s):
    """truncate, delete, duplicate or insert something"""
    for _ in range(rng.randrange(1, 4)):
        if not s:
            break
        i, j = sorted((rng.randrange(len(s) + 1), rng.randrange(len(s) + 1)))
        k = rng.randrange(6)
        if k == 0:
            s = s[:i]
        elif k == 1:
            s = s[i:]
        elif k == 2:
            s = s[:i] + s[min(j, i + 6):]
        elif k == 3:
            s = s[:i] + rng.choice(FRAG) + s[i:]
        elif k == 4:
            s = s[:j] + s[i:j][:40] + s[j:]
        else:
            c = [p for p in range(len(s)) if s[p] in "{}[]\\$&"]
            if c:
                p = rng.choice(c)
                s = s[:p] + s[p + 1:]
    return s
