"""C07: histories of documents on one parser, reader or builder against the result in a process that never saw anything else."""
import copy, os, pickle, shutil, signal, struct, tempfile
from .latexgen import Gen, soup, mutate

NAMES = ["foo", "bar", "foob"]


def defs(rng):
    return rng.choice(all_defs(rng))


def uses(rng):
    return rng.choice(all_uses(rng))


def all_defs(rng):
    n, m, w = rng.choice(NAMES), rng.choice(NAMES), rng.choice(["one", "two #1", "three", "\\textbf{four}"])
    w0 = w.replace("#1", "")
    return ([
        "\\newcommand{\\%s}{%s}" % (n, w0), "\\newcommand{\\%s}[1]{<%s>}" % (n, w), "\\newcommand{\\%s}[2][dflt]{%s #2}" % (n, w), "\\renewcommand{\\%s}{%s}" % (n, w0), "\\providecommand{\\%s}{%s}" % (n, w0),
        "\\def\\%s{%s}" % (n, w0), "\\def\\%s#1{%s}" % (n, w), "\\def\\%s#1.{%s}" % (n, w), "\\def\\ldots{%s}" % w0, "\\renewcommand{\\section}{X}", "\\newcommand{\\alpha}{%s}" % w0, "\\let\\%s=\\alpha" % n, "\\let\\%s\\%s" % (n, m) if n != m else "", "\\newif\\if%s" % n, "\\newif\\if%s \\%strue" % (n, n), "\\%strue" % n,
        "\\newtheorem{%s}{Thm %s}" % (n, w0), "\\newtheorem{%s}[theorem]{T%s}" % (n, w0), "\\definecolor{%s}{HTML}{FF00%02d}" % (n, rng.randrange(99)), "\\definecolor{%s}{rgb}{1,0,0}" % n,
        "\\newenvironment{%s}{<<%s}{>>}" % (n, w0), "\\newenvironment{%s}[1]{<<#1}{>>}" % n, "\\renewenvironment{%s}{((}{))}" % n, "\\newsavebox{\\%s}\\sbox{\\%s}{%s}" % (n, n, w0), "\\sbox{\\%s}{%s}" % (n, w0), "\\setbox%d=\\hbox{%s}" % (rng.randrange(3), w0),
        "\\setbox\\%s=\\hbox{%s}" % (n, w0), "\\savebox{\\%s}{%s}" % (n, w0), "\\newsavebox{\\%s}" % n, "$\\setbox0=\\hbox{%s}$" % w0, "$\\sbox{\\%s}{%s}$" % (n, w0), "\\defcitealias{%s}{Paper %s}" % (n, w0), "$\\defcitealias{%s}{Paper %s}$" % (n, w0),
        "\\newcolumntype{%s}{c}" % n[0].upper(), "\\define@key{%s}{k}[d]{key %s}" % (n, w0), "\\define@key{%s}{k}{\\def\\%s{#1}}" % (n, m), "\\setkeys{%s}{k=v}" % n, "\\newbool{%s}" % n, "\\newbool{%s}\\booltrue{%s}" % (n, n), "\\booltrue{%s}" % n, "\\boolfalse{%s}" % n,
        "\\newtoggle{%s}\\toggletrue{%s}" % (n, n), "\\newfloat{%s}{t}{x}\\floatname{%s}{F %s}" % (n, n, w0), "\\floatname{%s}{F %s}" % (n, w0), "\\DeclareMathOperator{\\%s}{op%s}" % (n, n), "\\DeclarePairedDelimiter{\\%s}{|}{|}" % n, "\\newcounter{%s}" % n,
        "\\NewDocumentCommand{\\%s}{mO{z}}{#1 %s}" % (n, w0), "\\author{A\\thanks{%s} \\and B\\thanksref{x}}" % w0, "\\newlength{\\%s}" % n, "\\crefname{%s}{x}{y}" % n, "\\graphicspath{{%s/}}" % n, "\\usepackage{%s}" % n, "\\input{%s}" % n, "\\bibliography{%s}" % n, "\\begin{figure}\\caption{a}\\label{%s}" % n,
        "\\section{%s}" % w0, "\\appendix", "{%s" % w0, "\\verb|%s" % w0, "\\begin{equation}\\label{%s}" % n, "\\makeatletter", "\\footnote{\\label{%s} x" % n, "\\csname %s\\endcsname" % n, "\\expandafter\\def\\csname %s\\endcsname{%s}" % (n, w0), "\\%sfalse" % n, "\\titleformat{\\section}{%s}{}{}{}" % w0])


def all_uses(rng):
    n = rng.choice(NAMES)
    return ([
        "\\%s" % n, "\\%s{a}" % n, "\\%s{a}{b}" % n, "\\%s[o]{a}" % n, "\\%s a. b" % n, "$\\%s{x}$" % n, "\\if%s yes\\else no\\fi" % n, "\\ifx\\if%s a\\else b\\fi c\\else d\\fi" % n, "\\iftrue \\if%s a\\else b\\fi \\else d\\fi" % n, "\\begin{%s}in\\end{%s}" % (n, n), "\\begin{%s}{a}in\\end{%s}" % (n, n), "\\begin{%s}[t]in\\end{%s}" % (n, n),
        "\\textcolor{%s}{t}" % n, "{\\color{%s} t}" % n, "\\usebox{\\%s}" % n, "\\usebox\\%s" % n, "\\box%d" % rng.randrange(3), "\\copy%d" % rng.randrange(3), "$\\usebox{\\%s}$" % n, "$\\box0$", "\\citetalias{%s}" % n, "\\citepalias{%s}" % n, "$\\citetalias{%s}$" % n,
        "\\begin{tabular}{%s}a & b\\end{tabular}" % n[0].upper(), "\\setkeys{%s}{k}" % n, "\\setkeys{%s}{k=w} \\%s" % (n, n), "\\ifbool{%s}{a}{b}" % n, "\\iftoggle{%s}{a}{b}" % n, "\\%s*{x}" % n, "\\label{%s}" % n, "\\ref{%s}" % n, "\\thanks{t}", "\\alpha", "\\ldots", "\\section{S}",
        "text \\label{q%s} more" % n, "\\begin{theorem}a\\end{theorem}", "\\begin{equation}x\\end{equation}", "\\notbool{%s}" % n, "\\ifnotbool{%s}{a}{b}" % n, "\\csname %s\\endcsname" % n, "\\begin{%s}\\caption{c}\\end{%s}" % (n, n), "\\input{%s}" % n, "\\usepackage{%s}" % n, "\\bibliography{%s}" % n, "\\include{%s}" % n, "\\ifdefined\\%s d\\fi" % n, "\\@ifundefined{%s}{a}{b}" % n])


def document(rng):
    r = rng.random()
    if r < .12:
        return Gen(rng).document()
    if r < .18:
        return soup(rng)
    parts = [(defs if rng.random() < .6 else uses)(rng) for _ in range(rng.randrange(1, 6))]
    return rng.choice([" ", "\n", "\n\n"]).join(parts)


def probe(rng, hist):
    """a document that uses what the history may have defined"""
    r = rng.random()
    if r < .2 and hist:
        return rng.choice(hist)
    parts = [(uses if rng.random() < .8 else defs)(rng) for _ in range(rng.randrange(1, 5))]
    return " ".join(parts)


# ------------------------------------------------------------------------------ one job, in any process
def plain(x):
    from enum import Enum
    if isinstance(x, Enum):
        return x.value
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x if isinstance(x, (str, int, float, bool, type(None))) else repr(x)


def parse(p, doc, pre):
    from pyvc.runner import limit, quiet, Timeout
    try:
        with limit(8), quiet():
            if isinstance(pre, str):         # (in a file of its own in that directory)
                open(os.path.join(pre, "p.tex"), "w").write(doc)
                toks = p.parse_file(os.path.join(pre, "p.tex"))
            else:
                toks = p.parse(doc, preprocess=pre)
            return plain([toks, p.get_colors(), sorted(p.labels), sorted(p.commands), sorted(p.environments)]), toks
    except Timeout:
        return ["timeout"], None
    except RecursionError:
        return ["recursion"], None
    except Exception as e:
        return ["raises", type(e).__name__], None


def read(r, path):
    from pyvc.runner import limit, quiet, Timeout
    try:
        with limit(8), quiet():
            return [r.to_json(r.process_file(path))]
    except Timeout:
        return ["timeout"]
    except Exception as e:
        return ["raises", type(e).__name__]


def build(bd, toks):
    from pyvc.runner import limit, quiet
    try:
        with limit(8), quiet():
            return plain([t.model_dump() for t in bd.build(toks)])
    except Exception as e:
        return ["raises", type(e).__name__]


def job(kind, arg):
    from latex2json.parser.tex_parser import LatexParser
    from latex2json.structure.builder import TokenBuilder
    from latex2json.tex_reader import TexReader
    if kind == "parse":
        return parse(LatexParser(), *arg)[0]
    if kind == "read":
        return read(TexReader(), arg)
    return build(TokenBuilder(), arg)


STY = ["\\newif\\if%(n)s ", "\\newif\\if%(n)s \\newif\\if%(m)s ", "\\iftrue\\if%(m)s x\\else y\\fi \\newcommand{\\%(m)s}{inner}\\else\\newcommand{\\%(m)s}{outer}\\fi ",
       "\\if%(m)s\\newcommand{\\%(m)s}{one}\\else\\newcommand{\\%(m)s}{other}\\fi ", "\\newcommand{\\%(m)s}{also}\\usepackage{%(m)s}"]


class Pristine:
    """a process that never processes anything itself: every request is answered by a fork of it"""

    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(b), os.close(c)
                self.serve(a, d)
            finally:
                os._exit(0)
        os.close(a), os.close(d)
        self.w, self.r = b, c

    @staticmethod
    def get(fd):
        def need(n):
            s = b""
            while len(s) < n:
                x = os.read(fd, n - len(s))
                if not x:
                    raise EOFError
                s += x
            return s
        return pickle.loads(need(struct.unpack("<q", need(8))[0]))

    @staticmethod
    def put(fd, x):
        s = pickle.dumps(x)
        s = struct.pack("<q", len(s)) + s
        while s:
            s = s[os.write(fd, s):]

    def serve(self, a, d):
        from latex2json.tex_reader import TexReader
        TexReader()                      # (compiles the tables of the converters; reads no document)
        while True:
            try:
                req = self.get(a)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    self.put(d, job(*req))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, kind, arg):
        self.put(self.w, (kind, arg))
        return self.get(self.r)

    def close(self):
        os.close(self.w), os.close(self.r)
        os.waitpid(self.pid, 0)


def run(b):
    import latex2json.parser.tex_parser, latex2json.structure.builder, latex2json.tex_reader
    from latex2json.parser.tex_parser import LatexParser
    from latex2json.structure.builder import TokenBuilder
    from latex2json.tex_reader import TexReader
    rng = b.rng
    tmp = tempfile.mkdtemp(prefix="c07_")
    cwd = os.getcwd()
    os.chdir(tmp)
    fresh = Pristine()
    old, bystander, reader, builder = LatexParser(), LatexParser(), TexReader(), TokenBuilder()
    dirs = [tmp, os.path.join(tmp, "d1"), os.path.join(tmp, "d2")]

    def files():
        for i, d in enumerate(dirs):
            os.makedirs(d, exist_ok=True)
            for n in NAMES[i % 2:]:
                open(os.path.join(d, n + ".tex"), "w").write("file %d %s \\newcommand{\\%s}{from file %d}\\newif\\if%s" % (i, n, n, i, n))
                open(os.path.join(d, n + ".sty"), "w").write("\\newcommand{\\%s}{from package %d}%s\\definecolor{%s}{HTML}{12345%d}\\newtheorem{%s}{PT}\\%s" % (n, i, rng.choice(STY) % {"n": n, "m": rng.choice(NAMES)}, n, i, n, rng.choice(NAMES)))
                open(os.path.join(d, n + ".bib"), "w").write("@book{%s%d, title={In %d}}" % (n, i, i))
    files()

    def differ(who, hist, doc, got, want):
        if got != want and ["timeout"] not in (got, want) and ["recursion"] not in (got, want):
            b.fail("%s after %r: %r" % (who, hist, doc), "%s, after %r, gives for %r: %s, a new one gives %s" % (who, hist, doc, str(got)[:300], str(want)[:300]), who=who, history=repr(hist), document=repr(doc))

    def how():
        return rng.choice([False, False, False, True, True, rng.choice(dirs)])

    def shrink(hist, doc, pre, want):
        """a shorter history that still differs"""
        for k in range(len(hist)):
            p = LatexParser()
            parse(p, *hist[k])
            p.clear()
            if parse(p, doc, pre)[0] != want:
                return [hist[k]]
        return hist
    class Fixed:
        """always the same name and number, a chosen text"""
        def __init__(self, n):
            self.n = n

        def choice(self, xs):
            return xs[self.n % len(xs)]

        def randrange(self, *a):
            return 0
    try:
        b.begin("each definition, then every use")
        used = all_uses(Fixed(0))
        step = 12
        docs = [(" ".join(used[i:i + step]), pre) for i in range(0, len(used), step) for pre in (False, True)]
        want = [fresh.ask("parse", d) for d in docs]
        for k in (0, 3):
            for d in all_defs(Fixed(k)):
                for pre in (False, True):
                    if b.full():
                        break
                    for q, w in zip(docs, want):
                        if q[1] != pre:
                            continue
                        parse(old, d, pre)
                        old.clear()
                        b.case((d, q))
                        got, toks = parse(old, *q)
                        differ("the cleared parser", [d], q[0], got, w)
                        old.clear()
        b.begin("histories on one parser")
        while not b.full() and b.parts[b.part] < (1000 if b.tier == "quick" else 15000):
            hist, kept, docs = [], [], None
            if rng.random() < .1:
                old = LatexParser()
                files()
            if rng.random() < .08:           # two packages of one directory
                pre, (n, m) = rng.choice(dirs), rng.sample(NAMES, 2)
                hist.append(("\\usepackage{%s}" % n, pre))
                parse(old, *hist[0])
                docs = ["\\usepackage{%s}\\%s" % (m, n), "\\usepackage{%s,%s}\\%s\\%s" % (m, n, n, m)]
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                d, pre = document(rng), how()
                hist.append((d, pre))
                _, toks = parse(old, d, pre)
                kept.append(toks)
                if rng.random() < .3:
                    old.clear()
            old.clear()
            kept = [(t, copy.deepcopy(t)) for t in kept]
            doc, pre = (rng.choice(docs), hist[0][1]) if docs else (probe(rng, [h[0] for h in hist]), how())
            b.case((hist, doc, pre))
            want = fresh.ask("parse", (doc, pre))
            got, toks = parse(old, doc, pre)
            if got != want:
                hist = shrink(hist, doc, pre, want)
            differ("the cleared parser", hist, doc, got, want)
            got, t2 = parse(LatexParser(), doc, pre)
            differ("a new parser beside another one", hist, doc, got, want)
            got, t3 = parse(bystander, doc, pre)
            bystander.clear()
            differ("another cleared parser", hist, doc, got, want)
            for t, c in kept:
                if t != c:
                    b.fail("tokens of %r" % (hist,), "the tokens returned for %r changed when %r was processed" % (hist, doc), history=repr(hist), document=repr(doc))
            old.clear()
            if toks is not None:
                got = build(builder, toks)
                if rng.random() < .3:
                    differ("the used builder", [], toks, got, fresh.ask("build", toks))
                builder.clear()
        b.begin("files through one reader")
        while not b.full() and b.parts[b.part] < (200 if b.tier == "quick" else 3000):
            hist = []
            for _ in range(rng.choice([1, 1, 2])):
                hist.append(document(rng))
                path = os.path.join(rng.choice(dirs), "a.tex")
                open(path, "w").write(hist[-1])
                read(reader, path)
            doc = probe(rng, hist)
            path = os.path.join(rng.choice(dirs), "b.tex")
            open(path, "w").write(doc)
            b.case((hist, doc))
            want = fresh.ask("read", path)
            differ("the used reader", hist, doc, read(reader, path), want)
            differ("a new reader beside another one", hist, doc, read(TexReader(), path), want)
    finally:
        os.chdir(cwd)
        fresh.close()
        shutil.rmtree(tmp, ignore_errors=True)
