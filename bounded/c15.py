"""C15, bounded: bibliographies (BibTeX, bibitem lists, AMS bibdiv, combinations of files) generated together with the entries they hold."""
import logging, os, shutil, tempfile
from pyvc.runner import limit, Timeout, quiet

KEYC = "abcXYZ019"
KEYP = ["", "", ":", "-", "_", ".", "+", "/", "'"]
WORDS = ["alpha", "Beta", "of", "the", "1999", "x.y", "A.", "Gr\u00f6\u00dfe", "et", "al.", "p.~3", "1--2", "G\\\"odel", "\\'e", "\\&", "\\LaTeX", "$n$", "$x^{10}$", "M{\\\"u}ller", "\\$5", "a=b", "x, y", "(z)", "[q]", "\\\\", "q/r", "a:b"]


def norm(s):
    return " ".join(s.split())


class Gen:
    def __init__(self, rng):
        self.rng, self.used = rng, 0

    def key(self):
        rng = self.rng
        return "".join(rng.choice(KEYC) for _ in range(rng.randrange(1, 4))) + rng.choice(KEYP) + "k%d" % rng.randrange(10)

    def sp(self):
        return self.rng.choice([" ", " ", "  ", "\n", "\n   ", "\t"])

    def value(self, kind, depth=0, quoted=False):
        """(source, what it says with grouping braces removed (bibdiv), the source itself)"""
        rng = self.rng
        src, flat = [], []
        for _ in range(rng.randrange(1, 5)):
            k = rng.random()
            if k < .6 or depth > 2:
                w = rng.choice(WORDS)
                if kind == "bibtex" and rng.random() < .1:
                    w = rng.choice(["http://a%20b", "50\\%", "#1", "a#b", "a = c", "\\%", "@home", "user@example.org", "C#"])
                elif kind == "bibitem" and rng.random() < .1:
                    w = rng.choice(["\\%", "\\{", "\\}", "@home", "user@inst {\\em x}", "#1", "\\newblock", "\\newblock ", "\\bibinfo{year}{1999}", "\\bibfnamefont{A.}", "\\bibliofont", "\\bib", "\\bibitemNoStop."])
                elif kind == "bibdiv" and rng.random() < .1:
                    w = rng.choice(["\\%", "@home", "date = 3"])
                if quoted and depth == 0 and '\\"' in w and "{" not in w:
                    continue
                src.append(w)
                flat.append(w)
            elif k < .75:
                s, f = self.value(kind, depth + 1)
                src.append("{%s}" % s)
                flat.append(f)
            elif k < .85:
                s, f = self.value(kind, depth + 1)
                c = rng.choice(["\\emph", "\\textbf", "\\url", "\\foo"])
                src.append("%s{%s}" % (c, s))
                flat.append("%s{%s}" % (c, f))
            elif k < .9 and kind != "bibdiv":
                if quoted and depth == 0:
                    continue
                src.append(rng.choice(['"a"', '"', "''x''", '"{b}"']))
                flat.append(src[-1])
            elif k < .95 and kind == "bibtex":
                src.append(rng.choice(["@misc{a, b = {c}}", "@x{y}", "title = {z}, year=3", "{@book{k2, t={u}}}"]))
                flat.append(src[-1])
            else:
                src.append("see")
                flat.append("see")
        if not src:
            src = flat = ["v"]
        seps = [self.sp() for _ in src[1:]]
        return "".join(x for p in zip(src, seps + [""]) for x in p), "".join(x for p in zip(flat, seps + [""]) for x in p)

    def bibtex(self, n, keys=None):
        rng = self.rng
        out, want = [], []
        for i in range(n):
            if rng.random() < .25:
                out.append("\n" + rng.choice(["Some text between entries.", "% @article{old, title={x}}", "@comment{jabref-meta: x, y=3;}", '@string{acm = "A, B"}', "@preamble{\"\\newcommand{\\x}{y}\"}", "  % {", "%%"]) + "\n")
            typ = rng.choice(["article", "Book", "MISC", "inProceedings", "techreport"])
            key = keys[i] if keys else self.key()
            fields, want_f = [], {}
            names = rng.sample(["title", "author", "Year", "JOURNAL", "note", "url", "date-added", "x_y", "month", "booktitle", "eprint", "bdsk-url-1"], rng.choice([0, 1, 2, 3, 4, 6]))
            for nm in names:
                k = rng.random()
                if k < .45:
                    v = self.value("bibtex")[0]
                    s = "{%s%s%s}" % (rng.choice(["", " "]), v, rng.choice(["", " ", "\n"]))
                elif k < .7:
                    v = self.value("bibtex", quoted=True)[0]
                    s = '"%s"' % v
                elif k < .8:
                    v = s = rng.choice(["2020", "jan", "7"])
                elif k < .9:
                    a, c = rng.choice(["jan", "3"]), rng.choice(["x y", "{A} b"])
                    v, s = a + c, rng.choice(['%s # "%s"', "%s#{%s}", '%s # {%s}']) % (a, c)
                else:
                    v, s = "{Whole %s}" % self.value("bibtex")[0], None
                    s = "{%s}" % v
                want_f[nm.lower()] = v
                fields.append(nm + rng.choice(["=", " = ", "= ", " =\n"]) + s)
            e = "@" + typ + rng.choice(["", "", " "]) + "{" + rng.choice(["", " "]) + key
            for f in fields:
                e += rng.choice([",", ", ", ",\n  ", " ,\n"]) + f
            e += rng.choice(["", ",", ",\n", "\n"]) + "}"
            out.append(e + rng.choice(["\n", "\n\n", " "]))
            want.append((key, typ.lower(), {a: norm(v) for a, v in want_f.items()}, None))
        return "".join(out), want

    def bibitem(self, n, keys=None):
        rng = self.rng
        out, want, prev = [], [], None
        for i in range(n):
            key = keys[i] if keys else self.key()
            label = rng.choice([None, None, "Lab", "{Smith(2000)}", "\\protect\\citeauthoryear{A}{B}{2000}", "{[A] B}", "A et~al., 1999"])
            text = self.value("bibitem")[0]
            if text.replace("\\newblock", "").strip() == "":
                text = "text"
            says = text
            if prev is not None and rng.random() < .15:
                text = "\\bysame, " + text
                says = prev.split(",")[0] + ", " + says
            out.append("\\bibitem" + (rng.choice(["", " ", "\n"]) + "[%s]" % label if label else "") + rng.choice(["", "", " ", "\n", "%\n"]) + "{" + key + "}" + rng.choice([" ", "\n", " % x\n"]) + text + rng.choice(["\n", "\n\n", "  % \\bibitem{no} x\n", " "]))
            prev = norm(says.replace("\\newblock ", " ").replace("\\newblock", ""))
            want.append((key, "bibitem", {}, prev))
        return "".join(out), want

    def bibdiv(self, n, keys=None):
        rng = self.rng
        out, want = [], []
        for i in range(n):
            key = keys[i] if keys else self.key()
            typ = rng.choice(["article", "book"])
            fs, wf = [], {}
            for nm in ["author"] * rng.randrange(3) + ["editor"] * rng.choice([0, 0, 0, 2]) + rng.sample(["title", "date", "Journal", "note", "pages"], rng.randrange(1, 4)):
                s, f = self.value("bibdiv")
                if rng.random() < .15:
                    s = f = rng.choice(["2001", "abc"])
                    fs.append(nm + "=" + s)
                else:
                    fs.append(nm + rng.choice(["=", " = "]) + "{%s}" % s)
                a = nm.lower()
                wf[a] = wf[a] + " and " + norm(f) if a in wf else norm(f)
            e = "\\bib{%s}{%s}{" % (key, typ) + rng.choice([",\n", ", ", ","]).join([""] + fs)[1:].lstrip() + rng.choice(["", ",", ",\n"]) + "}\n"
            out.append(e)
            want.append((key, typ, wf, None))
        return "\\begin{bibdiv}\n\\begin{biblist}\n" + "\n".join(out) + "\\end{biblist}\n\\end{bibdiv}\n", want


def judge(got, want):
    ks, wk = [e.citation_key for e in got], [w[0] for w in want]
    if ks != wk:
        return "the entries come out as %s, the source has %s" % (ks, wk)
    for e, (k, typ, fields, text) in zip(got, want):
        f = {a: norm(v) for a, v in (e.fields or {}).items()}
        if text is None and f != fields:
            d = next(a for a in list(fields) + list(f) if f.get(a) != fields.get(a))
            return "entry %s has %s = %r, the source has %r" % (k, d, f.get(d), fields.get(d))
        if text is not None and norm(e.content).replace(" ,", ",") != text.replace(" ,", ","):
            return "entry %s reads %r, the source has %r" % (k, norm(e.content), text)
        if text is None and e.entry_type.lower() != typ:
            return "entry %s has the type %r, the source has %r" % (k, e.entry_type, typ)
    return None


def run(b):
    from latex2json.parser.bib import BibParser
    from latex2json.parser.tex_parser import LatexParser
    logging.disable(logging.CRITICAL)
    rng = b.rng
    quick = b.tier == "quick"
    p = BibParser()
    for kind, share in (("bibtex", .35), ("bibitem", .55), ("bibdiv", .7)):
        b.begin(kind)
        while not b.full(share) and b.parts[b.part] < (900 if quick else 20000):
            src, want = getattr(Gen(rng), kind)(rng.choice([1, 1, 2, 3, 6]))
            if kind == "bibitem" and rng.random() < .6:
                src = "\\begin{thebibliography}{99}\n%s\\end{thebibliography}" % src
            elif kind == "bibitem" and rng.random() < .4:  # several lists in one file
                more, w = Gen(rng).bibitem(rng.choice([1, 2]))
                src = "\\begin{thebibliography}{99}\n%s\n\\end{thebibliography}\n%s\\begin{thebibliography}{9}\n%s\n\\end{thebibliography}\n" % (src, rng.choice(["", "\n", "Other works.\n"]), more)
                want = want + w
            b.case(src)
            try:
                with limit(5), quiet():
                    got = p.parse(src)
            except Timeout:
                b.fail(src, "parsing the bibliography %r does not end" % src, source=src)
                return
            why = judge(got, want)
            if why:
                b.fail(src, "parsing the bibliography %r: %s" % (src, why), source=src)
                if len(b.bad) > 4:
                    return
    b.begin("files")
    top = tempfile.mkdtemp(prefix="c15_")
    try:
        while not b.full() and b.parts[b.part] < (150 if quick else 4000):
            g = Gen(rng)
            d = os.path.join(top, "d")
            os.mkdir(d)
            pool = [g.key() for _ in range(3)]
            pool += [rng.choice(pool).swapcase(), rng.choice(pool) + "x"]
            files, want, kinds = [], [], []
            for i in range(rng.randrange(1, 5)):
                kind = rng.choice(["bibtex", "bibtex", "bibitem", "bibdiv"])
                src, w = getattr(g, kind)(n := rng.randrange(1, 4), [rng.choice(pool) for _ in range(n)])
                ext = ".bib" if kind == "bibtex" else ".bbl"
                name = "f%d" % i
                with open(os.path.join(d, name + ext), "wb") as f:
                    f.write(src.encode("utf-8"))
                kinds.append(kind)
                files.append(name + (ext if rng.random() < .4 else ""))
                want += w
            seen, first = set(), []
            for w in want:
                if w[0] not in seen:
                    seen.add(w[0])
                    first.append(w)
            cmd = "\\bibliography{%s}" % rng.choice([",", ", ", ",\n"]).join(files)
            b.case((cmd, {n: open(os.path.join(d, n), encoding="utf-8").read() for n in os.listdir(d)}))
            with limit(10), quiet():
                q = LatexParser()
                q.current_file_dir = d
                toks = q.parse(cmd)
            shutil.rmtree(d)
            toks = [t for t in toks if t["type"] == "bibliography"]
            got = [t for x in toks for t in x["content"]]
            gk, wk = [t["cite_key"] for t in got], [w[0] for w in first]
            if gk != wk:
                b.fail(("files", cmd, str(want)), "%s with the keys %s in its files gives the entries %s, expected %s" % (cmd, [w[0] for w in want], gk, wk), command=cmd, kinds=kinds)
                return
            for t, w in zip(got, first):
                f = {a: norm(v) for a, v in (t["fields"] or {}).items()}
                if w[3] is None and f != w[2]:
                    b.fail(("files", cmd, str(want)), "%s keeps for key %s an entry with the fields %s, the first one has %s" % (cmd, w[0], f, w[2]), command=cmd, kinds=kinds)
                    return
    finally:
        shutil.rmtree(top, ignore_errors=True)
