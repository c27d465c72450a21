"""C04 end to end: parse_tabular and LatexParser on tables rendered from a known grid of cells."""
WORDS = ["alpha", "b 2", "x-y", "$m_1$", "3.5", "\\%", "\\&", "\\{", "\\}", "\\_", "q"]


def raw_cell(rng, d=2):
    """(source text, text parse_tabular keeps)"""
    def item(d):
        r = rng.random()
        if d > 0 and r < .2:
            inner = [item(d - 1) for _ in range(rng.randrange(0, 3))]
            seps = rng.choice(["", " & ", " \\\\ ", "&"])
            return ("{" + seps.join(x for x, _ in inner) + seps + "}", "{" + seps.join(y for _, y in inner) + seps + "}")
        if d > 0 and r < .3:
            inner = [item(d - 1) for _ in range(rng.randrange(1, 3))]
            seps = rng.choice([" ", " & ", " \\\\ "])
            head = rng.choice(["\\makecell{", "\\shortstack{", "\\makecell[t]{", "\\makecell {"])
            return head + seps.join(x for x, _ in inner) + "}", seps.join(y for _, y in inner)
        if r < .4:
            w = rng.choice(["\\textbf{a}", "\\cite{k&l}", "\\foo[2]{x}{}"])
            return w, w
        w = rng.choice(WORDS)
        return w, w
    its = [item(d) for _ in range(rng.choice([0, 1, 1, 1, 2]))]
    j = rng.choice([" ", "\n", "~"])
    return j.join(x for x, _ in its), j.join(y for _, y in its)


def cell(rng):
    src, want = raw_cell(rng)
    r = rng.random()
    n, m = rng.choice([1, 2, 3, 12]), rng.choice([1, 2, 4, 15])
    sp = rng.choice(["", " "])
    if r < .12:
        return "\\multicolumn{%d}%s{c|}%s{%s}" % (n, sp, sp, src), want.strip(), 1, n
    if r < .24:
        return "\\multirow{%d}%s{*}%s{%s}" % (m, sp, sp, src), want.strip(), m, 1
    if r < .32:
        return "\\multicolumn{%d}{c}{\\multirow{%d}{*}{%s}}" % (n, m, src), want.strip(), m, n
    return src, want.strip(), 1, 1


def table(rng, cell=cell, wide=False):
    rows = [[cell(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]) if not wide else rng.randrange(6, 14))] for _ in range(rng.randrange(0, 5) if not wide else rng.randrange(3, 9))]
    src = []
    for r in rows:
        src.append(rng.choice(["&", " & ", " &\n"]).join(c[0] for c in r))
    s = rng.choice(["\\\\", " \\\\ ", "\\\\\n", "\\\\ \\\\"]).join(src) + rng.choice(["", " \\\\", "\\\\\n"])
    return s, rows


def expected(rows, blank):
    """rows without text are dropped; then a first and a last row of empty cells"""
    out = [r for r in rows if not blank(r)]
    def empty(r):
        return not any(c[1] or c[2] > 1 or c[3] > 1 for c in r)
    if out and empty(out[0]):
        out = out[1:]
    if out and empty(out[-1]):
        out = out[:-1]
    return out


def flat(x):
    """text of a parsed cell"""
    if x is None:
        return ""
    if isinstance(x, str):
        return x
    if isinstance(x, list):
        return "".join(flat(y) for y in x)
    return flat(x.get("content"))


def run(b):
    from pyvc.runner import limit, Timeout
    from latex2json.parser.handlers.tabular import parse_tabular
    from latex2json.parser.tex_parser import LatexParser
    rng = b.rng
    b.begin("parse_tabular on rendered grids")
    while not b.full() and b.parts[b.part] < (4000 if b.tier == "quick" else 60000):
        s, rows = table(rng)
        b.case(s)
        want = [[c[1] if c[2] == 1 and c[3] == 1 else {"content": c[1], "rowspan": c[2], "colspan": c[3]} for c in r]
                for r in expected(rows, lambda r: len(r) == 1 and not r[0][0].strip())]
        try:
            with limit(10):
                got = parse_tabular(s)
        except Timeout:
            b.fail(s, "parse_tabular(%r) does not end" % s, input=s)
            continue
        except Exception as e:
            b.fail(s, "parse_tabular(%r) raises %r" % (s, e), input=s)
            continue
        if got != want:
            b.fail(s, "parse_tabular(%r) = %r, expected %r" % (s, got, want), input=s, got=got, want=want)
    b.begin("LatexParser on tables")
    P = [("one", "one"), ("two words", "two words"), ("\\&", "&"), ("A\\%", "A%"), ("$x \\& y$", "x \\& y"), ("$a_{1&2}$", "a_{1&2}"), ("\\textbf{p & q}", "p & q"), ("\\emph{it}", "it"), ("", ""), ("", ""), ("7", "7"),
         ("\\verb|v&w|", "v&w"), ("\\textbf{u} v", "u v"), ("\\begin{tabular}{c} in & ner \\\\ t \\end{tabular}", "innert"), ("\\footnote{n & m}", "n & m"), ("\\_s", "_s"), ("a\\{b", "a{b"), ("c\\}d", "c}d")]

    def ecell(rng):
        src, want = rng.choice(P)
        r = rng.random()
        n, m = rng.choice([1, 2, 3, 10]), rng.choice([1, 2, 11])
        if r < .15:
            return "\\multicolumn{%d}{c}{%s}" % (n, src), want, 1, n
        if r < .3:
            return "\\multirow{%d}{*}{%s}" % (m, src), want, m, 1
        if r < .4:
            return "\\multicolumn{%d}{|c|}{\\multirow{%d}{*}{%s}}" % (n, m, src), want, m, n
        return src, want, 1, 1
    while not b.full() and b.parts[b.part] < (250 if b.tier == "quick" else 5000):
        s, rows = table(rng, ecell, rng.random() < .15)
        env = rng.choice(["tabular", "tabular", "tabular*", "longtable", "tabularx"])
        pre = "{\\textwidth}" if env in ("tabular*", "tabularx") else ""
        lines = rng.choice(["", "\\hline ", "\\toprule\n"])
        doc = "\\begin{%s}%s{lcr}%s %s%s\\end{%s}" % (env, pre, lines, s, rng.choice(["", " \\\\ \\bottomrule"]), env)
        b.case(doc)
        want = expected(rows, lambda r: len(r) == 1 and not r[0][0].strip())
        try:
            with limit(20):
                toks = LatexParser().parse(doc)
        except Timeout:
            b.fail(doc, "parsing %r does not end" % doc, input=doc)
            continue
        except Exception as e:
            b.fail(doc, "parsing %r raises %r" % (doc, e), input=doc)
            continue
        if len(toks) != 1 or toks[0].get("type") != "tabular":
            b.fail(doc, "%r is not parsed as one table: %r" % (doc, toks), input=doc)
            continue
        got = []
        for r in toks[0]["content"]:
            got.append([(flat(c["content"]), c["rowspan"], c["colspan"]) if isinstance(c, dict) else (flat(c), 1, 1) for c in r])
        w = [[(c[1], c[2], c[3]) for c in r] for r in want]
        def norm(t):
            return [[("".join(x.split()), m, n) for x, m, n in r] for r in t]
        if norm(got) != norm(w):
            b.fail(doc, "table %r parsed as %r, expected %r" % (doc, got, w), input=doc, got=got, want=w)
