"""C12, bounded: documents of prose, groups, formatting, environments, tables and labels, generated together with the words
(with their styles) that have to come out in order and the constructs the labels belong to."""
import logging
from pyvc.runner import limit, Timeout, quiet

SKIP = {"equation", "ref", "citation", "url", "command", "label", "includegraphics", "newline"}
STYLES = [("\\textbf", "bold"), ("\\textit", "italic"), ("\\emph", "italic"), ("\\underline", "underline")]
LEGACY = [("\\bf", "bold"), ("\\it", "italic"), ("\\bfseries", "bold"), ("\\em", "italic")]


SWITCHES = [x for x, _ in LEGACY] + ["\\rm", "\\tt", "\\small", "\\smaller", "\\large", "\\larger", "\\tiny", "\\color{red}", "\\color[named]{Red}", "\\color[rgb]{1,0,0}", "\\normalcolor", "\\itshape", "\\slshape", "\\normalsize"]


class Doc:
    def __init__(self, rng, limit):
        self.rng, self.left, self.n, self.labels, self.want = rng, limit, 0, [], []

    # every method returns the source and appends to self.want the words (with styles)
    def word(self, styles):
        self.n += 1
        src = out = "w%dx" % self.n
        k = self.rng.random()
        if k < .06:
            src, out = "\\'e" + src, "\u00e9" + out
        elif k < .1:
            src, out = src + "\\&", out + "&"
        elif k < .13:
            src, out = src + "\\%,", out + "%,"
        elif k < .16:
            src, out = "\\'{e}" + src + "\\_", "\u00e9" + out + "_"
        self.want.append((out, frozenset(styles)))
        return src

    def label(self, env):
        self.n += 1
        name = "lab:%d" % self.n
        self.labels.append([name, env])
        return "\\label{%s}" % name

    def inline(self, styles, ctx, depth):
        """words, formatting, groups, boxes, footnotes, labels; ctx[0] is the construct labels belong to (None: free)"""
        rng = self.rng
        out = []
        for _ in range(rng.randrange(1, 5)):
            self.left -= 1
            k = rng.random()
            if k < .04:
                w = self.word(styles)
                self.want.append(self.want[-1])
                out.append(rng.choice(["%s {%s}", "%s %s", "%s\n{ %s}"]) % (w, w))
            elif k < .5 or depth > 3 or self.left < 0:
                out.append(" ".join(self.word(styles) for _ in range(rng.randrange(1, 3))))
                if rng.random() < .1:
                    out[-1] += rng.choice(["", " "]) + self.label(ctx[0])
                    self.labels[-1].append(self.want[-1][0])
            elif k < .6:
                c, st = rng.choice(STYLES)
                out.append("%s{%s}" % (c, self.inline(styles | {st}, ctx, depth + 1)))
            elif k < .62:
                # switches that follow each other: the words come out, the styles are not judged
                k0, out0 = len(self.want), []
                for _ in range(rng.randrange(1, 4)):
                    out0.append(rng.choice(SWITCHES) + " " + " ".join(self.word(styles) for _ in range(rng.randrange(1, 3))))
                self.want[k0:] = [(w, None) for w, _ in self.want[k0:]]
                out.append("{%s}" % " ".join(out0))
            elif k < .66:
                c, st = rng.choice(LEGACY)
                out.append("{%s %s}" % (c, " ".join(self.word(styles | {st}) for _ in range(rng.randrange(1, 3)))))
            elif k < .75:
                pad = rng.choice(["", " ", "\n"])
                out.append("{%s%s%s}" % (pad, self.inline(styles, ctx, depth + 1), pad))
            elif k < .79:
                out.append(rng.choice(["\\mbox{%s}", "\\text{%s}", "\\hbox{%s}"]) % " ".join(self.word(styles) for _ in range(rng.randrange(1, 3))))
            elif k < .84:
                out.append(rng.choice(["$x_1+y$", "\\ref{r}", "\\cite{c}", "\\(a\\)"]))
            elif k < .88 and not styles:
                foot = ["footnote", len(self.want), None]
                s = self.inline(styles, [foot], depth + 1)
                foot[2] = len(self.want)
                out.append("\\footnote{%s}" % s)
            elif k < .95:
                out.append(self.label(ctx[0]))
            else:
                out.append(rng.choice(["{}", "\\\\", "\\par", "\\noindent", "\\quad"]))
        s = out[0]
        for x in out[1:]:
            s += rng.choice([" ", " ", "\n", "  ", " % no text\n"]) + x
        return s

    def env(self, kind, ctx, depth):
        rng = self.rng
        e = [kind, len(self.want), None]
        inner = [e]
        if kind == "figure":
            if rng.random() < .6:
                parts = [self.inline(frozenset(), inner, depth + 1)]
                cap = ["caption", len(self.want), None]
                s = self.inline(frozenset(), [cap], 3)
                cap[2] = len(self.want)
                parts.append("\\caption{%s}" % s)
                inner[0] = cap
                if rng.random() < .7:
                    parts.append(self.label(cap))
                parts.append(self.body(inner, depth + 1, 2))
                body = " ".join(parts)
            else:
                body = self.body(inner, depth + 1)
        else:
            body = self.body(inner, depth + 1)
        e[2] = len(self.want)
        return "\\begin{%s}%s%s%s\\end{%s}" % (kind, rng.choice(["\n", " "]), body, rng.choice(["\n", " "]), kind)

    def items(self, ctx, depth):
        rng = self.rng
        kind = rng.choice(["itemize", "enumerate"])
        out = []
        for _ in range(rng.randrange(1, 4)):
            it = ["item", len(self.want), None]
            s = self.body([it], depth + 1, 2)
            it[2] = len(self.want)
            out.append("\\item " + s)
        return "\\begin{%s}\n%s\n\\end{%s}" % (kind, "\n".join(out), kind)

    def table(self, ctx):
        rng = self.rng
        n = rng.randrange(1, 4)
        rows = []
        for _ in range(rng.randrange(1, 4)):
            row = []
            for _ in range(n):
                k = rng.random()
                c = self.word(frozenset()) if k < .5 else "\\textbf{%s}" % self.word(frozenset({"bold"})) if k < .7 else "$z$ " + self.word(frozenset()) if k < .8 else ""
                if rng.random() < .12:
                    c += " " + self.label(ctx[0])
                row.append(c)
            rows.append(" & ".join(row))
        return "\\begin{tabular}{%s}\n%s\n\\end{tabular}" % ("l" * n, " \\\\\n".join(rows))

    def body(self, ctx, depth, n=4):
        rng = self.rng
        out = []
        for _ in range(rng.randrange(1, n + 1)):
            k = rng.random()
            if k < .55 or depth > 3 or self.left < 0:
                out.append(self.inline(frozenset(), ctx, depth))
            elif k < .78:
                out.append(self.env(rng.choice(["center", "quote", "figure", "theorem", "strange"]), ctx, depth))
            elif k < .86:
                out.append(self.items(ctx, depth))
            elif k < .93:
                out.append(self.table(ctx))
            else:
                t = ["section", len(self.want), None]
                ctx[0] = t
                s = self.inline(frozenset(), ctx, 3)
                t[2] = len(self.want)
                out.append("%s{%s}" % (rng.choice(["\\section", "\\subsection*", "\\paragraph"]), s))
        return "".join(x + rng.choice(["\n", " ", "\n\n"]) for x in out)


def words(t, inh, out):
    """the words of a token (or list) in order, with the styles in force"""
    if isinstance(t, str):
        out += [(w, inh) for w in t.split()]
    elif isinstance(t, list):
        for x in t:
            words(x, inh, out)
    elif isinstance(t, dict) and t.get("type") not in SKIP:
        st = inh | frozenset(t.get("styles") or ())
        words(t.get("title"), st, out)
        words(t.get("content"), st, out)
    return out


def owners(t, out, typ=None):
    if isinstance(t, list):
        for x in t:
            owners(x, out)
    elif isinstance(t, dict):
        if t.get("type") == "label":
            out.append((t.get("content"), t))
        for l in t.get("labels") or ():
            out.append((l, t))
        owners(t.get("title"), out)
        owners(t.get("content"), out)
    return out


def unmerged(t):
    """two neighbouring texts without styles"""
    if isinstance(t, list):
        for a, b in zip(t, t[1:]):
            if all(isinstance(x, dict) and x.get("type") == "text" and "styles" not in x for x in (a, b)):
                return a, b
        return next((r for r in map(unmerged, t) if r), None)
    if isinstance(t, dict) and t.get("type") != "tabular":
        return unmerged(t.get("title")) or unmerged(t.get("content"))
    return None


def kind_of(tok):
    t = tok.get("type")
    return {"paragraph": "section"}.get(t, t)


def fits(tok, env, want):
    """tok is the construct env"""
    kind, a, z = env
    if kind == "section":
        if kind_of(tok) != "section":
            return False
        got = words(tok.get("title"), frozenset(), [])
    else:
        if kind in ("footnote", "caption", "figure", "item"):
            if tok.get("type") != kind:
                return False
        elif tok.get("name") != kind:
            return False
        got = words(tok, frozenset(), [])
    return [w for w, _ in got] == [w for w, _ in want[a:z]]


def judge(tokens, doc):
    """None or what is wrong with the tokens parsed from the document"""
    got = words(tokens, frozenset(), [])
    if [w for w, _ in got] != [w for w, _ in doc.want]:
        g, w = [w for w, _ in got], [w for w, _ in doc.want]
        i = next((i for i in range(min(len(g), len(w))) if g[i] != w[i]), min(len(g), len(w)))
        return "the words from number %d on come out as %r, the source has %r" % (i, g[i:i + 4], w[i:i + 4])
    for (w, s), (_, e) in zip(got, doc.want):
        if e is not None and s - {"normal"} != e:
            return "%s has the styles %s, expected %s" % (w, sorted(s), sorted(e))
    u = unmerged(tokens)
    if u:
        return "the neighbouring texts %r and %r are not joined" % (u[0].get("content"), u[1].get("content"))
    own = owners(tokens, [])
    for name, env, *after in doc.labels:
        at = [t for l, t in own if l == name]
        if len(at) != 1:
            return "label %s is attached %d times" % (name, len(at))
        if env is not None and not fits(at[0], env, doc.want):
            return "label %s belongs to the %s of %r, it is attached to %s" % (name, env[0], [w for w, _ in doc.want[env[1]:env[2]]][:4], str(at[0])[:160])
        if env is None and after and after[0] not in [w for w, _ in words(at[0], frozenset(), [])]:
            return "label %s follows the text %r, it is attached to %s" % (name, after[0], str(at[0])[:160])
    if len(own) != len(doc.labels):
        return "%d labels attached, %d in the source" % (len(own), len(doc.labels))
    return None


def run(b):
    from latex2json.parser.tex_parser import LatexParser
    logging.disable(logging.CRITICAL)
    rng = b.rng
    p = LatexParser()
    b.begin("documents")
    while not b.full() and b.parts[b.part] < (1500 if b.tier == "quick" else 40000):
        d = Doc(rng, rng.choice([2, 4, 8, 16]))
        src = d.body([None], 0)
        b.case(src)
        try:
            with limit(15), quiet():
                p.clear()
                tokens = p.parse(src)
        except Timeout:
            b.fail(src, "parsing %r does not end" % src, source=src)
            return
        why = judge(tokens, d)
        if why:
            b.fail(src, "parsing %r: %s" % (src, why), source=src, tokens=tokens)
            if len(b.bad) > 5:
                return
