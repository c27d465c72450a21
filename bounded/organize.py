"""Token trees for the document builder and an independent account of what organizing and numbering must give (C05, C06)."""
import copy, itertools, re

STYLES = [None, None, None, ["bold"], ["italic"], ["bold", "italic"], ["italic", "bold"], ["bold", "bold"]]
COUNTED = ["equation", "table", "figure", "algorithm"]
uid = itertools.count()


def text(rng, s=None):
    t = {"type": "text", "content": rng.choice(["a%d", "b%d ", " c%d", "(%d", "%d,", ".%d", "d%d"]) % next(uid)}
    st = rng.choice(STYLES) if s is None else s
    if st:
        t["styles"] = list(st)
    if rng.random() < .08:
        t["labels"] = ["l%d" % next(uid)]
    return t


def section(rng, level, numbered=True):
    return {"type": "section", "title": [text(rng, []) for _ in range(rng.randrange(1, 3))], "level": level, "numbered": numbered}


def small(rng, k):
    """the token kinds of the exhaustive enumeration"""
    if k == "text":
        return text(rng, [])
    if k == "bold":
        return text(rng, ["bold"])
    if k.startswith("s"):
        return section(rng, int(k[1]), not k.endswith("*"))
    if k.startswith("p"):
        return {"type": "paragraph", "title": [text(rng, [])], "level": int(k[1])}
    if k == "appendix":
        return {"type": "appendix"}
    if k == "bib":
        return {"type": "bibliography", "content": [{"type": "bibitem", "cite_key": "k%d" % next(uid), "format": "bibitem", "content": [text(rng, [])], "fields": {}, "label": None}]}
    if k == "eq":
        return {"type": "equation", "content": "x%d" % next(uid), "display": "block", "numbered": True}
    if k == "eq*":
        return {"type": "equation", "content": "x%d" % next(uid), "display": "block"}
    if k == "thm":
        return {"type": "math_env", "name": "theorem", "content": [text(rng, [])], "numbered": True}
    if k == "table":
        return {"type": "table", "numbered": True, "content": [{"type": "tabular", "environment": "tabular", "content": [["q%d" % next(uid), [text(rng, []), text(rng, [])]], [None, {"content": "z", "rowspan": 1, "colspan": 2}]]},
                                                                  {"type": "caption", "content": [text(rng, [])]}]}
    if k == "list":
        return {"type": "list", "content": [{"type": "item", "content": [text(rng, []), {"type": "list", "content": [{"type": "item", "content": [text(rng, [])]}]}]}, {"type": "item", "content": [text(rng, [])]}]}
    raise KeyError(k)


KINDS = ["text", "bold", "s1", "s1*", "s2", "s3", "p1", "p2", "appendix", "bib", "eq", "eq*", "thm", "table", "list"]


def tokens(rng, depth, n=None):
    return [token(rng, depth) for _ in range(rng.randrange(0, 8) if n is None else n)]


def token(rng, depth):
    r = rng.random()
    if r < .3:
        return text(rng)
    if r < .5:
        lv = rng.choice([1, 1, 2, 2, 3, 3, 0, 4, 5, 6] if rng.random() < .3 else [1, 2, 3])
        t = section(rng, lv, rng.random() < .75)
        if rng.random() < .2:
            t["labels"] = ["l%d" % next(uid)]
        return t
    if r < .58:
        return {"type": "paragraph", "title": [text(rng)], "level": rng.choice([1, 1, 2, 3])}
    if r < .61:
        return {"type": "appendix"} if rng.random() < .7 or depth < 1 else {"type": "appendix", "content": tokens(rng, depth - 1)}
    if r < .63:
        return small(rng, "bib")
    if r < .73 or depth < 1:
        t = {"type": "equation", "content": "e%d" % next(uid), "display": rng.choice(["block", "inline"])}
        if rng.random() < .6:
            t["numbered"] = rng.random() < .85
        if rng.random() < .2:
            t["labels"] = ["l%d" % next(uid)]
        return t
    if r < .78:
        return small(rng, rng.choice(["table", "list", "bib"]))
    k = rng.choice(["math_env", "math_env", "figure", "table", "algorithm", "list", "environment", "quote", "document", "abstract", "footnote", "caption", "group", "item"])
    t = {"type": k, "content": tokens(rng, depth - 1)}
    if k in COUNTED + ["math_env"] and rng.random() < .75:
        t["numbered"] = rng.random() < .9
    if rng.random() < .1:
        t["labels"] = ["l%d" % next(uid)]
    if k in ("environment", "math_env", "quote"):
        t["name"] = rng.choice(["theorem", "proof", "Lemma"])
        if rng.random() < .3:
            t["title"] = [text(rng), text(rng)]
    return t


# ------------------------------------------------------------------------------------ the account
J = "\0"                            # where two texts were joined: at most one space may stand there


def joined(toks):
    out = []
    for t in toks:
        p = out[-1] if out else None
        if isinstance(t, dict) and t.get("type") == "text" and isinstance(p, dict) and p.get("type") == "text" and p.get("styles") == t.get("styles"):
            p["content"] += J + t["content"]
            if t.get("labels"):
                p["labels"] = p.get("labels", []) + t["labels"]
        else:
            out.append(t)
    return out


def join_all(toks, concat=True):
    out = []
    for t in toks:
        if isinstance(t, dict):
            t = dict(t)
            if isinstance(t.get("title"), list):
                t["title"] = join_all(t["title"])
            if t.get("type") == "tabular":
                t["content"] = [join_all(r, False) for r in t["content"]]
            elif isinstance(t.get("content"), list):
                t["content"] = join_all(t["content"])
        elif isinstance(t, list):
            t = join_all(t)
        out.append(t)
    return joined(out) if concat else out


class Number:
    """numbers in document order"""

    def __init__(self):
        self.n = dict.fromkeys(COUNTED, 0)
        self.path, self.part, self.thm = {}, 0, 0

    def top(self, app):
        k = self.path.get(1, 0)
        return "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[k - 1] if app and 0 < k <= 26 else "@" if app else str(k)

    def see(self, t, app):
        k = t.get("type")
        if k == "section":
            if not t.get("numbered", True):
                return None
            lv = t.get("level", 1)
            if lv == 0:
                self.part += 1
                return str(self.part)
            self.path = {i: c for i, c in self.path.items() if i <= lv}
            self.path[lv] = self.path.get(lv, 0) + 1
            if lv == 1:
                self.thm = 0
            return ".".join([self.top(app)] + [str(self.path.get(i, 0)) for i in range(2, lv + 1)])
        if not t.get("numbered"):
            return None
        if k == "math_env":
            self.thm += 1
            s = self.top(app)
            return "%s.%d" % ("0" if s == "@" else s, self.thm)
        if k in self.n:
            self.n[k] += 1
            return str(self.n[k])


def numbered(toks, nb, app=False):
    """number every token, containers first, then what they hold (a section holds nothing of its own yet)"""
    for t in toks:
        if not isinstance(t, dict):
            continue
        if t["type"] == "appendix":
            app = True
            nb.path = {}
            numbered(t.get("content") or [], nb, True)
            continue
        if t["type"] != "section":
            k = nb.see(t, app)
            if k is not None:
                t["numbering"] = k
        if isinstance(t.get("content"), list):
            numbered(t["content"], nb, app)
        if t["type"] == "section":
            k = nb.see(t, app)
            if k is not None:
                t["numbering"] = k


def arranged(toks, depth=0):
    """every token under the closest open section or paragraph before it"""
    top = []
    root, opn = top, []
    for t in toks:
        k = t.get("type") if isinstance(t, dict) else None
        if k == "appendix":
            t["content"] = arranged(t.get("content") or [], depth)
            top.append(t)
            root, opn = t["content"], []
            continue
        if isinstance(t, dict) and isinstance(t.get("content"), list):
            t["content"] = arranged(t["content"], depth + (k == "list"))
        if k == "list":
            t["depth"] = depth + 1
        if k == "bibliography":
            root, opn = top, []
        elif k == "section":
            opn = [o for o in opn if o["type"] == "section" and o["level"] < t["level"]]
        elif k == "paragraph":
            opn = [o for o in opn if o["type"] == "section" or o["level"] < t["level"]]
        (opn[-1]["content"] if opn else root).append(t)
        if k in ("section", "paragraph"):
            t["content"] = []
            opn.append(t)
    return top


def expected(toks):
    t = join_all(copy.deepcopy(toks))
    numbered(t, Number())
    return arranged(t)


def diff(got, want, path="", numbering=True, tree=True):
    """first difference, or None"""
    if isinstance(want, str) and isinstance(got, str):
        if J in want:
            return None if re.fullmatch(" ?".join(re.escape(x) for x in want.split(J)), got) else "%s: %r, expected %r" % (path, got, want.replace(J, ""))
        return None if got == want else "%s: %r, expected %r" % (path, got, want)
    if isinstance(want, dict) and isinstance(got, dict):
        for k in list(want) + [k for k in got if k not in want]:
            if k == "numbering" and not numbering:
                continue
            if k not in got or k not in want:
                return "%s (%s): %s %r is %s" % (path, got.get("type"), k, want.get(k, got.get(k)), "missing" if k in want else "not expected")
            d = diff(got[k], want[k], path + "/" + k, numbering, tree)
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        for i in range(max(len(want), len(got))):
            if i >= len(want) or i >= len(got):
                return "%s: %d items, expected %d; %r" % (path, len(got), len(want), (want + got)[min(len(want), len(got))])
            d = diff(got[i], want[i], path + "/%d" % i, numbering, tree)
            if d:
                return d
        return None
    return None if got == want and type(got) is type(want) else "%s: %r, expected %r" % (path, got, want)


def numbers(toks, out):
    """(type, number) in reading order"""
    for t in toks:
        if isinstance(t, dict):
            if t.get("type") in COUNTED + ["section", "math_env"]:
                out.append((t["type"], t.get("numbering"), t.get("level")))
            for k in ("title", "content"):
                if isinstance(t.get(k), list):
                    numbers(t[k], out)
        elif isinstance(t, list):
            numbers(t, out)
    return out


LATEX = [r"\section{S%d}", r"\section*{U%d}", r"\subsection{T%d}", r"\subsubsection{V%d}", r"\subsection*{W%d}", r"\paragraph{P%d} ", r"\subparagraph{Q%d} ", r"\part{R%d}",
         "\\begin{equation} x_{%d} \\end{equation}", "\\begin{equation*} y_{%d} \\end{equation*}", "\\begin{align} a &= %d \\\\ b &= 2 \\nonumber \\end{align}",
         "\\begin{theorem} th %d \\end{theorem}", "\\begin{lemma} le %d \\begin{equation} u \\end{equation} \\end{lemma}", "\\begin{thm*} st %d \\end{thm*}",
         "\\begin{figure} \\includegraphics{f%d} \\caption{cap} \\end{figure}", "\\begin{table} \\begin{tabular}{c} c%d \\end{tabular} \\caption{tc} \\end{table}", "\\begin{figure*} g%d \\end{figure*}",
         "\\begin{itemize} \\item i%d \\begin{enumerate} \\item j \\end{enumerate} \\item k \\end{itemize}", "\\begin{algorithm} A%d \\end{algorithm}",
         "word %d ", "\\textbf{bold %d} ", "$m_{%d}$ ", "\\appendix ", "\\begin{thebibliography}{9} \\bibitem{b%d} ref \\end{thebibliography}", "\\cite{c%d} "]


def latex(rng):
    n = rng.randrange(1, 14)
    out = ["\\newtheorem{theorem}{Theorem}\\newtheorem{lemma}{Lemma}\\newtheorem*{thm*}{Star}\n"] if rng.random() < .9 else []
    for _ in range(n):
        x = rng.choice(LATEX)
        out.append(x % next(uid) if "%d" in x else x)
    return "\n".join(out)
