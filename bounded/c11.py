"""C11: typed tokens and JSON against an independent account of every token type's class and declared fields."""
import itertools, json, os, tempfile, shutil
from .latexgen import Gen, soup, mutate

W = itertools.count()
CLS = dict(document="DocumentToken", title="TitleToken", section="SectionToken", paragraph="ParagraphToken", abstract="AbstractToken", appendix="AppendixToken", command="CommandToken",
           text="TextToken", quote="QuoteToken", environment="EnvironmentToken", math_env="MathEnvToken", figure="FigureToken", subfigure="SubFigureToken", table="TableToken", tabular="TabularToken",
           caption="CaptionToken", includegraphics="IncludeGraphicsToken", includepdf="IncludePdfToken", diagram="DiagramToken", list="ListToken", item="ItemToken", equation="EquationToken",
           code="CodeToken", algorithm="AlgorithmToken", algorithmic="AlgorithmicToken", citation="CitationToken", ref="ReferenceToken", url="UrlToken", footnote="FootnoteToken",
           bibliography="BibliographyToken", bibitem="BibItemToken", author="AuthorToken", email="EmailToken", affiliation="AffiliationToken", keywords="KeywordsToken", address="AddressToken", group="GroupToken")
# declared fields besides content, styles and labels: s = plain value, t = token list (or text), d = dictionary of texts, p = dictionary of token lists, 1 = one token
FIELDS = dict(environment=dict(name="s"), math_env=dict(name="s", numbering="s", title="t", proof="1"), command=dict(command="s"), section=dict(title="t", level="s", numbering="s"),
              paragraph=dict(title="t", level="s", numbering="s"), equation=dict(align="s", display="s", numbering="s", placeholders="p"), citation=dict(title="t"), ref=dict(title="t"), url=dict(title="t"),
              figure=dict(numbering="s"), table=dict(numbering="s"), caption=dict(title="s"), item=dict(title="t"), list=dict(name="s", depth="s"), bibitem=dict(format="s", cite_key="s", label="s", fields="d"),
              code=dict(title="s", display="s"), algorithm=dict(name="s", numbering="s"), includegraphics=dict(page="s"), includepdf=dict(pages="s"), diagram=dict(name="s"))
DEFAULT = dict(list=dict(depth=1, content=[]), bibitem=dict(format="bibitem"), section=dict(content=[]), paragraph=dict(content=[]), appendix=dict(content=[]), algorithm=dict(content=[]),
               bibliography=dict(content=[]), tabular=dict(content=[]))
TOKENS = "environment quote document abstract figure subfigure table item title appendix caption footnote keywords address affiliation email algorithm group list section paragraph math_env".split()
PLAIN = "code algorithmic includegraphics includepdf diagram url equation text".split()
DROPPED = ["date", "marker", "xyz", "TEXT", "newcommand", ""]


def word(rng):
    return rng.choice(["w%d", "ü%d", "\"%d\\", "a\n%d", "{%d}", "\u2028%d", "$%d$", "<%d>&'", "%d\t\x01", ""][:rng.choice([1, 10])]).replace("%d", str(next(W)))


def common(rng, k):
    d = {"type": k}
    if rng.random() < .3:
        d["styles"] = rng.choice([["bold"], ["color=red", "italic"], []])
    if rng.random() < .3:
        d["labels"] = [word(rng) for _ in range(rng.randrange(1, 3))]
    if rng.random() < .1:
        d["extra"] = "ignored"
    return d


def many(rng, depth, n=3):
    return [tok(rng, depth - 1) for _ in range(rng.randrange(0, n))]


def tok(rng, depth, k=None):
    if k is None:
        k = rng.choice(DROPPED) if rng.random() < .08 else rng.choice(PLAIN + ["citation", "ref", "command"]) if depth <= 0 else rng.choice(list(CLS))
    d = common(rng, k)
    if k in DROPPED:
        d["content"] = many(rng, depth) if rng.random() < .5 else word(rng)
        return d
    if k in ("citation", "ref"):
        d["content"] = [word(rng) for _ in range(rng.randrange(1, 3))]
    elif k == "command":
        d["command"] = "\\" + word(rng)
        if rng.random() < .3:
            d["content"] = word(rng)
    elif k in PLAIN:
        d["content"] = word(rng)
    elif k == "author":
        d["content"] = [many(rng, depth) for _ in range(rng.randrange(0, 3))]
    elif k == "bibliography":
        d["content"] = [tok(rng, depth - 1, rng.choice(["bibitem"] * 5 + ["text", "xyz"])) for _ in range(rng.randrange(0, 3))]
    elif k == "bibitem":
        d["content"] = word(rng) if rng.random() < .4 else many(rng, depth)
    elif k == "tabular":
        d["content"] = [[cell(rng, depth) for _ in range(rng.randrange(0, 4))] for _ in range(rng.randrange(0, 3))]
    elif k in ("list", "math_env", "group", "section", "paragraph", "appendix") or rng.random() < .85:
        d["content"] = many(rng, depth, 4)
    else:
        d["content"] = word(rng)
    if k in ("section", "paragraph", "appendix", "list") and rng.random() < .2:
        del d["content"]
    for f, t in FIELDS.get(k, {}).items():
        must = (k, f) in (("section", "title"), ("section", "level"), ("paragraph", "title"), ("paragraph", "level"), ("math_env", "name"), ("diagram", "name"), ("bibitem", "cite_key"), ("command", "command"))
        if f in d or not (must or rng.random() < .5):
            continue
        if t == "t":
            d[f] = many(rng, depth, 3)
            if k in ("url", "ref", "section") and rng.random() < .15:
                d[f] = word(rng)
        elif t == "p":
            d[f] = {word(rng): many(rng, depth) for _ in range(rng.randrange(0, 3))}
        elif t == "d":
            d[f] = {word(rng): word(rng) for _ in range(rng.randrange(0, 3))}
        elif t == "1":
            d[f] = tok(rng, depth - 1, rng.choice(["math_env", "math_env", "xyz"]) if depth > 0 else "xyz")
        else:
            d[f] = (rng.randrange(0, 5) if f in ("level", "depth", "page") else rng.choice([True, False]) if f == "align" else rng.choice(["inline", "block"]) if (k, f) == ("equation", "display") else word(rng))
    return d


def cell(rng, depth):
    r = rng.random()
    if r < .2:
        return None
    if r < .5:
        return word(rng)
    if r < .7:
        return {"content": rng.choice([None, word(rng)]) if rng.random() < .5 else many(rng, depth), "rowspan": rng.randrange(1, 4), "colspan": rng.randrange(1, 4)}
    if r < .85 or depth <= 0:
        return many(rng, depth)
    return [tok(rng, depth - 1, "group"), tok(rng, depth - 1)]


# --------------------------------------------------------------------------------------- the account
def known(d):
    return isinstance(d, dict) and d.get("type") in CLS


def kids(x):
    return [want(i) for i in x if known(i)] if isinstance(x, list) else x


def drop(d):
    return {k: v for k, v in d.items() if v is not None}


def want(d):
    """what the typed token of this dictionary must carry"""
    k = d["type"]
    o = {"type": k, "class": CLS[k], **DEFAULT.get(k, {}), "styles": d.get("styles"), "labels": d.get("labels")}
    c = d.get("content")
    if k in ("citation", "ref"):
        o["content"] = list(c)
    elif k == "bibliography":
        o["content"] = [want(i) for i in c or [] if isinstance(i, dict) and i.get("type") == "bibitem"]
    elif k == "tabular":
        o["content"] = [[wcell(x) for x in row] for row in c]
    elif k == "author":
        o["content"] = [kids(x) for x in c]
    elif k == "math_env" and not c:
        o["content"] = []
    elif "content" in d:
        o["content"] = kids(c)
    for f, t in FIELDS.get(k, {}).items():
        if f in d:
            v = d[f]
            o[f] = v if v is None else kids(v) if t == "t" else {a: kids(b) for a, b in v.items()} if t == "p" else dict(v) if t == "d" else (want(v) if known(v) else None) if t == "1" else v
    return drop(o)


def wcell(x):
    if isinstance(x, dict):
        return wcell_span(x) if "type" not in x else want(x) if known(x) else None
    return kids(x)


def wcell_span(x):
    return drop({"content": kids(x["content"]), "rowspan": x.get("rowspan", 1), "colspan": x.get("colspan", 1)})


def have(t):
    """the same view of a typed token"""
    from pydantic import BaseModel
    from enum import Enum
    if isinstance(t, Enum):
        return t.value
    if isinstance(t, BaseModel):
        o = drop({k: have(v) for k, v in t.__dict__.items()})
        return {"class": type(t).__name__, **o} if "type" in o else o
    if isinstance(t, (list, tuple)):
        return [have(x) for x in t]
    if isinstance(t, dict):
        return {k: have(v) for k, v in t.items()}
    return t


def strip(x, cls=False):
    """JSON view: no class names, no missing values"""
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if k != "class" and v is not None}
    return [strip(i) for i in x] if isinstance(x, list) else x


def differ(g, w, path="token"):
    if type(g) is not type(w):
        return "%s is %r, not %r" % (path, g, w)
    if isinstance(w, dict):
        for k in list(w) + [k for k in g if k not in w]:
            if k not in g or k not in w:
                return "%s.%s is %s" % (path, k, "missing (%r)" % w[k] if k in w else "extra (%r)" % g[k])
            d = differ(g[k], w[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(w, list):
        for i, (a, b) in enumerate(zip(g, w)):
            d = differ(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None if len(g) == len(w) else "%s has %d entries, not %d" % (path, len(g), len(w))
    return None if g == w else "%s is %r, not %r" % (path, g, w)


def run(b):
    from pyvc.runner import limit, quiet, Timeout
    from latex2json.structure.token_factory import TokenFactory
    from latex2json.structure.builder import TokenBuilder
    from latex2json.parser.tex_parser import LatexParser
    from latex2json.tex_reader import TexReader, ProcessingResult
    rng = b.rng
    F, B, R, P = TokenFactory(), TokenBuilder(), TexReader(), LatexParser()
    tmp = tempfile.mkdtemp(prefix="c11_")

    def tojson(out, key):
        res = ProcessingResult(tokens=out, color_map={"a": {"format": "HTML", "value": "é"}})
        with quiet():
            s = R.to_json(res)
        p = os.path.join(tmp, "o", "x.json")
        if b.parts[b.part] % 50 == 0:
            with quiet():
                R.save_to_json(res, p)
            if open(p, "rb").read() != s.encode("utf-8"):
                b.fail(key, "the saved JSON of %s differs from to_json" % key)
        return json.loads(s)["tokens"]

    def one(d):
        key = "%r" % (d,)
        b.case(d)
        try:
            with limit(20), quiet():
                t = F.create(d)
                js = tojson([t] if t is not None else [], key)
        except Exception as e:
            return b.fail(key[:400], "creating or serializing %r raises %r" % (d, e), input=key)
        if not known(d):
            if t is not None:
                b.fail(key[:400], "the token of unknown type %r is not dropped but becomes %r" % (d, t), input=key)
            return
        w = want(d)
        x = differ(have(t), w)
        if x:
            b.fail(key[:400], "typed token of %r: %s" % (d, x), input=key)
        x = differ(strip(js[0]), strip(w))
        if x:
            b.fail(key[:400], "JSON of %r: %s" % (d, x), input=key)

    def doc(s):
        b.case(s)
        try:
            with limit(30), quiet():
                P.clear()
                toks = P.parse(s)
        except (RecursionError, Timeout, Exception):
            P.__init__()
            return                       # parsing itself is C10's subject
        try:
            with limit(30), quiet():
                org = B.organize_content(toks)
                out = B.build(toks)
                js = tojson(out, s)
        except Exception as e:
            return b.fail(s[:400], "building or serializing the document %r raises %s" % (s, str(repr(e))[:300]), input=s)
        w = [want(t) for t in org if known(t)]
        x = differ([have(t) for t in out], w) or differ(strip(js), strip(w))
        if x:
            b.fail(s[:400], "typed output of the document %r: %s" % (s, x), input=s)
    try:
        b.begin("each type, alone and in each position")
        for k in list(CLS) + DROPPED:
            for n in range(6 if b.tier == "quick" else 60):
                one(tok(rng, n % 3, k))
            for up in "group list item tabular author math_env equation section bibitem bibliography table caption ref footnote".split():
                c = tok(rng, 1, k)
                u = tok(rng, 0, up)
                if up == "tabular":
                    u["content"] = [[[c, tok(rng, 0)], {"content": [c], "rowspan": 1, "colspan": 2}], [None, "x"]]
                elif up == "author":
                    u["content"] = [[c], []]
                elif up == "equation":
                    u["placeholders"] = {"PH": [c]}
                elif up in ("ref", "section"):
                    u["title"] = [tok(rng, 0, "text"), c]
                elif up == "math_env":
                    u["title"], u["content"] = [c], [c, c]
                else:
                    u["content"] = [c, tok(rng, 0, "text")]
                one(u)
        b.begin("documents parsed from LaTeX")
        while not b.full() and b.parts[b.part] < (250 if b.tier == "quick" else 6000):
            r = rng.random()
            doc(Gen(rng).document() if r < .6 else mutate(rng, Gen(rng).document()) if r < .8 else soup(rng))
        b.begin("random token trees")
        while not b.full() and b.parts[b.part] < (3000 if b.tier == "quick" else 100000):
            one(tok(rng, rng.choice([1, 2, 3])))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
