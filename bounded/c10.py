"""C10, bounded: recognizers on texts starting at any place of random documents (well formed, damaged, soup), and whole parses
of texts without macro definitions."""
import logging, re
from bounded.latexgen import Gen, soup, swarm, mutate, FRAG
from pyvc.runner import limit, Timeout, quiet

# what defines something a later use of which is expanded (outside this property: an expansion may grow without end)
DEFS = re.compile(r"\\(?:(?:re)?new|provide|let|g?def|edef|xdef|future|Declare|csname|expandafter|NewDoc|savebox|sbox|ifthenelse|forloop|foreach|input|include)")


def recognizers(p):
    out = [(type(h).__name__, h) for h in p.handlers]
    out += [("IfElseBlockHandler", p.if_else_block_handler), ("LegacyFormattingHandler", p.legacy_formatting_handler), ("CommandManager", p.command_manager)]
    return out


def one(name, h, s):
    """None or what is wrong with this recognizer on the text"""
    if not h.can_handle(s):
        return None
    r = h.handle(s) if name == "CommandManager" else h.handle(s, None) if name not in ("IfElseBlockHandler",) else h.handle(s)
    end = r[1]
    if not isinstance(end, int) or isinstance(end, bool):
        return "%s gives the length %r" % (name, end)
    if end < 0 or end > len(s):
        return "%s consumes %d of %d characters" % (name, end, len(s))
    if end == 0 and r[0] is not None and r[0] != "" and name not in ("CommandManager", "IfElseBlockHandler", "LegacyFormattingHandler"):
        return "%s gives %r and consumes nothing" % (name, r[0])
    if end == 0 and name not in ("CommandManager", "IfElseBlockHandler", "LegacyFormattingHandler"):
        return "%s accepts the text and consumes nothing" % name
    return None


def text(rng):
    k = rng.random()
    if k < .3:
        return swarm(rng)
    k = (k - .3) / .7
    return Gen(rng).document() if k < .3 else mutate(rng, Gen(rng).document()) if k < .6 else soup(rng, rng.choice([4, 9, 20]))


def run(b):
    from latex2json.parser.tex_parser import LatexParser
    logging.disable(logging.CRITICAL)
    rng = b.rng
    quick = b.tier == "quick"
    p = LatexParser()
    for s in SPECIAL:
        b.begin("known troublemakers")
        b.case(s)
        if whole(b, p, s, False) or whole(b, p, s, True):
            return
    b.begin("commands with every kind of tail")
    cmds = commands(p)
    tails = TAILS + ([a + c for a in TAILS for c in TAILS] if not quick else [])
    todo = [c + t for c in cmds for t in tails]
    if quick:
        rng.shuffle(todo)
    for s in todo:
        if b.full(.6):
            break
        b.case(s)
        if recognize(b, p, s) and len(b.bad) > 5:
            return
        if rng.random() < .25 and not DEFS.search(s) and whole(b, p, s + rng.choice(["", " x", "\n\n"]), False):
            return
    b.begin("recognizers")
    while not b.full(.75) and b.parts[b.part] < (2500 if quick else 60000):
        t = text(rng)
        starts = [m.start() for m in re.finditer(r"\\|\$|\{|~|\d", t)]
        s = t[rng.choice(starts):] if starts and rng.random() < .9 else t
        if rng.random() < .3:
            s = s[:rng.randrange(len(s) + 1)]
        if not s:
            continue
        b.case(s)
        if recognize(b, p, s) and len(b.bad) > 5:
            return
    b.begin("documents")
    while not b.full() and b.parts[b.part] < (700 if quick else 20000):
        s = text(rng)
        if DEFS.search(s):
            s = DEFS.sub(lambda m: "\\" + "x" + m.group()[2:], s)
        b.case(s)
        if whole(b, p, s, rng.random() < .4):
            return


def recognize(b, p, s):
    p.clear()
    for name, h in recognizers(p):
        try:
            with limit(5), quiet():
                why = one(name, h, s)
        except Timeout:
            if DEFS.search(s):
                continue
            why = "%s does not end" % name
        except RecursionError:
            continue
        except Exception as e:
            why = "%s raises %s: %s" % (name, type(e).__name__, str(e)[:120])
        if why:
            b.fail((name, s), "on %r: %s" % (s, why), source=s, recognizer=name)
            return True
    return False


TAILS = ["", " ", "\n", " \n ", "{", "{}", "{a", "{a}", "{a}{", "{a}{b}", "{a}{b", "{a}{b}{c}", "{a}{b}{c}{d}", "{a}[", "{a}[b]{c}", "[", "[]", "[a", "[a]", "[a]{", "[a]{b}", "[a]{b", "[a][b]{c}", "*", "*{", "*{a}", "*[a]{b}", "\\", "{\\}", "{{}", "}",
         "=", "=\n", "=a", "=\\hbox{a}", "=\\hbox", "1", " a", "\n\n{a}", "{ }", "{ a } { b }", "(", "(1,2)", "(1,2)[", "(1,2){a}", "{\\a}", "\\a", "\\a{b}", "\\a=1", "{a}\\end{a}", "[{]}]{a}", "{a}\n%b\n{c}", "$", "{$}", "a\\fi", "\\else", "\\fi", "{\\else}",
         "{a}\\b", "\u00e9", "{\u00e9}", "\x00", "|a", "|a|", "\"", "\"41", "`", "'", "`\\a", "<a", "<a>", "<a>[b]{c}", "  {a}  ", "[a] {b} c", "{a,b=c,d={e}}", "[a=b,c]{d}", "{a}{b}{c}{d}{e}{f}", "{a}{b}[c]{d}{e}{f}{g}", "\\x in {1,2}{b}", "\\x in {1", "-", "1.5em", "=1.5em"]


def commands(p):
    """the control words (and environments) named in the recognizers' own patterns and in the fragments"""
    out = {f for f in FRAG if f.startswith("\\")}

    def pats(x, depth=0):
        if isinstance(x, re.Pattern):
            for m in re.finditer(r"\\\\(?:\(\?:)?([A-Za-z@|]+)", x.pattern):
                out.update("\\" + w for w in m.group(1).split("|") if w)
        elif depth < 2 and isinstance(x, dict):
            for k, v in x.items():
                pats(v, depth + 1)
                if isinstance(k, str) and k.isalpha():
                    out.update({"\\" + k, "\\begin{%s}" % k})
        elif depth < 2 and isinstance(x, (list, tuple)):
            for v in x:
                pats(v, depth + 1)
    import sys
    for name, m in list(sys.modules.items()):
        if name.startswith("latex2json.parser.") and m is not None:
            for k, v in list(vars(m).items()):
                if not k.startswith("__"):
                    pats(v)
    return sorted(out)


def whole(b, p, s, pre):
    try:
        with limit(10), quiet():
            p.clear()
            p.parse(s, preprocess=pre)
    except Timeout:
        b.fail(("parse", s), "parsing %r%s does not end" % (s, " with preprocessing" if pre else ""), source=s)
        return True
    except RecursionError:
        if s.count("{") + s.count("\\begin") > 100:
            return False
        b.fail(("parse", s), "parsing %r raises RecursionError" % s, source=s)
        return True
    except Exception as e:
        b.fail(("parse", s), "parsing %r%s raises %s: %s" % (s, " with preprocessing" if pre else "", type(e).__name__, str(e)[:200]), source=s)
        return len(b.bad) > 5
    return False


SPECIAL = ["\\newenvironment{a}[\u00b2]{x}{y}", "\\beginfoo x \\endbeginfoo", "$\\array \\array x \\endarray yy$", "\\begin{tikzpicture} a", "\\begin{overpic}[x]{y}", "{a", "\\footnote{a", "\\begin{figure} \\caption{", "\\ifx", "\\if", "\\begin{tabular}", "\\begin{tabular}{c", "$a", "\\(", "\\[", "$$", "\\href{a}", "\\href{a}{",
           "\\begin{thebibliography}{9}\\bibitem{a", "\\verb", "\\verb|a", "\\begin{lstlisting}[a", "\\item[", "\\item", "\\multicolumn{2}{c}", "\\author{", "\\title", "\\section", "\\section*[", "\\begin{equation}\\label{",
           "\\begin", "\\begin{", "\\end{a}", "\\bibliography{}", "\\unknown{", "\\unknown{a}{", "\\color{red", "\\bf{", "{\\it a", "\\'", "\\\"{", "\\~", "\\^", "\\", "\\\\[", "\\parbox", "\\parbox[t]{", "\\fbox{", "\\raisebox{1pt}",
           "\\textbf", "\\textbf ", "\\textbf{", "\\frac{a}", "\\subfloat[a", "\\twocolumn[", "\\romannumeral 3", "\\cite[", "\\cite", "\\captionof{figure}", "\\begin{theorem}[", "\\begin{align}a\\end{align*}", "\\begin{minipage}", "\\vspace{", "\\hspace*", "\\includegraphics[", "\\label{", "\\ref{", "\\url{", "\\char", "\\char\"", "\\char`"]
