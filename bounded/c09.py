"""C09: macros and calls generated as trees; the expected text is written out from the tree."""
import re

LET = ["a", "bc", "x1", "Z", "é"]
SAFE = ["a", "bc ", "1", "(", ")", ", ", "\n", "  ", "{}", "{x}", "\\#", "\\\\", "\\{", "\\}", "\\%", "\\alpha{}", "\\beta,", "$x$", "&", "^", "_", "~", "{a{b{c}}}", "\\$", "@", "\\,", "-", "'", "é", "\\&", "{\\}}", "<", "\\\\\\#", "\\\\[1pt]", "\\foox{}", "\\fo{}"]
MARKS = ["#", "##", "#0", "#1", "#2", "#9", "##1", "###2", "\\#1", "\\\\#1", "#10", "# 1"]


def oracle(body, args):
    """the body with the marks of the lowest level replaced, character by character"""
    if not args:
        return body
    items, i = [], 0
    while i < len(body):
        if body[i] == "\\":
            items.append((0, body[i:i + 2]))
            i += 2
        elif body[i] == "#":
            j = i
            while j < len(body) and body[j] == "#":
                j += 1
            if j < len(body) and body[j] in "123456789":
                items.append((j - i, body[i:j + 1]))
                i = j + 1
            else:
                items.append((0, body[i:j]))
                i = j
        else:
            items.append((0, body[i]))
            i += 1
    low = min([n for n, _ in items if n], default=0)
    out = ""
    for n, s in items:
        k = int(s[-1]) if n else 0
        out += (args[k - 1] or "") if n and n == low and k <= len(args) else s
    return out


class Macro:
    """name, how it is defined, number of arguments, defaults, body as a list of strings and parameter numbers"""

    def __init__(self, rng, name, others, kind=None):
        self.name = name
        self.kind = kind or rng.choice(["newcommand", "newcommand", "newcommand", "renewcommand*", "providecommand", "def", "def", "DeclareRobustCommand", "plain"])
        self.n = rng.choice([0, 1, 1, 2, 2, 3, 4, 9])
        self.defaults, self.delims = [], []
        if self.kind == "def":
            self.n = min(self.n, 4)
            self.delims = [rng.choice(["", "", "", ".", ",", ";", "|", "to", "\\to"]) for _ in range(self.n)]
        elif self.n and rng.random() < .4:
            self.defaults = ["".join(rng.choice(["", "d", "x y", "\\&", "#", "0", "{q}", "=", ","]) for _ in range(2)) for _ in range(1)]
        if self.kind == "plain":
            self.n, self.kind = 0, "newcommand"
        self.body = []
        for _ in range(rng.randrange(0, 6)):
            r = rng.random()
            if r < .45 and self.n:
                self.body.append(rng.randrange(1, self.n + 1))
            elif r < .55 and others:
                self.body.append(call(rng, rng.choice(others), others, 1, self.n))
            else:
                self.body.append(rng.choice(SAFE))
        if any(isinstance(x, int) for x in self.body) and rng.random() < .2:
            self.body.append(rng.choice(["##1", "##2", "###1"]))     # (beside marks of this level)

    def source(self):
        b = "".join("#%d" % x if isinstance(x, int) else x if isinstance(x, str) else x.source() for x in self.body)
        if self.kind == "def":
            return "\\def\\%s%s{%s}" % (self.name, "".join("#%d%s" % (i + 1, d) for i, d in enumerate(self.delims)), b)
        star = "*" if self.kind.endswith("*") else ""
        return "\\%s%s{\\%s}%s%s{%s}" % (self.kind.rstrip("*"), star, self.name, "[%d]" % self.n if self.n else "", "".join("[%s]" % d for d in self.defaults), b)


class Call:
    def __init__(self, m, parts, args, sep):
        self.m, self.parts, self.args, self.sep = m, parts, args, sep

    def source(self):
        s = "\\" + self.m.name
        for sp, l, a, r in self.parts:
            s += sp + l + text(a) + r
        return s + self.sep

    def expand(self):
        vals = [expand(a) if a is not None else None for a in self.args]
        out = ""
        for x in self.m.body:
            out += (vals[x - 1] or "") if isinstance(x, int) else x if isinstance(x, str) else x.expand_in(vals)
        return out + self.sep

    def expand_in(self, outer):
        """a call inside a body: its arguments may mention the outer parameters"""
        vals = ["".join((outer[x - 1] or "") if isinstance(x, int) else x if isinstance(x, str) else x.expand_in(outer) for x in a) if a is not None else None for a in self.args]
        out = ""
        for x in self.m.body:
            out += (vals[x - 1] or "") if isinstance(x, int) else x if isinstance(x, str) else x.expand_in(vals)
        return out + self.sep


def text(a):
    return "".join("#%d" % x if isinstance(x, int) else x if isinstance(x, str) else x.source() for x in a)


def expand(a):
    return "".join(x if isinstance(x, str) else x.expand() for x in a)


def call(rng, m, others, depth, params=0):
    parts, args = [], []
    sp = lambda: rng.choice(["", "", "", " ", "\n "])

    def arg():
        out = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            r = rng.random()
            if r < .3 and params:
                out.append(rng.randrange(1, params + 1))
            elif r < .5 and depth > 0 and others:
                out.append(call(rng, rng.choice(others), others, depth - 1, params))
            elif r < .6 and not params:
                out.append(rng.choice(MARKS))
            else:
                out.append(rng.choice(SAFE))
        return out
    short = m.n and m.kind != "def" and rng.random() < .08
    for i in range(m.n):
        if i < len(m.defaults):
            if rng.random() < .5:
                args.append([m.defaults[i]])
            else:
                a = ["".join(rng.choice(["", "o", "p q", "\\&", "{z}", "k=1"]) for _ in range(2))]
                parts.append((rng.choice(["", "", " "]), "[", a, "]"))
                args.append(a)
        elif short:
            args.append(None)
        elif m.kind == "def" and m.delims[i]:
            a = rng.choice([["ab"], ["{x}"], ["a{b}"], ["q{%s}z" % m.delims[i]], ["1"], [" r s "]])
            parts.append((" " if not parts else "", "", a, m.delims[i]))
            # blanks in front are skipped; one group that is all of the argument loses its braces
            v = a[0].lstrip()
            args.append([v[1:-1] if re.fullmatch(r"\{[^{}]*\}", v) else v])
        elif m.kind == "def" and rng.random() < .3:
            t = rng.choice(["7", "+", "\\gamma" if i == m.n - 1 else "=", "\\&"])
            parts.append((" ", "", [t], ""))
            args.append([t])
        else:
            a = arg()
            parts.append((sp(), "{", a, "}"))
            args.append(a)
    return Call(m, parts, args, rng.choice(["", " ", ".", "-", ". ", ")"]) if parts and not short and not (parts[-1][2] == ["\\gamma"]) else rng.choice([".", "-", ")", "; "]))


def document(rng, macros):
    out = []
    for _ in range(rng.randrange(1, 6)):
        out.append(rng.choice(SAFE + MARKS[:3]) if rng.random() < .5 else call(rng, rng.choice(macros), macros, 2))
    return out


def squeeze(s):
    return re.sub(r"[\s{}]+", "", s)


def run(b):
    from pyvc.runner import limit, Timeout, quiet
    from latex2json.utils.tex_utils import substitute_args
    from latex2json.parser.handlers.command_manager import CommandManager
    from latex2json.parser.handlers.environment import EnvironmentProcessor
    rng = b.rng
    b.begin("substitution of marks")
    while not b.full() and b.parts[b.part] < (6000 if b.tier == "quick" else 150000):
        body = "".join(rng.choice(MARKS + MARKS + SAFE) for _ in range(rng.randrange(0, 6)))
        args = [rng.choice(["", "A", "#1", "#2", "\\", "{#1}", "B#", None, "\\g", "\\1", "$&", "#"]) for _ in range(rng.randrange(0, 10))]
        b.case((body, args))
        want = oracle(body, args)
        got = substitute_args(body, list(args))
        if got != want:
            b.fail("substitute_args %r %r" % (body, args), "substitute_args(%r, %r) gives %r, expected %r" % (body, args, got, want), body=repr(body), args=repr(args))
        got = substitute_args(body, list(args), True)
        if squeeze(got) != squeeze(want):
            b.fail("math substitute_args %r %r" % (body, args), "in math mode substitute_args(%r, %r) gives %r, expected %r up to braces" % (body, args, got, want), body=repr(body), args=repr(args))
    b.begin("macro calls")
    while not b.full() and b.parts[b.part] < (4000 if b.tier == "quick" else 100000):
        names = rng.sample(["foo", "foob", "fo@o", "ba", "bax", "Q"], 3)
        ms = []
        for n in names:
            ms.append(Macro(rng, n, list(ms)))
        cm = CommandManager()
        with quiet():
            order = list(ms)
            rng.shuffle(order)
            for m in order:
                src = m.source()
                tok, end = cm.process_definition(src)
                if not tok or end != len(src):
                    b.fail("definition %r" % src, "the definition %r is not taken in completely (%r)" % (src, end), source=repr(src))
        doc = document(rng, ms)
        src, want = text(doc), expand(doc)
        b.case((src, [m.source() for m in ms]))
        defs = " ".join(m.source() for m in ms)
        try:
            with limit(15), quiet():
                got = cm.expand_commands(src, True)[0]
                mgot = cm.expand_commands(src, True, True)[0]
        except Timeout:
            got = mgot = "does not end"
        except Exception as e:
            got = mgot = repr(e)
        if got != want:
            b.fail("expand %s | %r" % (defs, src), "with %s, %r expands to %r, expected %r" % (defs, src, got, want), definitions=defs, text=repr(src))
        elif squeeze(mgot) != squeeze(want):
            b.fail("math %s | %r" % (defs, src), "with %s, %r expands in math mode to %r, expected %r up to braces" % (defs, src, mgot, want), definitions=defs, text=repr(src))
        # the first call alone, as the parser's main loop meets it
        c = next((x for x in doc if isinstance(x, Call)), None)
        if c is not None:
            rest = text(doc[doc.index(c) + 1:])
            with quiet():
                out, end = cm.processor.handle(c.source() + rest)
            k = len(c.source()) - len(c.sep)
            if end != k:
                b.fail("handle %s | %r" % (defs, c.source() + rest), "with %s, the call in front of %r is taken to end at %d, it ends at %d" % (defs, c.source() + rest, end, k), definitions=defs, text=repr(c.source() + rest))
    b.begin("environment arguments")
    while not b.full() and b.parts[b.part] < (1500 if b.tier == "quick" else 30000):
        n = rng.randrange(0, 5)
        opt = ["d%d" % i for i in range(rng.randrange(0, min(n, 2) + 1))]
        mk = lambda: "".join(rng.choice(["#%d" % rng.randrange(1, n + 1) if n else "", rng.choice(SAFE)]) for _ in range(rng.randrange(0, 5)))
        beg, end = mk(), mk()
        ep = EnvironmentProcessor()
        ep.process_environment_definition("thing", beg, end, n, opt)
        args, src = [], ""
        for i in range(n):
            if i < len(opt):
                if rng.random() < .5:
                    args.append(opt[i])
                    if i + 1 < len(opt):
                        continue
                else:
                    args.append(rng.choice(["o", "#1", "", "p{q}"]))
                    src += "[%s]" % args[-1]
            else:
                args.append(rng.choice(["", "A", "#1", "#2 {x}", "\\&"]))
                src += "{%s}" % args[-1]
        if len(opt) == 2 and src.count("[") < 2 and src.startswith("[") and args[0] == opt[0]:
            continue                            # (the second optional argument alone is read as the first)
        rest = rng.choice(["", "text", " [q] {z}", "\n#1 #2"])
        b.case((n, opt, beg, end, src, rest))
        got = ep.expand_environments("thing", src + rest)
        want = oracle(beg, args) + "\n" + rest + "\n" + oracle(end, args)
        if got != want:
            b.fail("environment %r" % ((beg, end, n, opt, src + rest),), "an environment with begin %r, end %r, %d arguments, defaults %r expands %r to %r, expected %r" % (beg, end, n, opt, src + rest, got, want), begin=repr(beg), end=repr(end), text=repr(src + rest))
