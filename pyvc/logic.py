"""Background logic of pyvc: sorts, sequence theory (strings, lists) as axioms over uninterpreted sorts, solver wrapper."""
import os, subprocess, tempfile, time
import z3

Str = z3.DeclareSort("Str")
Lst = z3.DeclareSort("Lst")
Pat = z3.DeclareSort("Pat")
I, B = z3.IntSort(), z3.BoolSort()

_V = z3.Datatype("Val")
_V.declare("vnone")
_V.declare("vbool", ("vb", B))
_V.declare("vint", ("vi", I))
_V.declare("vstr", ("vs", Str))
_V.declare("vref", ("vr", I))
_V.declare("vtup", ("vt", Lst))
_V.declare("vopq", ("vo", I))
Val = _V.create()

_F = z3.Datatype("Fuel")
_F.declare("fz")
_F.declare("fs", ("fp", z3.DatatypeSort("Fuel")))
Fuel = _F.create()


def fuel(n):
    t = Fuel.fz
    for _ in range(n):
        t = Fuel.fs(t)
    return t


FUEL = 2
F = z3.Function
RL = 1000   # solver resource units per nominal millisecond (deterministic limit)
slen = F("slen", Str, I)
at = F("at", Str, I, I)
sub = F("sub", Str, I, I, Str)
cat = F("cat", Str, Str, Str)
chs = F("chs", I, Str)          # one-character string
sempty = z3.Const("sempty", Str)
sdiff = F("sdiff", Str, Str, I)  # extensionality skolem
vpat = F("vpat", Val, Pat)          # the pattern an element of a list is
isdec = F("isdec", Str, B)          # str.isdecimal()
isws, isalpha, isdigit, isupper, islower = [F(n, I, B) for n in ("isws", "isalpha", "isdigit", "isupper", "islower")]
slower = F("slower", Str, Str)
supper = F("supper", Str, Str)
lsp = F("lsp", Str, I)           # number of leading whitespace characters
rsp = F("rsp", Str, I)           # end of the last non-whitespace character
sstrip = F("sstrip", Str, Str)
srepl = F("srepl", Str, Str, Str, Str)
sfind = F("sfind", Str, Str, I, I)
srfind = F("srfind", Str, Str, I, I)
def field(name):
    """attribute (a text) of a value of unknown type"""
    return F("field_" + name, Val, Str)


s2i = F("s2i", Str, I)
i2s = F("i2s", I, Str)

lnil = z3.Const("lnil", Lst)
snoc = F("snoc", Lst, Val, Lst)
linit = F("linit", Lst, Lst)
llen = F("llen", Lst, I)
lat = F("lat", Lst, I, Val)
lupd = F("lupd", Lst, I, Val, Lst)
lcat = F("lcat", Lst, Lst, Lst)
ltake = F("ltake", Lst, I, Lst)
ldrop = F("ldrop", Lst, I, Lst)
joinE = F("joinE", Lst, Str)           # "".join
joinS = F("joinS", Str, Lst, Str)      # sep.join
splitl = F("splitl", Str, Lst)         # str.splitlines
splits = F("splits", Str, Str, Lst)    # str.split(sep)

# regular expressions: uninterpreted, functional in (pattern, text, position)
rx_found = F("rx_found", Pat, I, Str, I, B)   # second arg: 0 match, 1 search, 2 fullmatch
rx_start = F("rx_start", Pat, I, Str, I, I)
rx_end = F("rx_end", Pat, I, Str, I, I)
rx_gset = F("rx_gset", Pat, I, Str, I, I, B)
rx_gs = F("rx_gs", Pat, I, Str, I, I, I)
rx_ge = F("rx_ge", Pat, I, Str, I, I, I)
mkpat = F("mkpat", Str, Pat)
rx_nonempty = F("rx_nonempty", Pat, B)        # no match of the pattern is empty
re_escape = F("re_escape", Str, Str)


def FA(vs, body, pats):
    return z3.ForAll(vs, body, patterns=pats)


def background():
    s, t, u, v = z3.Consts("s t u v", Str)
    a, b, c, d, k, n = z3.Ints("a b c d k n")
    L, M = z3.Consts("L M", Lst)
    x, y = z3.Consts("x y", Val)
    A = z3.And
    Imp = z3.Implies
    ax = []
    ok = A(0 <= a, a <= b, b <= slen(s))
    ax += [
        FA([s], slen(s) >= 0, [slen(s)]),
        slen(sempty) == 0,
        FA([s], Imp(slen(s) == 0, s == sempty), [slen(s)]),
        FA([s, a, b], Imp(ok, slen(sub(s, a, b)) == b - a), [sub(s, a, b)]),
        FA([s, a, b, k], Imp(A(ok, 0 <= k, k < b - a), at(sub(s, a, b), k) == at(s, a + k)), [at(sub(s, a, b), k)]),
        FA([s, a, b, c, d], Imp(A(ok, 0 <= c, c <= d, d <= b - a), sub(sub(s, a, b), c, d) == sub(s, a + c, a + d)),
           [sub(sub(s, a, b), c, d)]),
        FA([s, b], Imp(b == slen(s), sub(s, 0, b) == s), [sub(s, 0, b)]),
        FA([s, a, b], Imp(A(ok, b == a + 1), sub(s, a, b) == chs(at(s, a))), [sub(s, a, b)]),
        FA([k], A(slen(chs(k)) == 1, at(chs(k), 0) == k), [chs(k)]),
        FA([s, t], slen(cat(s, t)) == slen(s) + slen(t), [cat(s, t)]),
        FA([s, t, k], at(cat(s, t), k) == z3.If(k < slen(s), at(s, k), at(t, k - slen(s))), [at(cat(s, t), k)]),
        FA([s, t, u], cat(cat(s, t), u) == cat(s, cat(t, u)), [cat(cat(s, t), u)]),
        FA([s], cat(s, sempty) == s, [cat(s, sempty)]),
        FA([s], cat(sempty, s) == s, [cat(sempty, s)]),
        FA([s, a, b, c, d], Imp(A(ok, c == b, c <= d, d <= slen(s)), cat(sub(s, a, b), sub(s, c, d)) == sub(s, a, d)),
           [cat(sub(s, a, b), sub(s, c, d))]),
        FA([s, a, b, k], Imp(A(ok, b < slen(s), k == at(s, b)), cat(sub(s, a, b), chs(k)) == sub(s, a, b + 1)),
           [cat(sub(s, a, b), chs(k))]),
        # strip family
        FA([s], A(0 <= lsp(s), lsp(s) <= slen(s), 0 <= rsp(s), rsp(s) <= slen(s),
                  Imp(lsp(s) < slen(s), A(z3.Not(isws(at(s, lsp(s)))), lsp(s) < rsp(s))),
                  Imp(rsp(s) > 0, z3.Not(isws(at(s, rsp(s) - 1)))),
                  Imp(lsp(s) == slen(s), rsp(s) == 0)), [lsp(s)]),
        FA([s], A(0 <= lsp(s), lsp(s) <= slen(s)), [rsp(s)]),
        FA([s, k], Imp(A(0 <= k, k < lsp(s)), isws(at(s, k))), [z3.MultiPattern(lsp(s), at(s, k))]),
        FA([s, k], Imp(A(rsp(s) <= k, k < slen(s)), isws(at(s, k))), [z3.MultiPattern(rsp(s), at(s, k))]),
        FA([s], sstrip(s) == z3.If(rsp(s) <= lsp(s), sempty, sub(s, lsp(s), rsp(s))), [sstrip(s)]),
        FA([s], sstrip(sstrip(s)) == sstrip(s), [sstrip(sstrip(s))]),
        FA([s], A(slen(sstrip(s)) <= slen(s)), [sstrip(s)]),
        FA([s], A(slen(slower(s)) >= 0), [slower(s)]),
        # find
        FA([s, t, k], A(sfind(s, t, k) >= -1, sfind(s, t, k) <= slen(s),
                        Imp(sfind(s, t, k) >= 0, A(sfind(s, t, k) >= k, sfind(s, t, k) + slen(t) <= slen(s),
                            sub(s, sfind(s, t, k), sfind(s, t, k) + slen(t)) == t))), [sfind(s, t, k)]),
        FA([s, t, k], A(srfind(s, t, k) >= -1, Imp(srfind(s, t, k) >= 0,
                        A(srfind(s, t, k) + slen(t) <= slen(s), srfind(s, t, k) + slen(t) <= k,
                          sub(s, srfind(s, t, k), srfind(s, t, k) + slen(t)) == t))), [srfind(s, t, k)]),
        # lists
        FA([L], llen(L) >= 0, [llen(L)]),
        llen(lnil) == 0,
        FA([L], Imp(llen(L) == 0, L == lnil), [llen(L)]),
        FA([L, x], A(llen(snoc(L, x)) == llen(L) + 1, linit(snoc(L, x)) == L, lat(snoc(L, x), llen(L)) == x), [snoc(L, x)]),
        FA([L, x, k], Imp(k < llen(L), lat(snoc(L, x), k) == lat(L, k)), [lat(snoc(L, x), k)]),
        FA([L], Imp(llen(L) > 0, A(snoc(linit(L), lat(L, llen(L) - 1)) == L, llen(linit(L)) == llen(L) - 1)), [linit(L)]),
        FA([L, k], Imp(A(0 <= k, k < llen(L) - 1), lat(linit(L), k) == lat(L, k)), [lat(linit(L), k)]),
        FA([L, k, x], Imp(A(0 <= k, k < llen(L)), A(llen(lupd(L, k, x)) == llen(L), lat(lupd(L, k, x), k) == x)), [lupd(L, k, x)]),
        FA([L, k, x], Imp(A(0 <= k, k == llen(L) - 1), lupd(L, k, x) == snoc(linit(L), x)), [lupd(L, k, x)]),
        FA([L, M, x], lcat(L, snoc(M, x)) == snoc(lcat(L, M), x), [lcat(L, snoc(M, x))]),
        FA([L], lcat(L, lnil) == L, [lcat(L, lnil)]),
        FA([L], lcat(lnil, L) == L, [lcat(lnil, L)]),
        FA([L, M], llen(lcat(L, M)) == llen(L) + llen(M), [lcat(L, M)]),
        FA([L, k], Imp(A(0 <= k, k <= llen(L)), A(llen(ltake(L, k)) == k, llen(ldrop(L, k)) == llen(L) - k)), [ltake(L, k)]),
        FA([L, k], Imp(A(0 <= k, k <= llen(L)), llen(ldrop(L, k)) == llen(L) - k), [ldrop(L, k)]),
        FA([L, k], Imp(A(0 <= k, k < llen(L)), ltake(L, k + 1) == snoc(ltake(L, k), lat(L, k))), [z3.MultiPattern(ltake(L, k), lat(L, k))]),
        FA([L, k], Imp(k == llen(L), ltake(L, k) == L), [ltake(L, k)]),
        FA([L], ltake(L, 0) == lnil, [ltake(L, 0)]),
        FA([L, k, a], Imp(A(0 <= a, a < k, k <= llen(L)), lat(ltake(L, k), a) == lat(L, a)), [lat(ltake(L, k), a)]),
        FA([L, k, a], Imp(A(0 <= a, 0 <= k, a + k < llen(L)), lat(ldrop(L, k), a) == lat(L, a + k)), [lat(ldrop(L, k), a)]),
        joinE(lnil) == sempty,
        FA([L, s], joinE(snoc(L, Val.vstr(s))) == cat(joinE(L), s), [joinE(snoc(L, Val.vstr(s)))]),
    ]
    # regular expressions
    p = z3.Const("p", Pat)
    m = z3.Int("m")
    f = rx_found(p, m, s, k)
    st, en = rx_start(p, m, s, k), rx_end(p, m, s, k)
    ax += [
        FA([p, m, s, k], Imp(f, A(k <= st, st <= en, en <= slen(s), 0 <= st, Imp(m != 1, st == k), Imp(rx_nonempty(p), st < en))), [f]),
        FA([p, m, s, k, n], Imp(A(f, rx_gset(p, m, s, k, n)),
            A(st <= rx_gs(p, m, s, k, n), rx_gs(p, m, s, k, n) <= rx_ge(p, m, s, k, n), rx_ge(p, m, s, k, n) <= slen(s))),
           [rx_gset(p, m, s, k, n)]),
    ]
    return ax


class Solver:
    """Incremental z3 with cvc5 fallback. check() answers 'valid' / 'invalid' / 'unknown' for  axioms & hyps => goal."""

    def __init__(self, extra=(), timeout=4000):
        self.s = z3.Solver()
        self.s.set("auto_config", False)
        self.s.set("smt.mbqi", False)
        self.s.set("smt.random_seed", 1)
        self.timeout = timeout
        self.bg = list(background()) + list(extra)
        for a in self.bg:
            self.s.add(a)
        self.queries = 0
        self.time = 0.0
        self.backend = {"z3": 0, "cvc5": 0}

    def add_axioms(self, axs):
        for a in axs:
            self.bg.append(a)
            self.s.add(a)

    def raw(self, forms, timeout=None):
        t0 = time.time()
        self.s.push()
        try:
            self.s.set("rlimit", RL * (timeout or self.timeout))
            self.s.set("timeout", 20 * (timeout or self.timeout))
            for f in forms:
                self.s.add(f)
            r = self.s.check()
            self.last_model = None
            if r != z3.unsat:
                try:
                    self.last_model = self.s.model()
                except z3.Z3Exception:
                    pass
            self.reason = self.s.reason_unknown() if r == z3.unknown else ""
            return r
        finally:
            self.s.pop()
            self.queries += 1
            self.time += time.time() - t0

    def feasible(self, pc, timeout=150):
        return self.raw(pc, timeout) != z3.unsat

    def valid(self, pc, goal, timeout=None):
        """first the incremental solver with little effort; a search that ran out of it is repeated from scratch"""
        forms = list(pc) + [z3.Not(goal)]
        full = timeout or self.timeout
        r = self.raw(forms, min(full, 400))
        if r != z3.unknown or full <= 400 or "incomplete" in self.reason:
            return r == z3.unsat
        for seed in (1, 2, 3):
            s = z3.Solver()
            s.set("auto_config", False)
            s.set("smt.mbqi", False)
            s.set("smt.random_seed", seed)
            s.set("rlimit", RL * (full if seed == 3 else 800))
            s.set("timeout", 20 * (full if seed == 3 else 800))
            for a in self.bg:
                s.add(a)
            for f in forms:
                s.add(f)
            t0 = time.time()
            r = s.check()
            self.queries += 1
            self.time += time.time() - t0
            if r == z3.unsat:
                return True
            self.reason = s.reason_unknown() if r == z3.unknown else ""
            if r == z3.sat or "incomplete" in self.reason:
                break
        return False

    def smt2(self, pc, goal):
        s = z3.Solver()
        for a in self.bg:
            s.add(a)
        for f in pc:
            s.add(f)
        s.add(z3.Not(goal))
        return "(set-logic ALL)\n" + s.to_smt2()

    def prove(self, pc, goal, use_cvc5=True):
        """-> (status, backend, detail)"""
        if self.valid(pc, goal):
            self.backend["z3"] += 1
            return "valid", "z3", ""
        detail = "z3: %s" % (self.reason or "sat (candidate counterexample)")
        model = self.last_model
        self.cvc5_fail = getattr(self, "cvc5_fail", 0)
        if self.cvc5_fail >= 3:
            use_cvc5 = False      # bounded effort once several obligations have already failed
        if use_cvc5 and os.path.exists("/usr/bin/cvc5") or use_cvc5 and _which("cvc5"):
            t0 = time.time()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as fh:
                fh.write(self.smt2(pc, goal))
            try:
                r = subprocess.run(["cvc5", "--tlimit=8000", fh.name], capture_output=True, text=True, timeout=20)
                out = r.stdout.strip().splitlines()[:1]
                detail += "; cvc5: %s" % (out or [r.stderr.strip()[:80]])[0]
                if out == ["unsat"]:
                    self.backend["cvc5"] += 1
                    return "valid", "cvc5", ""
            except subprocess.TimeoutExpired:
                detail += "; cvc5: timeout"
            finally:
                os.unlink(fh.name)
                self.time += time.time() - t0
        self.model = model
        self.cvc5_fail += 1
        return "failed", "", detail


def _which(n):
    import shutil
    return shutil.which(n)
