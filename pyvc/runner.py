"""Run one property: proofs (parallel), bounded executable contracts, known findings, evidence."""
import contextlib, hashlib, importlib, io, json, os, random, signal, sys, time, traceback
from . import spec as S, concrete
from .engine import Contract

LEVEL_NOTE = None


class Timeout(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """raise Timeout inside the block after the given wall time (hang detection of the code under test)"""
    def h(sig, frm):
        raise Timeout()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


@contextlib.contextmanager
def quiet():
    """swallow what the code under test prints"""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = o, e


class Bad:
    """a concrete violation: key identifies the failing input (for known findings), what = explanation, data = replay data"""

    def __init__(self, key, what, data):
        self.key, self.what, self.data = key, what, data


class Bounded:
    """collector handed to bounded/<id>.py: b.case(nontrivial) counts, b.fail(...) reports"""

    def __init__(self, pid, tier, seed, deadline):
        self.pid, self.tier, self.seed, self.deadline = pid, tier, seed, deadline
        self.rng = random.Random(seed)
        self.evals, self.seen, self.samples, self.bad, self.parts = 0, set(), [], [], {}
        self.part = "main"

    def begin(self, part):
        self.part = part
        self.parts.setdefault(part, 0)

    def time_left(self):
        return self.deadline - time.time()

    last = None

    def case(self, rep, nontrivial=True):
        self.evals += 1
        self.last = rep
        self.parts[self.part] = self.parts.get(self.part, 0) + 1
        if nontrivial:
            h = hash(repr(rep))
            if h not in self.seen:
                self.seen.add(h)
                if len(self.samples) < 8 and len(self.seen) % 37 == 1:
                    self.samples.append(str(rep)[:300])

    def fail(self, key, what, **data):
        self.bad.append(Bad(str(key), what, data))

    def full(self, n=5):
        return len(self.bad) >= n or self.time_left() <= 0


def prove_item(item):
    from . import verify
    kind, name, budget = item
    try:
        if kind == "spec":
            r = verify.check_spec(S.SPECS[name])
            return dict(kind=kind, name=name, status=r["status"], obligations=r.get("goals", 1), discharged=r.get("goals", 1) if r["status"] == "proved" else 0,
                        backend="z3", detail=r.get("how", ""), time=0, failed=[])
        if kind == "lemma":
            r = verify.prove_lemma(S.LEMMAS[name])
            return dict(kind=kind, name=name, status=r["status"], obligations=1, discharged=int(r["status"] == "proved"), backend=r["backend"],
                        detail=r["detail"], time=r["time"], failed=[])
        if kind == "frame":
            from . import frame
            t = time.time()
            obl = frame.frame().obligations()
            bad = [(f, w) for f, w in obl if w]
            return dict(kind=kind, name=name, status="proved" if not bad else "failed", obligations=len(obl), discharged=len(obl) - len(bad), backend="frame", time=round(time.time() - t, 2),
                        detail="; ".join("%s.%s: %s" % (f.mod, f.qual, "; ".join(w)) for f, w in bad[:5]), failed=[dict(kind="frame", where="%s.%s" % (f.mod, f.qual), goal="; ".join(w), solver="", model=None) for f, w in bad[:6]])
        c = Contract.reg[name]
        with limit(budget + 20):
            v = verify.Verifier()
            r = v.verify(c, budget)
        failed = []
        for o in r["failed"][:6]:
            cx = None
            if o.get("model") is not None and o.get("st") is not None:
                try:
                    cx = decode(o["model"], o["st"].entry)
                except Exception:
                    cx = None
            failed.append(dict(kind=o["kind"], where=o["where"], goal=o["goal"], solver=o["detail"], model=cx))
        obl = r["obligations"]
        return dict(kind=kind, name=name, status=r["status"], obligations=len(obl), discharged=sum(o["status"] == "valid" for o in obl),
                    backend=r.get("backend"), detail=r["detail"], time=r["time"], failed=failed, assumptions=r["assumptions"],
                    inlined=r["inlined"], solver_time=r.get("solver_time", 0), loops=len(v.loop_ents), uses=r["uses_contracts"],
                    kinds=sorted({o["kind"].split(":")[0] for o in obl}))
    except Timeout:
        return dict(kind=kind, name=name, status="unsupported", obligations=1, discharged=0, backend=None, detail="time limit", time=budget, failed=[])
    except BaseException as e:
        return dict(kind=kind, name=name, status="unsupported", obligations=1, discharged=0, backend=None,
                    detail="engine error %r %s" % (e, traceback.format_exc()[-600:]), time=0, failed=[])


def decode(model, entry):
    """concrete argument values of a solver model (strings of at most 40 characters)"""
    import z3
    from . import logic as L
    out = {}
    for n, t in entry.items():
        if not hasattr(t, "k"):
            continue
        if t.k == "int":
            out[n] = model.eval(t.t, model_completion=True).as_long()
        elif t.k == "bool":
            out[n] = z3.is_true(model.eval(t.t, model_completion=True))
        elif t.k in ("str", "chr"):
            if t.k == "chr":
                k = model.eval(t.t, model_completion=True).as_long()
                out[n] = chr(k) if 0 < k < 0x10000 else "\x01"
                continue
            m = model.eval(L.slen(t.t), model_completion=True).as_long()
            if m > 40:
                return None
            s = ""
            for i in range(m):
                k = model.eval(L.at(t.t, z3.IntVal(i)), model_completion=True).as_long()
                ws = z3.is_true(model.eval(L.isws(z3.IntVal(k)), model_completion=True))
                ch = chr(k) if 31 < k < 0x10000 else None
                if ch is None or ch.isspace() != ws:
                    ch = " " if ws else "x"
                s += ch
            out[n] = s
        elif t.k == "none":
            out[n] = None
        elif t.k == "inf":
            out[n] = float("inf")
        else:
            return None
    return out


def run_contract_bounded(b, c, n, seconds):
    """execute the contract on the real function: enumerated cases first, then random ones"""
    try:
        cl = concrete.Clauses(c)
        owner, fn = concrete.resolve(c)
    except Exception as e:
        return "not executable: %s" % e
    part = "contract %s" % c.qual
    b.begin(part)
    t0 = time.time()
    fails = 0
    ran = 0

    def one(args):
        nonlocal fails, ran
        rep = {k: (v if isinstance(v, (str, int, float, bool, type(None), list, tuple, dict)) else repr(v)) for k, v in args.items() if k != "self"}
        import copy
        rep = copy.deepcopy(rep)
        try:
            with limit(10), quiet():
                r = cl.check(args)
        except concrete.Skip:
            return
        except Timeout:
            r = ("termination", "no result after 10 s")
        except TypeError as e:
            if "unexpected keyword" in str(e) or "positional argument" in str(e):
                raise concrete.Skip("signature changed")
            raise
        ran += 1
        b.case((c.qual, rep))
        if r is not None:
            fails += 1
            key = "%s %s" % (c.qual, json.dumps(rep, sort_keys=True, default=repr))
            b.fail(key, "%s: %s on %s: %s" % (c.target, r[0], rep, r[1]), function=c.target, args=rep, clause=r[0], observed=r[1])
    try:
        if hasattr(c.cls, "cases"):
            for args in c.cls.cases(b.tier):
                one(args)
                if fails >= 3 or time.time() - t0 > seconds or b.time_left() < 0:
                    return "failed" if fails else "ok"
        rng = random.Random(b.seed * 7919 + 13)
        for _ in range(n):
            if fails >= 3 or time.time() - t0 > seconds or b.time_left() < 0:
                break
            args = concrete.gen_args(c, rng)
            if args is not None:
                one(args)
    except concrete.Skip as e:
        return "skipped: %s" % e
    return "failed" if fails else ("ok" if ran else "no case ran")


def load_known(here, pid):
    p = os.path.join(here, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid]


def main(pid, tier, seed, here):
    t0 = time.time()
    from contracts import registry
    P = registry.PROPS[pid]
    try:
        return main1(pid, P, tier, seed, here, t0)
    except Exception:
        # the check itself could not run on this tree: undecided obligations, reported as such
        tb = traceback.format_exc()
        path = write_replay(here, pid, dict(property=pid, kind="check could not run", output=tb[-4000:]))
        print(tb[-1500:], file=sys.stderr)
        write_evidence(here, pid, tier, seed, t0, [], None, {}, ["check could not run: %s" % tb[-400:]], 1, P)
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        return 1


def write_replay(here, pid, d):
    os.makedirs(os.path.join(here, "replay"), exist_ok=True)
    h = hashlib.sha256(json.dumps(d, sort_keys=True, default=repr).encode()).hexdigest()[:10]
    p = os.path.join(here, "replay", "%s-%s.json" % (pid, h))
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=repr)
    return p


def main1(pid, P, tier, seed, here, t0):
    sys.setrecursionlimit(20000)
    for m in P.get("modules", ()):
        importlib.import_module("contracts." + m)
    concrete.prepare()
    mine = set(P.get("modules", ()))
    own = [c for c in Contract.reg.values() if c.cls.__module__.split(".")[-1] in mine and not c.trusted]
    only = P.get("targets")
    if only is not None:
        own = [c for c in own if c.target in only or c.name in only]
    thorough = tier == "thorough"
    budget = P.get("budget", 60) * (4 if thorough else 1)
    items = [("contract", c.target, getattr(c.cls, "budget", budget)) for c in own if not getattr(c.cls, "bounded_only", False)]
    items.sort(key=lambda i: -getattr(Contract.reg[i[1]].cls, "cost", 1))
    if only is None:
        items += [("spec", s.name, 30) for s in S.SPECS.values() if s.globals["__name__"].split(".")[-1] in mine]
        items += [("lemma", l.name, 30) for l in S.LEMMAS.values() if not l.trusted and l.py.__globals__["__name__"].split(".")[-1] in mine]
    if P.get("frame"):
        items.append(("frame", "frame conditions of every function", 60))
    proofs = []
    if items:
        from .pool import Pool
        pool = Pool(prove_item, items, 8, lambda i, why: dict(kind=i[0], name=i[1], status="unsupported", obligations=1, discharged=0, backend=None, detail=why, time=0, failed=[]))
        # the bounded part runs meanwhile
        b, bstat = bounded(pid, P, tier, seed, own, t0)
        proofs = pool.get(max(60, (300 if b.bad else 700) - (time.time() - t0)) if not thorough else 7000)
    else:
        b, bstat = bounded(pid, P, tier, seed, own, t0)
    broken = [p for p in proofs if p["status"] != "proved"]
    # solver counterexamples replayed on the real code, then a deeper search for a failing input
    replayed = 0
    for p in broken:
        if p["kind"] != "contract":
            continue
        c = Contract.reg[p["name"]]
        for f in p["failed"]:
            if f.get("model") and not any(k == "self" for k in f["model"]):
                try:
                    args = {k: v for k, v in f["model"].items() if not k.startswith(("pre_", "post_"))}
                    rep = dict(args)
                    with limit(10), quiet():
                        r = concrete.Clauses(c).check(args)
                    replayed += 1
                    f["replay"] = "the real code satisfies the contract on this input (spurious)" if r is None else "confirmed: %s %s" % r
                    if r is not None:
                        b.fail("%s %s" % (c.qual, json.dumps(rep, sort_keys=True, default=repr)),
                               "%s: %s on %s: %s" % (c.target, r[0], rep, r[1]), function=c.target, args=rep, clause=r[0], observed=r[1])
                except BaseException as e:
                    f["replay"] = "could not be replayed: %r" % e
        if not b.bad and not getattr(c.cls, "unsampled", False) and (thorough or time.time() - t0 < 780):
            b.deadline = max(b.deadline, time.time() + 20)
            run_contract_bounded(b, c, 20000, 15)
    known = load_known(here, pid)
    kf, viol = [], []
    for x in b.bad:
        k = next((k for k in known if k.get("status") != "fixed" and k["key"] in (x.key, "")), None)
        (kf if k else viol).append((x, k))
    for k in {id(k): k for _, k in kf}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    if viol:
        rc = 1
        for x, _ in viol[:3]:
            p = write_replay(here, pid, dict(property=pid, kind="concrete", key=x.key, what=x.what, data=x.data))
            print("violated: %s" % x.what[:600])
            print("VIOLATION property=%s replay=%s" % (pid, p))
    elif broken:
        rc = 1
        p = write_replay(here, pid, dict(property=pid, kind="obligation", broken=broken))
        for q in broken[:6]:
            print("not discharged: %s %s: %s %s %s" % (q["kind"], q["name"], q["status"], q["detail"][:300],
                  [(f["kind"], f["where"][:160], f["solver"][:120]) for f in q["failed"][:3]]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, p))
    write_evidence(here, pid, tier, seed, t0, proofs, b, bstat, [], len(viol) + (0 if viol else len(broken)), P, replayed)
    n, d = sum(p["obligations"] for p in proofs), sum(p["discharged"] for p in proofs)
    print("%s %s: %d/%d obligations discharged, %d bounded cases, %.1f s" % (pid, tier, d, n, b.evals, time.time() - t0))
    return rc


def gone(e):
    """is the exception about a name or a parameter that the code does not have (any more)?"""
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        return not any(str(e).startswith("'%s' object" % t) for t in ("NoneType", "str", "int", "bool", "list", "tuple", "dict", "set", "float"))
    return isinstance(e, TypeError) and ("argument" in str(e) and "()" in str(e))


def bounded(pid, P, tier, seed, own, t0):
    secs = P.get("bounded_s", 10) * (12 if tier == "thorough" else 1)
    b = Bounded(pid, tier, seed, time.time() + secs * 3 + 20)
    stat = {}
    run = [c for c in own if not getattr(c.cls, "unsampled", False)]
    for c in run:
        stat[c.qual] = run_contract_bounded(b, c, getattr(c.cls, "n", 2000) * (12 if tier == "thorough" else 1), secs / max(1, len(run)))
    for l in S.LEMMAS.values():
        if getattr(l, "sample", None) is not None and l.py.__globals__["__name__"].split(".")[-1] in P.get("modules", ()):
            b.begin("assumed axiom %s on random arguments" % l.name)
            rng = random.Random(seed)
            for _ in range(2000):
                args = l.sample(rng)
                try:
                    ok = l.py(*args)
                except AssertionError:
                    continue
                b.case(args)
                if not ok:
                    b.fail("axiom %s %r" % (l.name, args), "the assumed fact %s does not hold of %r" % (l.name, args))
    for m in P.get("bounded", ()):
        b.deadline = time.time() + secs + 10
        b.budget = time.time() + secs
        b.rng = random.Random(seed)
        stat[m] = "ran"
        try:
            importlib.import_module("bounded." + m).run(b)
        except (Exception, Timeout) as e:
            # an exception of the code under test that the driver did not expect (or a result the driver cannot read) ends the driver and is
            # reported; a private name or signature the driver relies on and that is gone is not: the driver then covers less
            fr = traceback.extract_tb(e.__traceback__)
            if not any("latex2json" in x.filename.split(os.sep) for x in fr) and gone(e):
                stat[m] = "stopped: %r" % e
                print("NOTE: property=%s driver %s stopped: %r" % (pid, m, e), flush=True)
                continue
            b.fail("exception %s %r" % (b.part, b.last), "%s: unexpected %r (%s) on or after the case %s" % (b.part, e, " > ".join("%s:%d" % (x.name, x.lineno) for x in fr[-4:]), str(b.last)[:400]),
                   case=str(b.last), traceback=traceback.format_exc())
    return b, stat


def write_evidence(here, pid, tier, seed, t0, proofs, b, bstat, extra, nviol, P, replayed=0):
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    cs = [p for p in proofs if p["kind"] == "contract"]
    backs = {"z3": 0, "cvc5": 0, "simplifier": 0}
    for p in proofs:
        if isinstance(p["backend"], dict):
            for k, v in p["backend"].items():
                backs[k] = backs.get(k, 0) + v
        elif p["backend"]:
            backs[p["backend"]] = backs.get(p["backend"], 0) + p["discharged"]
    trusted = ["pyvc (verification condition generator in /verif/pyvc: its semantics of the Python subset and its sequence axioms)",
               "z3 and cvc5", "CPython's str/list/re primitives as axiomatised in pyvc/logic.py (regular expressions uninterpreted except for start/end ordering)"] + list(P.get("trusted", ()))
    ass = sorted({a for p in cs for a in p.get("assumptions", ())}) + ["axiom %s%s: %s" % (l.name, " (tried on random arguments)" if getattr(l, "sample", None) else "", __import__("ast").unparse(l.goal)) for l in S.LEMMAS.values() if l.trusted] + list(P.get("assumptions", ())) + extra
    cov = dict(
        evaluations=b.evals if b else 0, distinct_nontrivial=len(b.seen) if b else 0,
        rule="bounded part: the executable form of the same contracts on the real functions (enumerated small cases, then random ones from VERIF_SEED) and end-to-end cases; a case is non-trivial when it satisfies the precondition and was not seen before",
        samples=b.samples if b else [],
        obligations=sum(p["obligations"] for p in proofs), discharged=sum(p["discharged"] for p in proofs),
        checker_cmd="python3-vt check.py %s %s" % (pid, tier), trusted_base=trusted,
        functions_under_contract=[dict(function=p["name"], status=p["status"], obligations=p["obligations"], discharged=p["discharged"], solver_calls_backends=p["backend"],
                                       time_s=p["time"], loops_with_inferred_invariants=p.get("loops", 0), inlined_callees=p.get("inlined", []),
                                       callee_contracts=p.get("uses", [])) for p in cs],
        lemmas=[dict(lemma=p["name"], status=p["status"], backend=p["backend"]) for p in proofs if p["kind"] == "lemma"],
        frame_conditions=[dict(name=p["name"], status=p["status"], functions=p["obligations"], discharged=p["discharged"], detail=p["detail"], time_s=p["time"]) for p in proofs if p["kind"] == "frame"],
        spec_definitions=[p["name"] for p in proofs if p["kind"] == "spec"],
        backends=backs, solver_time_s=round(sum(p.get("solver_time", p.get("time", 0) or 0) or 0 for p in proofs), 2),
        undischarged=[dict(name=p["name"], status=p["status"], detail=p["detail"][:300], failed=p["failed"]) for p in proofs if p["status"] != "proved"],
        counterexamples_replayed=replayed,
        bounded_only=dict(note="these parts are bounded and are not counted as proved", cases_per_part=b.parts if b else {}, status=bstat, functions=P.get("bounded_functions", [])),
        explanation=P.get("explanation", ""))
    d = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=P.get("level", "proof"), coverage=cov,
             assumptions=ass, wall_s=round(time.time() - t0, 2), violations=nviol)
    tmp = os.path.join(here, "evidence", "%s.json.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(d, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(here, "evidence", "%s.json" % pid))
