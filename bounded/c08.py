"""C08: hostile archives and failures at every call, all inside a scratch directory of its own."""
import gzip, io, itertools, os, shutil, stat, tarfile, tempfile, zipfile

DOC = b"\\documentclass{article}\\begin{document}Hello %d\\end{document}"


WALK = os.walk                     # (the fault injection replaces os.walk)


class Boom(Exception):
    pass


def listing(d, deep=True):
    """everything below d: name -> (kind, content, mode, links)"""
    out = {}
    for root, dirs, files in WALK(d):
        for n in dirs + files:
            p = os.path.join(root, n)
            s = os.lstat(p)
            out[os.path.relpath(p, d)] = ("link", os.readlink(p)) if stat.S_ISLNK(s.st_mode) else ("dir",) if stat.S_ISDIR(s.st_mode) else ("file", open(p, "rb").read(), s.st_nlink, oct(s.st_mode)) if stat.S_ISREG(s.st_mode) else ("special", s.st_mode)
    return out


class Box:
    """scratch: base/outside (must never change), base/a/b/c/d/tmp (temp directories), base/in (archives)"""

    def __init__(self, rng):
        self.rng, self.base = rng, os.path.realpath(tempfile.mkdtemp(prefix="c08_"))
        self.out, self.tmp, self.inp = (os.path.join(self.base, x) for x in ("outside", "a/b/c/d/tmp", "in"))
        self.cwd = os.path.join(self.base, "a/b/c/d/cwd")
        self.n = 0

    def fresh(self):
        for d in (self.out, os.path.join(self.base, "a"), self.inp):
            shutil.rmtree(d, ignore_errors=True)
        for d in (self.out, self.tmp, self.inp, self.out + "/sub", self.cwd):
            os.makedirs(d)
        os.chdir(self.cwd)             # (what lands in the working directory stays in the scratch directory, and is noticed)
        open(self.out + "/victim", "wb").write(b"precious \\documentclass{article}")
        os.chmod(self.out + "/victim", 0o640)
        tempfile.tempdir = self.tmp

    def name(self):
        r = self.rng
        o = self.out
        self.n += 1
        return r.choice(["a.tex", "main.tex", "sub/b.tex", "l", "l/victim", "l/new", "m", "m/victim", "d/l", "../outside/victim", "../../../../../outside/new%d" % self.n, "x/../../../../../../outside/victim", o + "/victim", o + "/abs%d" % self.n,
                         "./c.tex", "sub/./e.tex", "a..b", "..", ".", "l/sub/deep", "h", "sub", "../tmpx/y", "sub/../../../../../../outside/z", " ", "é.tex", "a/b/c/d/e.tex", "..\\..\\x", "/", "//" + o.lstrip("/") + "/dbl", "l/../m/new2"])

    def target(self):
        o = self.out
        return self.rng.choice([o, o + "/victim", o + "/nonexistent", "../../../../../outside", "../../../../../outside/victim", "..", ".", "a.tex", "sub", "l", "m", "h", "l/victim", "a..b", "../outside", "/", "sub/../../../../../../outside", "main.tex", "d/l", "x" * 200])

    def tar(self, members):
        p = os.path.join(self.inp, "x%d%s" % (self.n, self.rng.choice([".tar.gz", ".tgz"])))
        with tarfile.open(p, "w:gz", format=tarfile.PAX_FORMAT) as t:
            for name, kind, arg in members:
                i = tarfile.TarInfo(name)
                i.name = name
                i.mode = self.rng.choice([0o644, 0o644, 0o777, 0o4755, 0, 0o400])
                if kind == "file":
                    i.size = len(arg)
                    t.addfile(i, io.BytesIO(arg))
                    continue
                i.type = dict(sym=tarfile.SYMTYPE, hard=tarfile.LNKTYPE, dir=tarfile.DIRTYPE, fifo=tarfile.FIFOTYPE, chr=tarfile.CHRTYPE, cont=tarfile.CONTTYPE)[kind]
                if kind in ("sym", "hard"):
                    i.linkname = arg
                i.devmajor, i.devminor = 1, 3
                t.addfile(i)
        return p

    def zip(self, members):
        p = os.path.join(self.inp, "x%d.zip" % self.n)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with zipfile.ZipFile(p, "w") as z:
                for name, kind, arg in members:
                    i = zipfile.ZipInfo("n")
                    i.filename = name
                    if kind == "sym":
                        i.create_system, i.external_attr = 3, (stat.S_IFLNK | 0o777) << 16
                    z.writestr(i, arg if isinstance(arg, bytes) else (arg or "").encode())
        return p

    def members(self, full=True):
        r = self.rng
        ms = []
        for _ in range(r.randrange(0, 6)):
            k = r.choice(["file", "file", "sym", "sym", "hard", "dir", "fifo", "chr", "cont"])
            self.n += 1
            ms.append((self.name(), k, (DOC % self.n if r.random() < .5 else b"data %d" % self.n) if k == "file" else self.target() if k in ("sym", "hard") else b""))
        if r.random() < .7:
            ms.insert(r.randrange(len(ms) + 1), ("main.tex", "file", DOC % self.n))
        return ms


def escape(box):
    """two or three cooperating members that leave the directory together"""
    o, out = box.out, []
    up = "../" * 5 + "outside"
    for t in (o, up, o + "/"):
        out += [[("l", "sym", t), ("l/new", "file", b"x")], [("l", "sym", t), ("l/victim", "file", b"x")], [("d/l", "sym", t if t == o else "../" + up), ("m", "sym", "d/l"), ("m/new", "file", b"x")]]
    out += [[("h", "hard", o + "/victim"), ("h", "file", b"x")], [("l", "sym", o + "/victim"), ("l", "file", b"x")], [("a..b", "sym", o), ("h", "hard", "a..b"), ("h/new", "file", b"x")],
            [("l", "sym", o), ("h", "hard", "l"), ("h/new", "file", b"x")], [("l", "sym", o), ("m", "hard", "l/victim"), ("m", "file", b"x")], [("s", "dir", b""), ("s/l", "sym", "../" + up), ("s/l/new", "file", b"x")],
            [("l", "sym", "."), ("l/m", "sym", up), ("m/new", "file", b"x")], [("../outside", "dir", b"")], [(o + "/newdir", "dir", b"")], [("c", "chr", b"")], [("f", "fifo", b"")], [("main.tex", "sym", o + "/victim")],
            [("main.tex", "hard", o + "/victim")], [("x.tar.tex", "sym", o + "/victim")]]
    return out


def run(b):
    from pyvc.runner import limit, quiet
    from unittest import mock
    import latex2json.tex_file_extractor as tfe
    import latex2json.tex_reader as tr
    rng, keep, here = b.rng, tempfile.tempdir, os.getcwd()
    box = Box(rng)

    def go(p, how, cleanup):
        """open the archive in one of the ways of the interface; returns (result, exception, kept directory, main file)"""
        main = res = None
        try:
            with limit(30), quiet():
                if how == "extractor":
                    with tfe.TexFileExtractor.from_compressed(p, cleanup) as (main, d):
                        res = d
                        check_inside(d, p)
                elif how == "body fails":
                    with tfe.TexFileExtractor.from_compressed(p, cleanup) as (main, d):
                        res = d
                        raise Boom
                elif how == "compressed":
                    res = tr.TexReader().process_compressed(p, cleanup=cleanup)
                else:
                    res = tr.TexReader().process(p, cleanup=cleanup)
        except Boom:
            pass
        except (Exception, KeyboardInterrupt) as e:
            return res, e, main
        return res, None, main

    def check_inside(d, p):
        for n, x in listing(d).items():
            q = os.path.join(d, n)
            if x[0] == "special":
                b.fail(show, "extracting %s creates the special file %s" % (show, n), input=show)
            if x[0] == "link" and not (os.path.realpath(q) + "/").startswith(os.path.realpath(d) + "/"):
                b.fail(show, "extracting %s creates the link %s -> %s out of the directory" % (show, n, x[1]), input=show)
            if x[0] == "file" and x[2] > 1 and os.path.exists(box.out + "/victim") and os.path.samefile(q, box.out + "/victim"):
                b.fail(show, "extracting %s links the outside file as %s" % (show, n), input=show)

    def tidy(how, cleanup, res, exc, what):
        """what must be left of the temp directories"""
        left = os.listdir(box.tmp)
        kept = not cleanup and (exc is None or how == "body fails")
        if kept and (res is None or isinstance(res, tr.ProcessingResult) and res.temp_dir is None):      # (not an archive)
            kept = False
        if not kept and left:
            b.fail(what, "%s (%s, cleanup=%s%s) leaves the temporary directory %s" % (what, how, cleanup, ", failing with %r" % exc if exc else "", left), input=what)
        if kept and len(left) != 1:
            b.fail(what, "%s (%s, cleanup=%s): %d temporary directories are left, not the one asked for" % (what, how, cleanup, len(left)), input=what)
        if isinstance(res, tr.ProcessingResult):
            try:
                res.cleanup()
                res.cleanup()
            except Exception as e:
                b.fail(what, "cleaning up twice after %s (%s, cleanup=%s) raises %r" % (what, how, cleanup, e), input=what)
            if os.listdir(box.tmp):
                b.fail(what, "cleanup() after %s (%s) leaves %s" % (what, how, os.listdir(box.tmp)), input=what)

    def safe(ms, kind):
        """the regular members that must arrive with their content: plain relative names, none of them special or repeated"""
        names = [os.path.normpath(m[0]) for m in ms]
        if any(m[1] not in ("file",) for m in ms) or any(".." in m[0] or m[0].startswith("/") for m in ms):
            return {}
        if len(set(names)) < len(names) or any(a != c and (c + "/").startswith(a + "/") for a in names for c in names) or any(n in (".", "/") for n in names):
            return {}
        return {n: m[2] for n, m in zip(names, ms)}

    def archive(ms, kind, how, cleanup):
        nonlocal show
        box.fresh()
        box.n += 1
        p = (box.tar if kind == "tar" else box.zip)(ms)
        show = "%s archive %r" % (kind, [(n.replace(box.base, "<scratch>"), k, a.replace(box.base, "<scratch>") if isinstance(a, str) else a) for n, k, a in ms])
        b.case((show, how, cleanup))
        before = listing(box.out), sorted(os.listdir(box.base)), listing(os.path.join(box.base, "a")), listing(box.inp)
        res, exc, main = go(p, how, cleanup)
        if how == "extractor" and exc is None and not cleanup:
            have = listing(res)
            for n, c in safe(ms, kind).items():
                if have.get(n, ("",))[0] != "file" or have[n][1] != c:
                    b.fail(show, "extracting %s: member %r arrives as %r" % (show, n, have.get(n)), input=show)
        if how == "extractor" and exc is None and not cleanup:
            plain = [os.path.normpath(m[0]) for m in ms if not m[0].startswith("/") and ".." not in m[0].split("/")]
            for n in listing(res):
                if not any((q + "/").startswith(n + "/") for q in plain):
                    b.fail(show, "extracting %s: %r arrives, which is no safe member" % (show, n), input=show)
        tidy(how, cleanup, res, exc, show)
        if how == "extractor" and exc is None and not cleanup:
            shutil.rmtree(res, ignore_errors=True)
        after = listing(box.out), sorted(os.listdir(box.base)), {n: x for n, x in listing(os.path.join(box.base, "a")).items() if not n.startswith("b/c/d/tmp/")}, listing(box.inp)
        for x, y, d in zip(before, after, ("outside", ".", "a", "in")):
            if x != y:
                dd = [n for n in set(x) ^ set(y)] if isinstance(x, list) else [n for n in set(x) | set(y) if x.get(n) != y.get(n)]
                b.fail(show, "extracting %s changes files outside the extraction directory: %s" % (show, ["%s/%s" % (d, n) for n in dd]), input=show)
    show = ""
    HOW = ["extractor", "body fails", "compressed", "process"]
    try:
        b.begin("hostile combinations")
        for ms in escape(box):
            for kind in ("tar", "zip"):
                for first in (True, False):
                    m = [("main.tex", "file", DOC % 1)] if not any(x[0] == "main.tex" for x in ms) else []
                    archive(m + ms if first else ms + m, kind, rng.choice(HOW[:1] + HOW), rng.random() < .5)
                    archive(m + ms if first else ms + m, kind, "extractor", False)
        b.begin("where the main file lies")
        for ms in ([("main.tex", "file", DOC % 2)], [("sub/main.tex", "file", DOC % 2), ("a.tex", "file", b"x")], [("d/e/f/x.tex", "file", DOC % 2)], [("a.tex", "file", b"x")], []):
            for kind in ("tar", "zip"):
                for how in HOW:
                    for cleanup in (True, False):
                        archive(ms, kind, how, cleanup)
        b.begin("failures at every call")
        faults(b, box, go, tidy, tfe, tr, mock)
        b.begin("broken and unusual files")
        box.fresh()
        good = open(box.tar([("main.tex", "file", DOC % 3), ("b.tex", "file", b"x" * 5000)]), "rb").read()
        gz = gzip.compress(DOC % 5)
        for data, ext in [(good[:n], ".tar.gz") for n in range(0, len(good), 7 if b.tier == "quick" else 1)] + [(gz[:n], ".gz") for n in range(0, len(gz), 5)] + [(b"no archive", e) for e in (".gz", ".tar.gz", ".tgz", ".zip", ".xyz")] + \
                [(gzip.compress(b"nothing"), e) for e in (".gz", ".tar.gz", ".tex.gz", ".zip")] + [(gz, e) for e in (".gz", ".tar.gz", ".tex.gz", ".tgz", ".GZ")] + [(None, e) for e in (".gz", ".tar.gz", ".zip", ".tex")]:
            for how in HOW if data is None or len(data) % 2 or data is gz else HOW[2:]:
                box.fresh()
                p = box.inp + "/y" + ext
                if data is not None:
                    open(p, "wb").write(data)
                c = rng.random() < .5
                show = "missing file %s" % ext if data is None else "%d bytes %s%s" % (len(data), ext, " (truncated)" if data not in (good, gz) else "")
                b.case((show, how, c))
                res, exc, _ = go(p, how, c)
                tidy(how, c, res, exc, show)
                if len(os.listdir(box.inp)) != (data is not None) or os.listdir(box.cwd) or set(os.listdir(box.out)) != {"victim", "sub"}:
                    b.fail(show, "processing %s (%s) creates or removes files outside the temporary directory: %s" % (show, how, os.listdir(box.inp) + os.listdir(box.cwd)), input=show)
        b.begin("random archives")
        while not b.full() and b.parts[b.part] < (400 if b.tier == "quick" else 10000):
            archive(box.members(), rng.choice(["tar", "tar", "tar", "zip"]), rng.choice(HOW[:1] + HOW), rng.random() < .5)
    finally:
        tempfile.tempdir = keep
        os.chdir(here)
        shutil.rmtree(box.base, ignore_errors=True)


def faults(b, box, go, tidy, tfe, tr, mock):
    """each call the code makes fails once, at each of its occurrences, with each kind of error"""
    from latex2json.parser.tex_parser import LatexParser
    from latex2json.structure.builder import TokenBuilder
    POINTS = [(tfe.TexFileExtractor, "find_main_tex_file"), (tfe, "read_file"), (tfe, "strip_latex_comments"), (tarfile.TarFile, "extract"), (tarfile.TarFile, "getmembers"), (tarfile, "open"), (zipfile.ZipFile, "extract"),
              (zipfile.ZipFile, "namelist"), (zipfile.ZipFile, "__init__"), (gzip, "open"), (shutil, "copyfileobj"), (os, "walk"), (LatexParser, "parse_file"), (LatexParser, "parse"), (LatexParser, "get_colors"), (LatexParser, "clear"),
              (TokenBuilder, "build"), (TokenBuilder, "clear"), (tr.TexReader, "process_file"), (tr.TexReader, "clear")]
    for kind in ("tar", "zip", "gz"):
        for owner, attr in POINTS:
            for n in (1, 2, 3):
                for err in (OSError("no space left"), ValueError("bad"), MemoryError(), tarfile.ReadError("x"), EOFError("x"), FileNotFoundError("x"), KeyboardInterrupt()):
                    for how in ("extractor", "compressed", "process"):
                        for cleanup in (True, False):
                            if b.tier == "quick" and box.rng.random() < .72:
                                continue
                            if how == "extractor" and owner in (LatexParser, TokenBuilder, tr.TexReader):
                                continue
                            box.fresh()
                            box.n += 1
                            if kind == "gz":
                                p = box.inp + "/z.tex.gz"
                                open(p, "wb").write(gzip.compress(DOC % 1))
                            else:
                                p = (box.tar if kind == "tar" else box.zip)([("main.tex", "file", DOC % 1), ("b.tex", "file", b"x")])
                            real, count = getattr(owner, attr), [0]

                            def fake(*a, **k):
                                count[0] += 1
                                if count[0] == n:
                                    raise err
                                return real(*a, **k)
                            with mock.patch.object(owner, attr, staticmethod(fake) if isinstance(owner.__dict__.get(attr), staticmethod) else fake):
                                res, exc, _ = go(p, how, cleanup)
                            if count[0] < n:
                                continue
                            what = "%s archive, call %d of %s.%s fails with %r" % (kind, n, getattr(owner, "__name__", owner), attr, err)
                            b.case((what, how, cleanup))
                            tidy(how, cleanup, res, exc, what)
                            if how == "extractor" and res:
                                shutil.rmtree(res, ignore_errors=True)
