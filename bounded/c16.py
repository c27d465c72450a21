"""C16 end to end: files of every kind through read_file, read_tex_file_content and the parser's own file entry."""
import os


def run(b):
    from pyvc.runner import limit, quiet
    from contracts.encoding_c16 import blob, scratch
    from latex2json.utils.encoding import read_file
    from latex2json.utils.tex_utils import read_tex_file_content
    from latex2json.parser.tex_parser import LatexParser
    import codecs, io
    d = scratch()
    b.begin("files")

    def expect(raw):
        """exact text of ASCII / UTF-8 content (line ends as in text mode), None when it is not UTF-8"""
        try:
            t = raw.decode("utf-8")
        except UnicodeDecodeError:
            return None
        return io.IncrementalNewlineDecoder(None, True).decode(t, True)
    fixed = [b"", b"a", b"\xe9", b"\x1b$)A\x0eabc", b"\x1b$)A\x0e\xff", b"~{VP~}", b"+AGE-", "é".encode(), "日本".encode("utf-16"), b"\xff\xfe\x00", b"\x00\x00\xfe\xff\x01", b"a" * 20000 + b"\xff",
             b"a" * 9999 + "é".encode() + b"b" * 9, bytes(range(256)), b"\r\na\rb\n", b"\xef\xbb\xbfabc", b"+/v8-", b"\x1b$B!!\x1b(B", "naïve".encode("cp1252"), b"\x1b$)G\x0e", b"\x1b$*H", b"\x1b.A"]
    i = 0
    while not b.full(3) and (i < len(fixed) or b.budget and __import__("time").time() < b.budget):
        raw = fixed[i] if i < len(fixed) else blob(b.rng)
        i += 1
        p = os.path.join(d, "e.tex")
        with open(p, "wb") as f:
            f.write(raw)
        want = expect(raw)
        for name, fn in (("read_file", lambda: read_file(p)), ("read_tex_file_content", lambda: read_tex_file_content(b.rng.choice([p, p[:-4], " %s\n" % p])))):
            try:
                with limit(10), quiet():
                    r = fn()
            except Exception as e:
                b.fail("%s %r" % (name, raw), "%s raised %r on a file with the bytes %r" % (name, e, raw[:80]), bytes=repr(raw[:2000]))
                continue
            b.case((name, raw), len(raw) > 0)
            if not isinstance(r, str):
                b.fail("%s %r" % (name, raw), "%s returned %r on a file with the bytes %r" % (name, type(r), raw[:80]), bytes=repr(raw[:2000]))
            elif want is not None and r not in (want, want.lstrip("\ufeff")):
                b.fail("%s %r" % (name, raw), "%s returned %r for the UTF-8 text %r" % (name, r[:80], want[:80]), bytes=repr(raw[:2000]))
    b.begin("missing files and directories")
    for p in (d + "/none", d + "/none.tex", d + "/d", d):
        for name, fn in (("read_tex_file_content", read_tex_file_content),):
            try:
                r = fn(p)
                if p == d + "/d" or p == d:
                    pass
                b.fail("%s %s" % (name, os.path.basename(p)), "%s returned %r for a missing file or directory %s" % (name, r[:40], os.path.basename(p)))
            except FileNotFoundError:
                b.case((name, p))
            except Exception as e:
                b.fail("%s %s" % (name, os.path.basename(p)), "%s raised %r for %s" % (name, e, os.path.basename(p)))
    b.begin("parsing a file")
    for raw, want in ((b"abc \xff def", "abc"), ("été".encode("latin-1"), "t"), ("été".encode(), "été"), (b"\x1b$)A\x0eabc xyz", "xyz"), ("Grüße aus ~{Köln}".encode(), "Grüße aus")):
        with open(d + "/e.tex", "wb") as f:
            f.write(raw)
        with limit(20), quiet():
            r = LatexParser().parse_file(d + "/e.tex")
        b.case(("parse", raw))
        if want not in str(r):
            b.fail("parse %r" % raw, "parsing a file with the bytes %r lost its text: %r" % (raw, str(r)[:200]), bytes=repr(raw))
