r"""C16: reading files (latex2json/utils/encoding.py, read_tex_file_content of tex_utils.py).

The file system, the codecs and chardet are outside the repository: open, file objects, os.path and chardet.detect are replaced by the
models below, over uninterpreted functions of the path (all assumptions are listed in the evidence)."""
import builtins, os, tempfile
import chardet
from pyvc.spec import *
from pyvc.spec import spec, axiom
from pyvc.engine import contract

M = "latex2json.utils.encoding:"


@spec(abstract=True)
def exists(p: Str) -> Bool:
    return os.path.exists(p)


@spec(abstract=True)
def isdir(p: Str) -> Bool:
    return os.path.isdir(p)


@spec(abstract=True)
def known(enc: Str) -> Bool:
    import codecs
    try:
        codecs.lookup(enc)
        return True
    except LookupError:
        return False


@spec(abstract=True)
def decodable(p: Str, enc: Str, errs: Str) -> Bool:
    try:
        with open(p, "r", encoding=enc, errors=errs or None) as f:
            f.read()
        return True
    except UnicodeError:
        return False


@spec(abstract=True)
def badbytes(p: Str, enc: Str) -> Bool:
    return True


@spec(abstract=True)
def decoded(p: Str, enc: Str, errs: Str) -> Str:
    with open(p, "r", encoding=enc, errors=errs or None) as f:
        return f.read()


@spec(abstract=True)
def raw(p: Str) -> Str:
    with open(p, "rb") as f:
        return f.read().decode("latin-1")


@spec(abstract=True)
def noguess(b: Str) -> Bool:
    return False


@spec(abstract=True)
def guess(b: Str) -> Str:
    return ""


@spec(abstract=True)
def confidence(b: Str) -> Int:
    return 1


@axiom(trigger="decodable(p, enc, errs)")
def codecs_that_never_fail(p: Str, enc: Str, errs: Str):
    """utf-8 with errors="replace" and latin-1 decode every byte sequence"""
    return implies((enc == "utf-8" and errs == "replace") or (enc == "latin-1" and errs == ""), decodable(p, enc, errs))


@axiom(trigger="known(enc)")
def standard_codecs(enc: Str):
    return implies(enc == "utf-8" or enc == "utf-8-sig" or enc == "latin-1" or enc == "cp1252", known(enc))


@axiom(trigger="badbytes(p, enc)")
def utf8_errors(p: Str, enc: Str):
    """what the UTF-8 codecs raise is UnicodeDecodeError"""
    return implies(enc == "utf-8-sig" or enc == "utf-8", badbytes(p, enc))


class File:
    """a file opened for reading"""

    def __init__(self, path, mode, enc, errs):
        self.path = path
        self.mode = mode
        self.enc = enc
        self.errs = errs

    def read(self, n=-1):
        if self.mode == "rb":
            return raw(self.path) if n < 0 else raw(self.path)[:n]
        if not decodable(self.path, self.enc, self.errs):
            if badbytes(self.path, self.enc):
                raise UnicodeDecodeError
            raise UnicodeError
        return decoded(self.path, self.enc, self.errs)


def open_model(path, mode="r", encoding=None, errors=None):
    if not exists(path):
        raise FileNotFoundError
    if isdir(path):
        raise IsADirectoryError
    if mode == "rb":
        return File(path, mode, "", "")
    if encoding is None:
        encoding = "locale"
    if not known(encoding):
        raise LookupError
    return File(path, mode, encoding, "" if errors is None else errors)


def detect_model(b):
    return {"encoding": None if noguess(b) else guess(b), "confidence": confidence(b)}


def exists_model(p):
    return exists(p)


def isdir_model(p):
    return isdir(p)


EXT = {builtins.open: open_model, chardet.detect: detect_model, os.path.exists: exists_model, os.path.isdir: isdir_model}
DIR = None


def blob(rng):
    """bytes of a file: ASCII, UTF-8, other encodings, random"""
    k = rng.randrange(10)
    if k == 0:
        return b""
    if k == 1:
        return "".join(rng.choice(["a", "\\x", "{", "}", "~{", "~}", "%", "\n", " ", "\\\\", "$", "+AGE-", "&", "~{VP~}"]) for _ in range(rng.randrange(30))).encode()
    if k in (2, 3):
        t = "".join(rng.choice(["a", "é", "ß", "日", "本", "\n", " ", "ñ", "Ω", "😀", "\\'e", "ü"]) for _ in range(rng.randrange(40)))
        return t.encode(rng.choice(["utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-16-le", "utf-32"]))
    if k == 4:
        return bytes(rng.randrange(256) for _ in range(rng.randrange(60)))
    if k == 5:
        return rng.choice(["été à la plage, naïve ", "Größe über alles ", "señor niño "]).encode(rng.choice(["latin-1", "cp1252", "mac_roman"])) * rng.randrange(1, 40)
    if k == 6:
        return b"\x1b" + rng.choice([b"$)A\x0e", b"$)C\x0e", b"$B", b"$)G\x0e"]) + b"!!\"\"" * rng.randrange(5) + rng.choice([b"", b"\xff", b"\x0f"])
    if k == 7:     # the sample that is guessed from ends inside the text; a late byte does not fit the guess
        return b"a" * rng.choice([9990, 9999, 10001, 30000]) + rng.choice([b"\xe9", "é".encode(), "日本".encode(), b"\xff\xfe", b"\x81"]) + b"b" * rng.randrange(20)
    if k == 8:
        t = rng.choice(["中文字符编码", "日本語のテキスト", "한국어 텍스트", "русский текст"]) * rng.randrange(1, 30)
        return t.encode(rng.choice(["gb18030", "utf-8", "utf-16"])) + rng.choice([b"", b"\xff", b"\x80"])
    return rng.choice([b"\xff\xfe", b"\xfe\xff", b"\x00\x00\xfe\xff", b"\xff\xfe\x00\x00"]) + bytes(rng.randrange(256) for _ in range(rng.randrange(7)))


def scratch():
    global DIR
    if DIR is None:
        import atexit, shutil
        DIR = tempfile.mkdtemp(prefix="c16_")
        atexit.register(shutil.rmtree, DIR, True)
        os.mkdir(DIR + "/d")
        os.mkdir(DIR + "/d.tex")
    return DIR


def path_gen(rng, part):
    d = scratch()
    k = rng.randrange(12)
    if k == 0:
        return d + "/" + rng.choice(["missing", "d", "d.tex", "missing.tex", "d/x"])
    p = d + "/" + rng.choice(["f.tex", "g.tex", "h"])
    with open(p, "wb") as f:
        f.write(blob(rng))
    return p if rng.random() < .8 or not p.endswith(".tex") else p[:-4]


@spec
def isfile(p: Str) -> Bool:
    return exists(p) and not isdir(p)


@spec
def textof(p: Str, r: Str) -> Bool:
    """r is a possible text of the file: its UTF-8 decoding (without byte order mark) when it has one"""
    return implies(decodable(p, "utf-8-sig", ""), r == decoded(p, "utf-8-sig", ""))


@contract
class DetectEncoding:
    target = M + "detect_encoding"
    types = {"path": "str"}
    returns = "str"
    raises = ("FileNotFoundError", "IsADirectoryError")
    gen = {"path": path_gen}
    extern = EXT
    n = 150

    def ensures(path, result):
        return isfile(path)

    def onraise(path):
        return not isfile(path)


@contract
class ReadFile:
    target = M + "read_file"
    types = {"path": "str"}
    returns = "str"
    raises = ("FileNotFoundError", "IsADirectoryError")
    uses = ("codecs_that_never_fail", "standard_codecs", "utf8_errors")
    gen = {"path": path_gen}
    extern = EXT
    n = 400

    def ensures(path, result):
        return isfile(path), textof(path, result)

    def onraise(path):
        return not isfile(path)


@contract
class ReadTex:
    target = "latex2json.utils.tex_utils:read_tex_file_content"
    types = {"file_path": "str", "extension": "str"}
    returns = "str"
    raises = ("FileNotFoundError",)
    gen = {"file_path": path_gen, "extension": [".tex", ".tex", ".sty"]}
    calls = (M + "read_file",)
    extern = EXT
    n = 400

    def ensures(file_path, extension, result):
        return (implies(isfile(strip(file_path)), textof(strip(file_path), result)),
                implies(not isfile(strip(file_path)), isfile(strip(file_path) + extension) and textof(strip(file_path) + extension, result)))

    def onraise(file_path, extension):
        return not isfile(strip(file_path)), not isfile(strip(file_path) + extension) or ends(strip(file_path), extension)
