r"""C08: the temporary directory of an archive and what is written while it is unpacked (latex2json/tex_file_extractor.py, tex_reader.py).

The file system is outside the repository: contracts/archives.py models the functions that are called, each of which may fail."""
from pyvc.spec import *
from pyvc.spec import spec, axiom, lemma
from pyvc.engine import contract, attrs
from .archives import *
from . import archives as A
import latex2json.tex_file_extractor as tfe

H = "contracts.archives:"
attrs(H + "World", dir="str", made="int", exists="bool")
EXTERN = dict(A.EXT)
EXTERN[TexFileExtractor.find_main_tex_file] = A.find_model
EXTERN[TexFileExtractor.is_main_tex_file] = A.is_main_model
EXTERN[tfe.read_file] = A.read_model
EXTERN[TexReader.process_file] = A.file_model
EXTERN[TexReader.process_folder] = A.folder_model


@spec
def safe(n: Str) -> Bool:
    """a relative name that does not lead upwards"""
    return not isabs(n) and not (".." in n)


@spec(abstract=True)
def inside(p: Str, d: Str) -> Bool:
    """the path p lies below the directory d (no links below d)"""
    return os.path.abspath(p).startswith(os.path.abspath(d) + os.sep)


@spec(abstract=True)
def plain(n: Str) -> Bool:
    """no separator in it"""
    return "/" not in n and os.sep not in n


class Failing:
    returns = "none"
    trusted = True


@contract
class Fails(Failing):
    """any failure that no handler names"""
    target = H + "fails"
    raises = ("BaseException", "Exception")


@contract
class FailsTar(Failing):
    target = H + "fails_tar"
    raises = ("BaseException", "Exception", "tarfile.ReadError")


@contract
class FailsGzip(Failing):
    target = H + "fails_gzip"
    raises = ("BaseException", "Exception", "gzip.BadGzipFile")


@contract
class FailsMember(Failing):
    target = H + "fails_member"
    raises = ("BaseException", "Exception", "KeyError", "tarfile.ReadError")


@contract
class Maybe:
    target = H + "maybe"
    returns = "bool"
    trusted = True


@contract
class Store:
    target = H + "store"
    types = {"member": "str", "path": "any", "directory": "str"}
    returns = "none"
    trusted = True

    def requires(member, path, directory):
        return path == directory, safe(member)


@contract
class Everything:
    target = H + "everything"
    types = {"path": "any", "directory": "str"}
    returns = "none"
    trusted = True

    def requires(path, directory):
        return False


@contract
class Write:
    target = H + "write"
    types = {"path": "any", "directory": "str"}
    returns = "none"
    trusted = True

    def requires(path, directory):
        return inside(vstr(path), directory)


@contract
class Removes:
    target = H + "removes"
    types = {"path": "any", "directory": "str"}
    returns = "none"
    trusted = True

    def requires(path, directory):
        return path == directory


@spec(decreases="k")
def allsafe(l: List, k: Int) -> Bool:
    return True if k <= 0 else (allsafe(l, k - 1) and safe(l[k - 1]))


@lemma(trigger="allsafe(append(l, x), k)", measure="k")
def allsafe_append(l: List, x: Val, k: Int):
    assert k <= len(l)
    return allsafe(append(l, x), k) == allsafe(l, k)


@lemma(trigger=("allsafe(l, k), l[i]"), measure="k")
def allsafe_each(l: List, k: Int, i: Int):
    assert allsafe(l, k) and 0 <= i and i < k
    return safe(vstr(l[i]))


@spec(decreases="k")
def allnamed(l: List, k: Int) -> Bool:
    return True if k <= 0 else (allnamed(l, k - 1) and safe(field("name", l[k - 1])))


@lemma(trigger="allnamed(append(l, x), k)", measure="k")
def allnamed_append(l: List, x: Val, k: Int):
    assert k <= len(l)
    return allnamed(append(l, x), k) == allnamed(l, k)


@lemma(trigger=("allnamed(l, k), l[i]"), measure="k")
def allnamed_each(l: List, k: Int, i: Int):
    assert allnamed(l, k) and 0 <= i and i < k
    return safe(field("name", l[i]))


@axiom(trigger="inside(joinpath(d, n), d)")
def relative_names(d: Str, n: Str):
    """a relative name without .. stays below the directory it is joined to, and so does a name without separators"""
    return implies(safe(n) or (plain(n) and n != "" and n != "." and n != ".."), inside(joinpath(d, n), d))


@axiom(trigger="inside(dirname(joinpath(d, n)), d)")
def relative_dirs(d: Str, n: Str):
    return implies(safe(n), inside(dirname(joinpath(d, n)), d))


@axiom(trigger="plain(n)")
def plain_texts(n: Str):
    return implies(n == ".tex" or n == "_extracted" or n == ".gz" or n == "", plain(n))


@axiom(trigger="plain(basename(p))")
def plain_basename(p: Str):
    return plain(basename(p))


@axiom(trigger="plain(a + b)")
def plain_cat(a: Str, b: Str):
    return implies(plain(a) and plain(b), plain(a + b))


@axiom(trigger="plain(s[i:j])")
def plain_part(s: Str, i: Int, j: Int):
    return implies(plain(s), plain(s[i:j]))


@axiom(trigger="lower(n)")
def lower_dots(n: Str):
    return implies(n == "" or n == "." or n == "..", lower(n) == n)


AX = ("relative_names", "relative_dirs", "plain_texts", "plain_basename", "plain_cat", "plain_part", "lower_dots", "allsafe_append", "allsafe_each", "allnamed_append", "allnamed_each")


@contract
class Session:
    """the extracted files exist while the caller works with them, and are gone afterwards when asked for or when there was nothing to use"""
    target = H + "session"
    types = {"world": 'obj["%sWorld"]' % H, "tmp": "str", "path": "str", "cleanup": "bool"}
    returns = "tuple[bool, str, int, bool]"
    extern = EXTERN
    ghosts = {"W": "world"}
    fields = {"name": "str", "suffix": "str"}
    uses = AX
    unsampled = True
    total = False
    budget = 200
    maxpaths = 3000

    def requires(tmp):
        return tmp != ""

    def ensures_one(result):
        return result[2] <= 1

    def ensures_given(tmp, result):
        return result[1] == "" or result[1] == tmp

    def ensures_cleanup(cleanup, result):
        return implies(cleanup or result[1] == "", not result[3])

    def ensures_kept(cleanup, result):
        return implies(not cleanup and result[1] != "", result[3])

    def inv_zip(acc: ListS):
        return allsafe(acc, len(acc))

    def inv_tar(acc: ListT):
        return allnamed(acc, len(acc))


READER = 'obj["latex2json.tex_reader:TexReader"]'


@contract
class FailsFile(Failing):
    target = H + "fails_file"
    raises = ("BaseException", "Exception", "FileNotFoundError")


class Reading:
    types = {"world": 'obj["%sWorld"]' % H, "tmp": "str", "reader": READER, "path": "str", "cleanup": "bool"}
    extern = EXTERN
    ghosts = {"W": "world"}
    fields = {"name": "str", "suffix": "str"}
    uses = AX
    unsampled = True
    total = False
    budget = 200
    maxpaths = 3000

    def requires(tmp):
        return tmp != ""

    def inv_zip(acc: ListS):
        return allsafe(acc, len(acc))

    def inv_tar(acc: ListT):
        return allnamed(acc, len(acc))


@contract
class Compressed(Reading):
    """without a result the directory is gone, with one it is there exactly when it was to be kept, and the result names it"""
    target = H + "compressed"
    returns = "tuple[bool, opt[str], int, bool]"

    def ensures_one(result):
        return result[2] <= 1

    def ensures_failed(result):
        return implies(result[0], not result[3])

    def ensures_done(tmp, cleanup, result):
        return implies(not result[0], (cleanup or result[1] == tmp) and result[3] == (not cleanup))


@contract
class Cleaned(Reading):
    """cleaning up removes the directory and can be repeated"""
    target = H + "cleaned"
    types = {"world": 'obj["%sWorld"]' % H, "tmp": "str", "reader": READER, "path": "str"}
    returns = "tuple[bool, int, bool, bool, bool]"

    def ensures_one(result):
        return result[1] <= 1

    def ensures_failed(result):
        return implies(not result[0], not result[2])

    def ensures_done(result):
        return implies(result[0], result[2] and not result[3] and not result[4])


@contract
class Processed(Reading):
    """whatever kind of path is processed: no directory is left when it failed or when it was to be cleaned up"""
    target = H + "processed"
    returns = "tuple[bool, int, bool]"

    def ensures_one(result):
        return result[1] <= 1

    def ensures_gone(cleanup, result):
        return implies(result[0] or cleanup, not result[2])
