"""Harness of C08: a world with one temporary directory, and models of the file functions the archive code calls.

W (a World) is ghost state: which temporary directory has been made and whether it still exists. Every model may fail in any of the
ways listed in `fails`. A model that writes demands (as its precondition) that what it writes lies inside the directory."""
import builtins, gzip, os, shutil, tarfile, tempfile, zipfile
from pyvc.spec import *
from pyvc.spec import spec
from latex2json.tex_file_extractor import TexFileExtractor
from latex2json.tex_reader import TexReader, ProcessingResult

W = None


class World:
    """dir: the temporary directory that is handed out; made: how many were handed out; exists: is it there"""


def fails():
    """anything may go wrong here (the contract declares what)"""


def fails_tar():
    """the same while a tar file is read"""


def fails_gzip():
    """the same while a gzip file is read"""


def fails_member():
    """the same while the member that a link refers to is looked for"""


def fails_file():
    """the same while a file is converted"""


def maybe():
    """either answer"""


def store(member, path, directory):
    """an archive member is written below path (the precondition of the contract says which members may be)"""


def everything(path, directory):
    """every member of an archive is written below path, whatever it is called"""


def write(path, directory):
    """a file or a directory is written"""


def removes(path, directory):
    """a directory is removed with everything in it"""


def mkdtemp_model(suffix=None, prefix=None, dir=None):
    fails()
    W.made = W.made + 1
    W.exists = True
    return W.dir


def rmtree_model(path, ignore_errors=False, onerror=None):
    removes(path, W.dir)
    if not ignore_errors:
        fails()
    W.exists = False


class Zip:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def namelist(self):
        fails()
        return zipnames(self.path)

    def extract(self, member, path=None, pwd=None):
        store(member, path, W.dir)
        fails()

    def extractall(self, path=None, members=None, pwd=None):
        everything(path, W.dir)
        fails()


class Tar:
    def __init__(self, path):
        self.path = path

    def __enter__(self):
        return self

    def getmembers(self):
        fails_tar()
        return members(self.path)

    def extract(self, member, path="", set_attrs=True, numeric_owner=False, filter=None):
        store(member.name, path, W.dir)
        fails_tar()

    def extractall(self, path=".", members=None, numeric_owner=False, filter=None):
        everything(path, W.dir)
        fails_tar()

    def extractfile(self, member):
        fails_member()
        if maybe():
            return None
        return Stream()


class Stream:
    def read(self, n=-1):
        fails()
        return ""


def zip_model(path, mode="r"):
    fails()
    return Zip(path)


def tar_model(path, mode="r"):
    fails_tar()
    return Tar(path)


def gzip_model(path, mode="rb"):
    fails_gzip()
    return Stream()


def open_model(path, mode="r", encoding=None, errors=None):
    if mode != "r" and mode != "rb":
        write(path, W.dir)
    fails()
    return Stream()


def makedirs_model(path, mode=511, exist_ok=False):
    write(path, W.dir)
    fails()


def copyfileobj_model(source, target):
    fails_gzip()


def find_model(folder):
    fails()
    return maintex(folder), mainfolder(folder)


def read_model(path):
    fails()
    return content(path)


def is_main_model(text):
    fails()
    return ismain(text)


class Result(ProcessingResult):
    """what a conversion yields: it knows nothing of the directory of an archive"""
    def __init__(self):
        self.tokens = []
        self.temp_dir = None


def file_model(self, file_path):
    fails_file()
    return Result()


def folder_model(self, folder_path):
    fails_file()
    return Result()


def isabs_model(p):
    return isabs(p)


def join_model(a, b):
    return joinpath(a, b)


def abspath_model(p):
    return abspath(p)


def dirname_model(p):
    return dirname(p)


def basename_model(p):
    return basename(p)


@spec(abstract=True)
def zipnames(p: Str) -> List:
    return []


@spec(abstract=True)
def members(p: Str) -> List:
    return []


@spec(abstract=True)
def maintex(p: Str) -> Str:
    return ""


@spec(abstract=True)
def mainfolder(p: Str) -> Str:
    return ""


@spec(abstract=True)
def content(p: Str) -> Str:
    return ""


@spec(abstract=True)
def ismain(p: Str) -> Bool:
    return True


@spec(abstract=True)
def isabs(p: Str) -> Bool:
    return os.path.isabs(p)


@spec(abstract=True)
def joinpath(a: Str, b: Str) -> Str:
    return os.path.join(a, b)


@spec(abstract=True)
def abspath(p: Str) -> Str:
    return os.path.abspath(p)


@spec(abstract=True)
def dirname(p: Str) -> Str:
    return os.path.dirname(p)


@spec(abstract=True)
def basename(p: Str) -> Str:
    return os.path.basename(p)


zipnames.elem = "str"
EXT = {tempfile.mkdtemp: mkdtemp_model, shutil.rmtree: rmtree_model, zipfile.ZipFile: zip_model, tarfile.open: tar_model, gzip.open: gzip_model,
       builtins.open: open_model, os.makedirs: makedirs_model, shutil.copyfileobj: copyfileobj_model,
       os.path.isabs: isabs_model, os.path.join: join_model, os.path.abspath: abspath_model, os.path.dirname: dirname_model, os.path.basename: basename_model}


def session(world, tmp, path, cleanup):
    """a caller uses the extracted files (and may fail) -> (failed, what it was given)"""
    world.dir, world.made, world.exists = tmp, 0, False
    failed, given = False, ""
    try:
        with TexFileExtractor.process_compressed_file(path, cleanup) as (main, folder):
            given = folder
            fails()
    except BaseException:
        failed = True
    return failed, given, world.made, world.exists


def compressed(world, tmp, reader, path, cleanup):
    """-> (failed, the directory named in the result, ...)"""
    world.dir, world.made, world.exists = tmp, 0, False
    failed, out = False, None
    try:
        out = reader.process_compressed(path, cleanup)
    except BaseException:
        failed = True
    if failed:
        return True, "", world.made, world.exists
    return False, out.temp_dir, world.made, world.exists


def cleaned(world, tmp, reader, path):
    """the result of an archive is cleaned up, twice -> (there is a result, made, exists before, after the first and the second time)"""
    world.dir, world.made, world.exists = tmp, 0, False
    try:
        out = reader.process_compressed(path, False)
    except BaseException:
        return False, world.made, world.exists, world.exists, world.exists
    before = world.exists
    out.cleanup()
    once = world.exists
    out.cleanup()
    return True, world.made, before, once, world.exists


def processed(world, tmp, reader, path, cleanup):
    """TexReader.process on a path of any kind -> (failed, made, exists)"""
    world.dir, world.made, world.exists = tmp, 0, False
    failed = False
    try:
        reader.process(path, cleanup)
    except BaseException:
        failed = True
    return failed, world.made, world.exists
