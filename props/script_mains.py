"""C42: a script reads the file it is given with the reader of its format.

Each script is run from its Main with its arguments; the readers (which other
properties cover) are replaced by stand-ins that record what is done with them.
"""

import contextlib
import importlib
import io
import os
import sys

from props import lib
from props import script_output

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

# script: (reader class, text before it is closed)
SCRIPTS = {
    "alias_data": ("MacOSLoginItemAliasData",
                   "Mac OS com.apple.loginitems.plist Alias information:\n\n"),
    "asl": ("AppleSystemLogFile", "Apple System Log information:"),
    "bookmark_data": ("MacOSBackgroundItemBookmarkData",
                      "Mac OS backgrounditems.btm bookmark information:\n\n"),
    "bsm": ("BSMEventAuditingFile", "BSM event auditing information:\n\n"),
    "cups_ipp": ("CupsIppFile",
                 "CUPS Internet Printing Protocol (IPP) information:\n\n\n"),
    "detection_history": (
        "WindowsDefenderScanDetectionHistoryFile",
        "Windows Defender scan DetectionHistory information:"),
    "fseventsd": ("FseventsFile", "MacOS fseventsd information:\n\n"),
    "gzipfile": ("GZipFile", "GZip information:"),
    "recycler": ("RecyclerInfo2File",
                 "Recycler INFO2 file information:\n\n"),
    "rp_log": ("RestorePointLogFile",
               "Windows Restore Point rp.log information:\n\n"),
    "safari_cookies": ("BinaryCookiesFile", "Safari Cookies information:\n"),
    "systemd": ("SystemdJournalFile", "Systemd journal information:\n\n"),
    "tzif": ("TimeZoneInformationFile", "Timezone information:\n"),
}
ARGUMENTS = ((["/f"], False), (["-d", "/f"], True), (["/f", "-d"], True),
             (["--debug", "/f"], True), (["/f", "--debug"], True))


class Reader(script_output.StandIn):
    """A reader, and how it was made."""

    FILE_TYPE = "TYPE"

    def __init__(self, name, history, kwargs, fails):
        super().__init__()
        self.history = history
        self.fails = fails
        history.append(("make", name, kwargs.get("debug", False)))

    def Open(self, path):
        super().Open(path)
        if self.fails:
            raise OSError("cannot be opened")

    def ParseDirectory(self, path):
        self.history.append(("directory", path))

    def ParseFile(self, path):
        self.history.append(("file", path))


class Arguments:
    """Stands in for argparse: gives the options of the case."""

    def __init__(self, **options):
        self.options = script_output.Record(**options)

    def ArgumentParser(self, **kwargs):
        return self

    def add_argument(self, *args, **kwargs):
        return

    def parse_args(self):
        return self.options

    def print_help(self):
        return


class named_file:
    """The module's open gives a file; the name goes away afterwards."""

    def __init__(self, module, path, data, history):
        self.module = module
        self.path = path
        self.data = data
        self.history = history
        self.files = []

    def open(self, path, mode="r", **kwargs):
        self.history.append(("look", path, mode))
        if path != self.path:
            raise OSError("no such file")
        self.files.append(Opened(self.data))
        return self.files[-1]

    def __enter__(self):
        self.module.open = self.open
        return self

    def __exit__(self, *args):
        del self.module.open


class Opened(lib.MemFile):
    """A file that can be used in a with statement."""

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def run(env, script, library, names, arguments=None, fails=False, **values):
    """Runs a script: (outcome, text, history)."""
    history = []

    def maker(name):
        def make(**kwargs):
            return Reader(name, history, kwargs, fails)
        return make

    before = sys.argv
    sys.argv = ["script.py", *(arguments or ())]
    help_text = io.StringIO()
    try:
        with script_output.replaced(
                library, **{name: maker(name) for name in names}):
            with script_output.replaced(script, **values):
                with contextlib.redirect_stdout(help_text):
                    with lib.capture_print(env) as printed:
                        result = lib.outcome(script.Main)
    finally:
        sys.argv = before
    return result, printed.text(), history


def modules(name):
    return (importlib.import_module(f"scripts.{name}"),
            importlib.import_module(f"dtformats.{name}"))


def stripped(text):
    """Text without the newlines around it, of which the count is free."""
    return text.strip("\n")


def plain(env, name):
    script, library = modules(name)
    reader, text = SCRIPTS[name]
    arguments, debug = script_output.pick(env, "arguments", ARGUMENTS)
    result, shown, history = run(env, script, library, [reader], arguments)
    env.check("outcome", result, ("ok", True))
    env.check("history", history, [
        ("make", reader, debug), ("open", "/f"), "close"])
    env.check("text", stripped(shown), stripped(text))
    env.reach("shown")


def fails(env, name):
    script, library = modules(name)
    reader = SCRIPTS[name][0]
    arguments, debug = script_output.pick(env, "arguments", ARGUMENTS)
    result, shown, history = run(
        env, script, library, [reader], arguments, fails=True)
    env.check("succeeds", result == ("ok", True), False)
    env.check("history", history[:2], [
        ("make", reader, debug), ("open", "/f")])
    env.reach("fails")


def missing(env, name, names):
    script, library = modules(name)
    arguments = script_output.pick(env, "arguments", ([], ["-d"]))
    result, shown, history = run(env, script, library, names, arguments)
    env.check("outcome", result, ("ok", False))
    env.check("history", history, [])
    env.check("text", stripped(shown), "Source file missing.")
    env.reach("missing")


def signature(env, name, size, offset, magic, readers, text, symbolic):
    """The reader is chosen by a signature in the file."""
    script, library = modules(name)
    data = bytearray(size)
    data[offset:offset + len(magic)] = magic[:max(size - offset, 0)]
    holes = [(x, env.bytes(f"x{x}", 1)) for x in symbolic if x < size]
    data = lib.overlay(bytes(data), holes)
    arguments, debug = script_output.pick(env, "arguments", ARGUMENTS)
    seen = []
    opener = named_file(script, "/f", data, seen)
    with opener:
        result, shown, history = run(
            env, script, library, readers, arguments)
    env.check("outcome", result, ("ok", True))
    is_first = data[offset:offset + len(magic)] == magic
    reader = readers[0] if is_first else readers[1]
    env.check("history", history, [
        ("make", reader, debug), ("open", "/f"), "close"])
    env.check("looked", seen, [("look", "/f", "rb")])
    env.check("left open", [x.closed for x in opener.files], [True])
    env.check("text", stripped(shown), text)
    env.reach("first" if is_first else "other")


def firefox(env, folder, name, symbolic):
    script, library = modules("firefox_cache1")
    letters = [(x, script_output.letters(env, f"x{x}", 1)) for x in symbolic]
    for _, letter in letters:
        env.assume(letter != "/")
    pieces = []
    position = 0
    for index, letter in letters:
        pieces += [name[position:index], letter]
        position = index + 1
    name = "".join(pieces + [name[position:]])
    debug = env.int("debug", 0, 1) == 1
    path = f"{folder}{name}"
    result, shown, history = run(
        env, script, library, ["CacheMapFile", "CacheBlockFile"],
        argparse=Arguments(source=path, debug=debug), os=Paths(False))
    reader = None
    if name == "_CACHE_MAP_":
        reader = "CacheMapFile"
    elif name[:9] == "_CACHE_00":
        reader = "CacheBlockFile"
    if reader is None:
        env.check("outcome", result, ("ok", False))
        env.check("history", history, [])
        env.check("text", stripped(shown),
                  "Unsupported Firefox cache version 1 file name.")
        env.reach("unsupported")
        return
    env.check("outcome", result, ("ok", True))
    env.check("history", history, [
        ("make", reader, debug), ("open", path), "close"])
    env.check("text", stripped(shown), "Firefox cache version 1 information:")
    env.reach("read")


class Paths:
    """Stands in for os: what there is at a path."""

    def __init__(self, is_folder):
        self.is_folder = is_folder
        self.path = self

    def basename(self, path):
        return path.split("/")[-1]

    def __getattr__(self, name):
        return getattr(os if hasattr(os, name) else os.path, name)

    def isdir(self, path):
        return self.is_folder

    def isfile(self, path):
        return not self.is_folder


def chrome(env):
    script, library = modules("chrome_cache")
    is_folder = env.int("folder", 0, 1) == 1
    arguments, debug = script_output.pick(env, "arguments", ARGUMENTS)
    result, shown, history = run(
        env, script, library, ["ChromeCacheParser"], arguments,
        os=Paths(is_folder))
    env.check("outcome", result, ("ok", True))
    env.check("history", history, [
        ("make", "ChromeCacheParser", debug),
        ("directory" if is_folder else "file", "/f")])
    env.reach("folder" if is_folder else "file")


UTMPX = b"utmpx-1.00\x00"


def _register():
    def add(name, function, arguments, bounds):
        REGISTRY.add("C42", name, function, arguments, bounds=bounds)

    everything = {name: [reader] for name, (reader, _) in SCRIPTS.items()}
    everything["utmp"] = ["MacOSXUtmpxFile", "LinuxLibc6UtmpFile"]
    everything["wemf"] = ["EMFFile", "WMFFile"]
    everything["firefox_cache1"] = ["CacheMapFile", "CacheBlockFile"]
    everything["chrome_cache"] = ["ChromeCacheParser"]
    for name in sorted(SCRIPTS):
        add(f"plain-{name}", plain, {"name": name},
            "every way to give the path and the debug option")
        add(f"fails-{name}", fails, {"name": name},
            "a file that cannot be opened")
    for name, names in sorted(everything.items()):
        add(f"missing-{name}", missing, {"name": name, "names": names},
            "no path")
    for size, symbolic in ((0, ()), (10, (0, 9)), (11, (0, 1, 2)),
                           (11, (3, 4, 5)), (12, (6, 7, 8)), (12, (9, 10)),
                           (384, (0, 10, 11))):
        add(f"utmp-{size}-{len(symbolic)}-{sum(symbolic)}", signature, {
            "name": "utmp", "size": size, "offset": 0, "magic": UTMPX,
            "readers": everything["utmp"], "text": "utmp information:",
            "symbolic": symbolic}, f"bytes {symbolic} of a file of {size}")
    for size, symbolic in ((0, ()), (30, (0,)), (43, (40, 41, 42)),
                           (44, (40, 41, 42, 43)), (108, (39, 40, 43, 44)),
                           (108, (0, 41, 42))):
        add(f"wemf-{size}-{len(symbolic)}-{sum(symbolic)}", signature, {
            "name": "wemf", "size": size, "offset": 40, "magic": b" EMF",
            "readers": everything["wemf"], "text": "TYPE information:",
            "symbolic": symbolic}, f"bytes {symbolic} of a file of {size}")
    for folder in ("", "/d/", "/_CACHE_MAP_/"):
        for number, (name, symbolic) in enumerate((
                ("_CACHE_MAP_", (0, 10)), ("_CACHE_MAP_", (7, 8, 9)),
                ("_CACHE_001_", (7, 8, 9)), ("_CACHE_002_", (0, 6, 9, 10)),
                ("_CACHE_MAP_x", (11,)), ("_CACHE_00", (8,)),
                ("_CACHE_0", (7,)), ("x_CACHE_001_", (0,)))):
            add(f"firefox-{len(folder)}-{number}", firefox, {
                "folder": folder, "name": name, "symbolic": symbolic},
                f"characters {symbolic} of the file name")
    add("chrome", chrome, {}, "a folder or a file")


_register()
