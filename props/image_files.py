"""C44: the file system helpers are about exactly the file that is named.

dtformats/file_system.py and dtformats/dfvfs_helpers.py; the file systems of
dfVFS and the operating system are stand-ins that record what they are asked.
"""

import argparse

from dfvfs.lib import definitions
from dfvfs.path import factory

from dtformats import dfvfs_helpers
from dtformats import file_system

from props import lib
from props import script_output

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

BACK_ENDS = ("APM", "EXT", "FAT", "GPT", "HFS", "NTFS")
TYPES = ("NTFS", "HFS", "EXT", "APFS", "TSK", "FAT")


class Entry:
    def __init__(self, name, size, children=()):
        self.name = name
        self.size = size
        self.sub_file_entries = iter(list(children))


class FileSystem:
    """Stands in for a file system of dfVFS."""

    def __init__(self, type_indicator, exists, entry):
        self.type_indicator = type_indicator
        self.exists = exists
        self.entry = entry
        self.history = []
        self.opened = object()

    def _spec(self, name, path_spec):
        self.history.append((
            name, path_spec.TYPE_INDICATOR, path_spec.location,
            path_spec.parent))

    def FileEntryExistsByPathSpec(self, path_spec):
        self._spec("exists", path_spec)
        return self.exists

    def GetFileEntryByPathSpec(self, path_spec):
        self._spec("entry", path_spec)
        return self.entry if self.exists else None

    def GetFileObjectByPathSpec(self, path_spec):
        self._spec("open", path_spec)
        return self.opened if self.exists else None

    def BasenamePath(self, path):
        self.history.append(("basename", path))
        return "base"

    def DirnamePath(self, path):
        self.history.append(("dirname", path))
        return None if self.entry is None else "dir"

    def JoinPath(self, segments):
        self.history.append(("join", segments))
        return "joined"

    def SplitPath(self, path):
        self.history.append(("split", path))
        return ["a", "b"]


def parents():
    first = factory.Factory.NewPathSpec(
        definitions.TYPE_INDICATOR_OS, location="/image")
    second = factory.Factory.NewPathSpec(
        definitions.TYPE_INDICATOR_RAW, parent=first)
    return factory.Factory.NewPathSpec(
        definitions.TYPE_INDICATOR_TSK_PARTITION, location="/p1",
        parent=second)


def helper_of(env, type_indicator, exists, entry):
    """A helper, with the file system it opened."""
    system = FileSystem(type_indicator, exists, entry)
    parent = parents()
    spec = factory.Factory.NewPathSpec(
        type_indicator, location="/", parent=parent)
    asked = []

    class Resolver:
        @classmethod
        def OpenFileSystem(cls, path_spec, **kwargs):
            asked.append(path_spec)
            return system

    class Module:
        pass

    Module.Resolver = Resolver
    with script_output.replaced(dfvfs_helpers, dfvfs_resolver=Module):
        helper = dfvfs_helpers.DFVFSFileSystemHelper(None)
        helper.OpenFileSystem(spec)
    env.check("opened", [x is spec for x in asked], [True])
    return helper, system, parent


def image(env, operation, type_indicator, size):
    """One operation, on a file of an image."""
    path = "/" + script_output.letters(env, "path", size)
    exists = env.int("exists", 0, 1) == 1
    length = env.int("length", 0, 2 ** 63 - 1)
    names = [script_output.letters(env, f"name{x}", 2) for x in range(2)]
    entry = Entry("x", length, [Entry(name, 0) for name in names])
    helper, system, parent = helper_of(env, type_indicator, exists, entry)
    asked = {"exists": "exists", "size": "entry", "list": "entry",
             "open": "open"}
    want = [(asked.get(operation, operation), type_indicator, path, parent)]
    if operation == "exists":
        result = helper.CheckFileExistsByPath(path)
        expected = exists
    elif operation == "size":
        result = helper.GetFileSizeByPath(path)
        expected = length if exists else None
    elif operation == "list":
        result = list(helper.ListDirectory(path))
        expected = names if exists else []
    elif operation == "open":
        result = helper.OpenFileByPath(path)
        expected = system.opened if exists else None
        env.check("file", result is expected, True)
        result = expected = None
    elif operation == "join":
        result = helper.JoinPath([path[1:], "b"])
        expected = "joined"
        want = [("join", [path[1:], "b"])]
    else:
        function, expected = {
            "basename": (helper.BasenamePath, "base"),
            "dirname": (helper.DirnamePath, "dir"),
            "split": (helper.SplitPath, ["a", "b"])}[operation]
        result = function(path)
        want = [(operation, path)]
    env.check("result", result, expected)
    env.check("asked", system.history, want)
    env.reach("exists" if exists else "missing")


def history(env, count):
    """Several files of two images: each is looked for in its own image."""
    length = env.int("length", 0, 1000)
    helpers = [helper_of(env, TYPES[x], True, Entry("x", length + x))
               for x in range(2)]
    want = [[], []]
    for number in range(count):
        which = env.int(f"which{number}", 0, 1)
        which = 1 if which == 1 else 0
        path = "/" + script_output.letters(env, f"path{number}", 2)
        helper, _, parent = helpers[which]
        if env.int(f"what{number}", 0, 1) == 1:
            env.check(f"size{number}", helper.GetFileSizeByPath(path),
                      length + which)
            want[which].append(("entry", TYPES[which], path, parent))
        else:
            env.check(f"exists{number}", helper.CheckFileExistsByPath(path),
                      True)
            want[which].append(("exists", TYPES[which], path, parent))
    for which in range(2):
        env.check(f"asked{which}", helpers[which][1].history, want[which])


class System:
    """Stands in for os: what it is asked."""

    sep = "/"

    def __init__(self, exists, length, names):
        self.asked = []
        self.exists_ = exists
        self.length = length
        self.names = names
        self.path = self
        self.st_size = length

    def basename(self, path):
        self.asked.append(("basename", path))
        return path.split("/")[-1]

    def dirname(self, path):
        self.asked.append(("dirname", path))
        return "/".join(path.split("/")[:-1])

    def exists(self, path):
        self.asked.append(("exists", path))
        return self.exists_

    isfile = exists
    lexists = exists

    def stat(self, path):
        self.asked.append(("stat", path))
        return self

    def getsize(self, path):
        return self.stat(path).st_size

    def listdir(self, path):
        self.asked.append(("list", path))
        return list(self.names)


def native(env, operation, size):
    """One operation, on a file of the operating system."""
    path = "/d/" + script_output.letters(env, "path", size)
    exists = env.int("exists", 0, 1) == 1
    length = env.int("length", 0, 2 ** 63 - 1)
    names = [script_output.letters(env, f"name{x}", 2) for x in range(2)]
    system = System(exists, length, names)
    helper = file_system.NativeFileSystemHelper()
    opened = []

    def open_file(name, mode="r", **kwargs):
        opened.append((name, mode))
        return system

    file_system.open = open_file
    try:
        with script_output.replaced(file_system, os=system):
            result, expected, want = native_operation(
                helper, operation, path, system)
    finally:
        del file_system.open
    env.check("result", result, expected)
    env.check("asked", system.asked, want)
    env.check("opened", opened,
              [(path, "rb")] if operation == "open" else [])


def native_operation(helper, operation, path, system):
    if operation == "exists":
        return (helper.CheckFileExistsByPath(path), system.exists_,
                [("exists", path)])
    if operation == "size":
        return (helper.GetFileSizeByPath(path), system.length,
                [("stat", path)])
    if operation == "list":
        return (list(helper.ListDirectory(path)), system.names,
                [("list", path)])
    if operation == "open":
        return helper.OpenFileByPath(path) is system, True, []
    if operation == "basename":
        return (helper.BasenamePath(path), path.split("/")[-1],
                [("basename", path)])
    if operation == "dirname":
        return (helper.DirnamePath(path), "/".join(path.split("/")[:-1]),
                [("dirname", path)])
    if operation == "join":
        return (helper.JoinPath(["d", path[3:], "x"]),
                "/d/" + path[3:] + "/x", [])
    segments = []
    text = ""
    for character in path + "/":
        if character != "/":
            text = text + character
        elif text:
            segments.append(text)
            text = ""
    return helper.SplitPath(path), segments, []


def round_trip(env, sizes):
    """Segments that are joined are the segments the path is split in."""
    segments = []
    for number, size in enumerate(sizes):
        text = script_output.letters(env, f"segment{number}", size)
        for character in text:
            env.assume(character != "/")
        segments.append(text)
    helper = file_system.NativeFileSystemHelper()
    path = helper.JoinPath(list(segments))
    env.check("path", path, "/" + "/".join(segments))
    env.check("segments", helper.SplitPath(path), segments)


def preferred():
    return {name: getattr(definitions, f"PREFERRED_{name}_BACK_END")
            for name in BACK_ENDS + ("MBR",)}


def back_end(env, size, start=None):
    """The preferred back end of every kind of volume."""
    if start is None:
        value = None
    else:
        value = start + script_output.letters(
            env, "name", size - len(start))
    before = preferred()
    neutral = {name: f"other {name}" for name in before}
    try:
        for name, text in neutral.items():
            setattr(definitions, f"PREFERRED_{name}_BACK_END", text)
        dfvfs_helpers.SetDFVFSBackEnd(value)
        after = preferred()
    finally:
        for name, text in before.items():
            setattr(definitions, f"PREFERRED_{name}_BACK_END", text)
    want = dict(neutral)
    native_types = {
        "APM": definitions.TYPE_INDICATOR_APM,
        "EXT": definitions.TYPE_INDICATOR_EXT,
        "FAT": definitions.TYPE_INDICATOR_FAT,
        "GPT": definitions.TYPE_INDICATOR_GPT,
        "HFS": definitions.TYPE_INDICATOR_HFS,
        "NTFS": definitions.TYPE_INDICATOR_NTFS}
    if value == "TSK":
        for name in ("EXT", "FAT", "HFS", "NTFS"):
            want[name] = definitions.TYPE_INDICATOR_TSK
        want["GPT"] = definitions.TYPE_INDICATOR_TSK_PARTITION
        # Anything that is not the back end of dfVFS itself will do.
        env.check("APM", after["APM"] in (
            definitions.TYPE_INDICATOR_TSK,
            definitions.TYPE_INDICATOR_TSK_PARTITION), True)
        want["APM"] = after["APM"]
        env.reach("TSK")
    for name, type_indicator in native_types.items():
        if value == name:
            want[name] = type_indicator
            env.reach(name)
    env.check("preferred", after, want)


def command_line(env, form):
    """The one file system that the arguments select, or none."""
    words = {}
    argv = []
    for name in ("partitions", "snapshots", "volumes"):
        choice, text = script_output.pick(env, name, (
            (0, None), (1, "all"), (2, "1,3..4"), (3, "none"))[:form])
        if text is not None:
            option = f"--{name}" if form == 4 else f"--{name[:-1]}"
            argv += [option, text]
        words[name] = text
    count = env.int("count", 0, 3)
    number = 0
    while number < count:
        number += 1
    parser = argparse.ArgumentParser()
    dfvfs_helpers.AddDFVFSCLIArguments(parser)
    options = parser.parse_args(argv + ["--image", "/image"])
    seen = []
    base = [object() for _ in range(number)]

    class Mediator:
        def ParseVolumeIdentifiersString(self, text, prefix="v"):
            return ("parsed", text, prefix)

    class CommandLine:
        CLIVolumeScannerMediator = Mediator

    class Helper:
        def __init__(self, mediator):
            seen.append(("make", isinstance(mediator, Mediator)))

        def GetBasePathSpecs(self, path, options=None):
            seen.append(("scan", path, options.partitions, options.snapshots,
                         options.volumes))
            return list(base)

        def OpenFileSystem(self, path_spec):
            seen.append(("open", [path_spec is x for x in base]))

    with script_output.replaced(
            dfvfs_helpers, dfvfs_command_line=CommandLine,
            DFVFSFileSystemHelper=Helper):
        result = dfvfs_helpers.ParseDFVFSCLIArguments(options)
    snapshots = ("parsed", words["snapshots"], "v")
    if words["snapshots"] == "none":
        snapshots = ["none"]
    want = [("make", True), (
        "scan", "/image", ("parsed", words["partitions"], "v"), snapshots,
        ("parsed", words["volumes"], "v"))]
    if number == 1:
        want.append(("open", [True]))
        env.check("helper", isinstance(result, Helper), True)
        env.reach("one")
    else:
        env.check("helper", result, None)
        env.reach("none or several")
    env.check("history", seen, want)


def _register():
    def add(name, function, arguments, bounds):
        REGISTRY.add("C44", name, function, arguments, bounds=bounds)

    operations = ("exists", "size", "list", "open", "basename", "dirname",
                  "join", "split")
    for operation in operations:
        for number, type_indicator in enumerate(TYPES):
            size = number
            add(f"image-{operation}-{type_indicator}", image, {
                "operation": operation, "type_indicator": type_indicator,
                "size": size}, f"a path of {size + 1} characters")
        for size in (0, 1, 2, 4):
            add(f"native-{operation}-{size}", native, {
                "operation": operation, "size": size},
                f"a path of {size + 3} characters")
    for count in (2, 4):
        add(f"history-{count}", history, {"count": count},
            f"{count} operations on two images")
    for sizes in ((1,), (2,), (1, 1), (2, 1), (1, 2, 1)):
        name = "-".join(str(x) for x in sizes)
        add(f"round-trip-{name}", round_trip, {"sizes": sizes},
            f"segments of {sizes} characters")
    add("back-end-none", back_end, {"size": 0}, "no back end")
    for size in (0, 1, 2, 3, 4):
        add(f"back-end-{size}", back_end, {"size": size, "start": ""},
            f"a name of {size} characters")
    for form in (3, 4):
        add(f"command-line-{form}", command_line, {"form": form},
            "every choice of partitions, snapshots and volumes; up to three "
            "file systems")


_register()
