"""Common parts of the harnesses (plain Python; runs in both modes)."""

import os

from dtsym.case import Case


# A native file object sets the memory of a whole read aside first.
LARGE = 1 << 46


class MemFile:
    """A read-only binary file with the semantics of a native one."""

    def __init__(self, data):
        self.data = data
        self.position = 0
        self.closed = False
        self.close_count = 0

    def __bool__(self):
        return True

    def read(self, size=None):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        total = len(self.data)
        if size is not None and size > LARGE:
            if size > 0x7fffffffffffffff:
                raise OverflowError("Python int too large")
            raise MemoryError()
        if self.position >= total:
            return b""
        if size is None or size < 0 or self.position + size >= total:
            result = self.data[self.position:]
        else:
            result = self.data[self.position:self.position + size]
        self.position = self.position + len(result)
        return result

    def seek(self, offset, whence=0):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        if whence == 0:
            if offset < 0:
                raise OSError("Invalid argument")
            position = offset
        elif whence == 1:
            position = self.position + offset
        elif whence == 2:
            position = len(self.data) + offset
        else:
            raise ValueError("invalid whence")
        if position < 0:
            raise OSError("Invalid argument")
        if position > 0x7fffffffffffffff:
            raise OverflowError("Python int too large to convert to C ssize_t")
        self.position = position
        return position

    def tell(self):
        return self.position

    def close(self):
        self.closed = True
        self.close_count += 1

    def seekable(self):
        return True

    def get_size(self):
        return len(self.data)


class MemFileSystem:
    """Stands in for the native file system: named byte strings."""

    def __init__(self, files):
        self.files = files
        self.opened = []

    def _name(self, path):
        """Names a file the way the file system finds it."""
        if path in self.files:
            return path
        if path[:2] == "//":
            return path[1:]
        return path if path[:1] == "/" else f"{os.getcwd()}/{path}"

    def BasenamePath(self, path):
        return path.rsplit("/", 1)[-1]

    def CheckFileExistsByPath(self, path):
        return self._name(path) in self.files

    def DirnamePath(self, path):
        return path.rsplit("/", 1)[0] if "/" in path else ""

    def GetFileSizeByPath(self, path):
        return len(self.files[self._name(path)])

    def JoinPath(self, path_segments):
        return "/" + "/".join(path_segments)

    def ListDirectory(self, path):
        path = self._name(path)
        for name in list(self.files):
            if self.DirnamePath(name) == path:
                yield self.BasenamePath(name)

    def OpenFileByPath(self, path):
        file_object = MemFile(self.files[self._name(path)])
        self.opened.append(file_object)
        return file_object

    def SplitPath(self, path):
        return [x for x in path.split("/") if x]


class use_files:
    """Context manager: the native file system helper serves these files."""

    def __init__(self, files):
        self.files = files
        self.file_system = None
        self.original = None

    def __enter__(self):
        from dtformats import file_system
        self.original = file_system.NativeFileSystemHelper
        self.file_system = MemFileSystem(self.files)
        file_system.NativeFileSystemHelper = self._make
        return self.file_system

    def _make(self):
        return self.file_system

    def __exit__(self, *args):
        from dtformats import file_system
        file_system.NativeFileSystemHelper = self.original


class Writer:
    """Output writer that keeps the text of the values written.

    Announcements of reads and dumps of raw structure data are left out: they
    carry no decoded value.
    """

    def __init__(self, keep=()):
        self.parts = []
        self.keep = keep

    def __bool__(self):
        return True

    def Open(self):
        return

    def Close(self):
        return

    def WriteText(self, text):
        head = head_of(text)
        if head.startswith(("Reading ", "\nReading ", "Attribute value: ")):
            return
        label, separator, _ = head.partition(":\n")
        if (separator and label.endswith("data") and "\n" not in label
                and label not in self.keep):
            return
        self.parts.append(text)

    def WriteValue(self, description, value):
        self.parts.append(f"{description:s}{tabs(description):s}: {value!s}\n")

    def text(self):
        return "".join(self.parts)

    def clear(self):
        del self.parts[:]


def head_of(text):
    """The leading part of a text that does not depend on the input."""
    opaque = getattr(text, "__dts_head__", None)
    if opaque:
        return opaque()
    return text


PRINTABLE = ["."] * 32 + list(map(chr, range(32, 127))) + ["."] * 129
ESCAPED = ([f"\\x{x:02x}" for x in range(32)] + list(map(chr, range(32, 127)))
           + [f"\\x{x:02x}" for x in range(127, 256)])


def hexdump_text(data):
    """Reference hexadecimal dump: 16 bytes a row, repeats folded."""
    rows = []
    previous = None
    folded = False
    total = len(data)
    for start in range(0, total, 16):
        chunk = data[start:start + 16]
        last = start + 16 >= total
        if previous is not None and chunk == previous and not last:
            if not folded:
                rows.append("...")
                folded = True
            continue
        folded = False
        previous = chunk
        left = " ".join([f"{x:02x}" for x in chunk[:8]])
        right = " ".join([f"{x:02x}" for x in chunk[8:]])
        shown = "".join([PRINTABLE[x] for x in chunk])
        digits = left + "  " + right
        rows.append(f"0x{start:08x}  " + digits.ljust(48) + "  " + shown)
    return "\n".join(rows + ["", ""])


def hexdump(data):
    if type(data) is tuple:
        data = bytes(data)
    opaque = getattr(data, "__dts_hexdump__", None)
    if opaque:
        return opaque()
    return hexdump_text(data)


class use_hexdump:
    """Symbolic runs treat the hexadecimal dump as opaque."""

    def __init__(self, env):
        self.active = env.symbolic
        self.original = None

    def __enter__(self):
        if self.active:
            from dtformats import data_format
            self.original = data_format.BinaryDataFormat.__dict__[
                "_FormatDataInHexadecimal"]
            data_format.BinaryDataFormat._FormatDataInHexadecimal = (
                opaque_hexdump)
        return self

    def __exit__(self, *args):
        if self.active:
            from dtformats import data_format
            data_format.BinaryDataFormat._FormatDataInHexadecimal = (
                self.original)


def opaque_hexdump(self, data):
    return hexdump(data), True


def dump(description, data):
    return f"{description:s}:\n{hexdump(data):s}"


def tabs(description):
    return "\t" * (9 - len(description) // 8)


def line(description, value):
    """The text of one labelled value, as documented by the output format."""
    return f"{description:s}{tabs(description):s}: {value!s}\n"


def item(description, value):
    """A value of a structure: one with line breaks starts on its own line."""
    if "\n" in value:
        return f"{description:s}:\n{value:s}"
    return line(description, value)


# Fixed-size integers, straight from the format documents.


def uint(data, offset, size, big=False):
    if offset + size > len(data):
        raise Reject("truncated")
    return int.from_bytes(
        data[offset:offset + size], "big" if big else "little")


def sint(data, offset, size, big=False):
    if offset + size > len(data):
        raise Reject("truncated")
    return int.from_bytes(
        data[offset:offset + size], "big" if big else "little", signed=True)


class Reject(Exception):
    """The reference decoder finds the input malformed."""


class Unspecified(Exception):
    """The format does not say what a reader makes of the input."""


def _time(module_name, class_name, value):
    if value == 0:
        return "Not set (0)"
    import importlib
    module = importlib.import_module(f"dfdatetime.{module_name:s}")
    text = getattr(module, class_name)(timestamp=value).CopyToDateTimeString()
    if not text:
        return f"0x{value:08x}"
    return f"{text:s} UTC"


def posix_time(value):
    return _time("posix_time", "PosixTime", value)


def posix_time_us(value):
    return _time("posix_time", "PosixTimeInMicroseconds", value)


def posix_time_ns(value):
    return _time("posix_time", "PosixTimeInNanoseconds", value)


def hfs_time(value):
    return _time("hfs_time", "HFSTime", value)


def filetime(value):
    if value == 0x7fffffffffffffff:
        return "Never (0x7fffffffffffffff)"
    return _time("filetime", "Filetime", value)


def overlay(data, holes):
    """Replaces parts of a concrete byte string by symbolic ones."""
    pieces = []
    position = 0
    for offset, value in sorted(holes, key=lambda x: x[0]):
        pieces.append(data[position:offset])
        pieces.append(value)
        position = offset + len(value)
    pieces.append(data[position:])
    return b"".join(pieces)


def read_file(env, make, data, keep=(), debug=True, path="/f", before=()):
    """Opens data with a reader; (outcome, text written, reader).

    The files in before are opened and closed first with the same reader.
    """
    writer = Writer(keep)
    files = dict(data) if type(data) is dict else {path: data}
    for number, content in enumerate(before):
        files[f"/{number:d}{path:s}"] = bytes.fromhex(content)
    with use_files(files):
        with use_hexdump(env):
            reader = make(debug, writer)
            for number in range(len(before)):
                outcome(reader.Open, f"/{number:d}{path:s}")
                outcome(reader.Close)
            writer.clear()
            result = outcome(reader.Open, path)
    return result, writer.text(), reader


def reference(function, *args):
    """Runs a reference decoder; a Reject counts as ParseError."""
    out = []
    try:
        value = function(out, *args)
        result = ("ok", value)
    except Reject:
        result = ("raise", "ParseError")
    return result, "".join(out)


def outcome(function, *args, **kwargs):
    """("ok", value) or ("raise", name of the exception class)."""
    try:
        return ("ok", function(*args, **kwargs))
    except Exception as exception:
        return ("raise", exception_name(exception))


def exception_name(exception):
    from dtformats import errors
    if isinstance(exception, errors.ParseError):
        return "ParseError"
    if isinstance(exception, UnicodeError):
        return "UnicodeError"
    if isinstance(exception, OSError):
        return "OSError"
    return exception.__class__.__name__


class Registry:
    """Cases of a module, by property."""

    def __init__(self):
        self.items = []

    def add(self, property_id, name, function, params=None, **kwargs):
        self.items.append(
            (property_id, Case(name, function, params, **kwargs)))

    def cases(self, property_id):
        return [case for owner, case in self.items if owner == property_id]

    def find(self, name):
        for _, case in self.items:
            if case.name == name:
                return case
        raise KeyError(name)

    def add_reuse(self, skip=()):
        """Cases that read a file with a reader that read another before.

        For every family of files: the file of its first case after that of
        its last, the other way around, and after one that ends too early.
        """
        groups = {}
        for owner, case in self.items:
            if getattr(case.function, "reusable", False):
                groups.setdefault((owner, case.function, case.params.get(
                    "kind"), case.params.get("name")), []).append(case)
        for (owner, function, _, _), group in groups.items():
            group = [case for case in group if case.tier == "quick"
                     and 2 * (case.params["size"] or 1 << 30) >= len(
                         case.params["base"]) and case.params["holes"]
                     and len(case.params["base"]) < 16384]
            if not group:
                continue
            simple = [case for case in group if len(case.params["holes"]) == 1
                      and case.params["holes"][0][1] <= 4
                      and case.name not in skip] or group
            first, last = simple[0], simple[-1]
            largest = max(group, key=lambda x: len(x.params["base"]))
            pairs = [(first, last), (last, first), (largest, first)]
            if largest.name not in skip:
                pairs.append((first, largest))
            number = 0
            seen = []
            for before, case in pairs:
                base = before.params["base"]
                for content in (base, base[:len(base) // 4 * 2 + 2]):
                    key = (content, case.name)
                    if key in seen:
                        continue
                    seen.append(key)
                    self.items.append((owner, Case(
                        f"{case.name}-reuse-{number}", function,
                        {**case.params, "before": [content]},
                        bounds=f"{case.bounds}, after another file",
                        tier=case.tier, budget=case.budget,
                        max_ticks=4 * case.max_ticks,
                        max_choose=case.max_choose,
                        max_paths=case.max_paths,
                        solver_timeout=case.solver_timeout,
                        replay_timeout=case.replay_timeout)))
                    number += 1


def fill(env, base, holes, size=None, limits=()):
    """A byte string given in hexadecimal with symbolic parts.

    holes are (offset, length); limits are (offset, low, high) of a byte.
    """
    data = overlay(bytes.fromhex(base), [
        (offset, env.bytes(f"at{offset}", length))
        for offset, length in holes])
    if size is not None:
        data = data[:size]
    for offset, low, high in limits:
        if offset < len(data):
            env.assume(data[offset] >= low)
            env.assume(data[offset] <= high)
    return data


def handled(result):
    """An outcome that is allowed of any file."""
    return result[0] == "ok" or result == ("raise", "ParseError")


def decide(env, make, decoder, data, keep=(), path="/f", quiet=True,
           observe=None, before=()):
    """The reader must behave as the reference decoder on this file.

    observe(reader) is what the reader offers after a successful read, and has
    to equal the value the decoder returns.  Where the decoder finds the file
    unspecified, the reader must accept it or raise ParseError.
    """
    result, text, reader = read_file(
        env, make, data, keep=keep, path=path, before=before)
    try:
        want, expected = reference(decoder, data)
    except Unspecified:
        env.check("handled", handled(result), True)
        result, text, reader = read_file(
            env, make, data, keep=keep, path=path, debug=False,
            before=before)
        env.check("quiet handled", handled(result), True)
        env.reach("unspecified")
        return
    value = None
    if want[0] == "ok":
        value = want[1]
        want = ("ok", None)
    env.check("outcome", result, want)
    env.check("values", text, expected)
    if observe is not None and want[0] == "ok":
        env.check("result", observe(reader), value)
    if quiet:
        result, text, reader = read_file(
            env, make, data, keep=keep, path=path, debug=False,
            before=before)
        env.check("quiet outcome", result, want)
        env.check("quiet text", text, "")
        if observe is not None and want[0] == "ok":
            env.check("quiet result", observe(reader), value)
    env.reach(want[0])


class capture_print:
    """Context manager: the text the code prints."""

    def __init__(self, env):
        self.symbolic = env.symbolic
        self.parts = []
        self.original = None

    def __enter__(self):
        import builtins
        if self.symbolic:
            from dtsym import runtime
            runtime.PRINTED.clear()
        else:
            self.original = builtins.print
            builtins.print = self._print
        return self

    def _print(self, *args, **kwargs):
        self.parts.append((args, kwargs))

    def __exit__(self, *args):
        import builtins
        if self.symbolic:
            from dtsym import runtime
            self.parts = list(runtime.PRINTED)
            runtime.PRINTED.clear()
        else:
            builtins.print = self.original

    def text(self):
        lines = []
        for args, kwargs in self.parts:
            separator = kwargs.get("sep", " ")
            lines.append(separator.join([f"{x!s}" for x in args])
                         + kwargs.get("end", "\n"))
        return "".join(lines)


def file_runner(make, decoder, observe=None, keep=(), quiet=True, path="/f"):
    """A case function: a file given in hexadecimal, with symbolic parts."""

    def run(env, base, holes, size=None, limits=(), before=()):
        data = fill(env, base, holes, size, limits)
        decide(env, make, decoder, data, keep=keep, observe=observe,
               quiet=quiet, path=path, before=before)

    run.reusable = True
    return run


class Family:
    """Adds cases that vary parts of one base file."""

    def __init__(self, registry, property_id, prefix, runner, **options):
        self.registry = registry
        self.property_id = property_id
        self.prefix = prefix
        self.runner = runner
        self.options = options

    def holes(self, name, base, holes, bounds=None, size=None, limits=(),
              **options):
        """One case: these (offset, length) symbolic."""
        if bounds is None:
            bounds = "bytes " + ", ".join(
                f"{offset}..{offset + length - 1}"
                for offset, length in holes) + " symbolic"
        self.registry.add(
            self.property_id, f"{self.prefix}-{name}", self.runner,
            {"base": bytes(base).hex(), "holes": list(holes), "size": size,
             "limits": list(limits)},
            bounds=f"file of {len(base)} bytes, {bounds}",
            **{**self.options, **options})

    def fields(self, base, fields, name="field", **options):
        """One case per field (offset, length)."""
        for offset, length in fields:
            self.holes(f"{name}-{offset}-{length}", base, [(offset, length)],
                       **options)

    def cuts(self, base, sizes, holes=(), name="cut", **options):
        for size in sizes:
            self.holes(f"{name}-{size}", base, holes, size=size,
                       bounds=f"cut to {size} bytes", **options)


# Structures, straight from the format documents.


def escaped(data):
    return "".join([ESCAPED[x] for x in data])




def shown(kind, value):
    """The documented text of a value."""
    if kind == "d" or kind == "i":
        return f"{value:d}"
    if kind == "x2":
        return f"0x{value:02x}"
    if kind == "x4":
        return f"0x{value:04x}"
    if kind == "x8" or kind == "ix8":
        return f"0x{value:08x}"
    if kind == "off":
        return f"{value:d} (0x{value:08x})"
    if kind == "t" or kind == "it":
        return posix_time(value)
    if kind == "tu":
        return posix_time_us(value)
    if kind == "tn":
        return posix_time_ns(value)
    if kind == "ft":
        return filetime(value)
    if kind == "str":
        return escaped(value)
    return kind(value)


def layout(out, data, offset, members, big=False, order=None):
    """Values of consecutive members (label, size, kind) of a structure.

    A kind "b" is a byte string shown as a dump, "str" one shown as text, "-"
    is not shown; a kind that starts with "i" is a signed number.  A function
    as the kind makes the text.  order lists the labels as shown.
    """
    total = sum([member[1] for member in members])
    if offset < 0 or offset + total > len(data):
        raise Reject("structure")
    values = []
    texts = {}
    for label, size, kind in members:
        if kind == "b" or kind == "str":
            value = data[offset:offset + size]
        elif kind == "i" or kind == "it" or kind == "ix8":
            value = sint(data, offset, size, big)
        else:
            value = uint(data, offset, size, big)
        values.append(value)
        if kind == "b":
            texts[label] = dump(label, value)
        elif kind != "-":
            texts[label] = line(label, shown(kind, value))
        offset += size
    if order is None:
        order = list(texts)
    for label in order:
        out.append(texts[label])
    if order:
        close(out)
    else:
        out.append("\n")
    return values


def close(out):
    """A structure ends with an empty line."""
    if not out[-1].endswith("\n\n"):
        out.append("\n")
