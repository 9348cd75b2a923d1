"""C43: the headers and region tables of a VHDX image are shown exactly.

scripts/analyzer.py maps the file information, both headers and both region
tables with dtformats/vhdx.yaml; the reference follows [MS-VHDX] 2.2.
"""

import contextlib
import io
import sys

from scripts import analyzer as script

from props import lib
from props import script_mains
from props import script_output

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

BLOCK = 64 * 1024
STARTS = (0, BLOCK, 2 * BLOCK, 3 * BLOCK, 4 * BLOCK)
KINDS = ("information", "header", "header", "table", "table")


class Sparse:
    """A file of parts at offsets, with zeros in between."""

    def __init__(self, parts, size):
        self.parts = parts
        self.size = size
        self.position = 0
        self.closed = False

    def seek(self, offset, whence=0):
        self.position = offset + (
            0, self.position, self.size)[whence]
        return self.position

    def tell(self):
        return self.position

    def read(self, size=-1):
        if self.position >= self.size:
            return b""
        start = self.position
        end = self.size if size is None or size < 0 else min(
            self.size, start + size)
        self.position = end
        pieces = []
        for offset, data in self.parts:
            if offset >= end or offset + len(data) <= start:
                continue
            if start < offset:
                pieces.append(bytes(offset - start))
                start = offset
            piece = data[start - offset:end - offset]
            pieces.append(piece)
            start += len(piece)
        pieces.append(bytes(end - start))
        return b"".join(pieces)

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


def guid(data, offset):
    values = [f"{x:02x}" for x in data[offset:offset + 16]]
    order = [3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1,
             10, 11, 12, 13, 14, 15]
    return "".join(["-" if x < 0 else values[x] for x in order])


def information(out, data):
    if data[:8] != b"vhdxfile":
        raise lib.Reject("signature")
    out.append(lib.dump("Signature", data[:8]))
    try:
        creator = data[8:520].decode("utf-16-le")
    except UnicodeDecodeError as exception:
        raise lib.Reject("creator") from exception
    out.append(lib.item("Creator", creator.rstrip("\x00")))
    out.append(lib.dump("Unknown1", data[520:65536]))


def header(out, data):
    if data[:4] != b"head":
        raise lib.Reject("signature")
    out.append(lib.dump("Signature", data[:4]))
    out.append(lib.line("Checksum", f"0x{lib.uint(data, 4, 4):08x}"))
    out.append(lib.line("Sequence number", f"{lib.uint(data, 8, 8):d}"))
    out.append(lib.line("File write identifier", guid(data, 16)))
    out.append(lib.line("Data write identifier", guid(data, 32)))
    out.append(lib.line("Log identifier", guid(data, 48)))
    out.append(lib.line("Log format version", f"{lib.uint(data, 64, 2):d}"))
    out.append(lib.line("Format version", f"{lib.uint(data, 66, 2):d}"))
    out.append(lib.line("Log size", f"{lib.uint(data, 68, 4):d}"))
    out.append(lib.line("Log offset", f"0x{lib.uint(data, 72, 8):08x}"))
    out.append(lib.dump("Unknown1", data[80:4096]))


def table(out, data):
    if data[:4] != b"regi":
        raise lib.Reject("signature")
    out.append(lib.dump("Signature", data[:4]))
    out.append(lib.line("Checksum", f"0x{lib.uint(data, 4, 4):08x}"))
    count = lib.uint(data, 8, 4)
    out.append(lib.line("Number of entries", f"{count:d}"))
    out.append(lib.line("Unknown1", f"{lib.uint(data, 12, 4):d}"))
    lines = ["Entries:\n\n"]
    for number in range(count):
        start = 16 + 32 * number
        if start + 32 > len(data):
            raise lib.Reject("entry")
        lines.append(f"Entry: {number:d}\n")
        lines.append(lib.line("Region type identifier", guid(data, start)))
        lines.append(lib.line(
            "Region data offset", f"0x{lib.uint(data, start + 16, 8):08x}"))
        lines.append(lib.line(
            "Region data size", f"{lib.uint(data, start + 24, 4):d}"))
        lines.append(lib.line(
            "Is required flag", f"{lib.uint(data, start + 28, 4):d}"))
        lines.append("\n")
    out.append("".join(lines))


def decode(out, pieces):
    """The text of the structures, the empty lines left out."""
    for index, kind in enumerate(KINDS):
        part = []
        try:
            {"information": information, "header": header,
             "table": table}[kind](part, pieces[index])
        except lib.Reject:
            return ("raise", "ParseError")
        out.append("".join(part))
    return ("ok", None)


class Parts(lib.Writer):
    """Keeps the text of each structure."""

    def text(self):
        return [part for part in self.parts if part != "\n"]


def sample(count):
    """The five structures of an image with count regions."""
    head = (b"head" + (0x11223344).to_bytes(4, "little")
            + (7).to_bytes(8, "little") + bytes(range(48))
            + bytes((0, 0, 1, 0)) + (0x100000).to_bytes(4, "little")
            + (0x200000).to_bytes(8, "little"))
    entries = b"".join([
        bytes(range(16 * x, 16 * x + 16))
        + (0x300000 * (x + 1)).to_bytes(8, "little")
        + (0x100000 * (x + 1)).to_bytes(4, "little")
        + (x & 1).to_bytes(4, "little") for x in range(count)])
    regions = (b"regi" + (5).to_bytes(4, "little")
               + count.to_bytes(4, "little") + bytes(4) + entries)
    first = b"vhdxfile" + "dtformats 1.0".encode("utf-16-le")
    return [first, head, head[:8] + bytes((8,)) + head[9:], regions,
            regions[:4] + bytes((6,)) + regions[5:]]


def analyze(env, part, holes, count, limits=(), size=5 * BLOCK):
    pieces = sample(count)
    named = [(offset, env.bytes(f"at{offset}", length))
             for offset, length in holes]
    short = pieces[part]
    reach = max([len(short)] + [x + len(value) for x, value in named])
    short = lib.overlay(short + bytes(reach - len(short)), named)
    for offset, low, high in limits:
        env.assume(short[offset] >= low)
        env.assume(short[offset] <= high)
    pieces[part] = short
    whole = []
    length = {"information": BLOCK, "header": 4096, "table": BLOCK}
    for index, kind in enumerate(KINDS):
        end = min(length[kind], max(size - STARTS[index], 0))
        piece = pieces[index][:end]
        whole.append(piece + bytes(end - len(piece)))
    file_object = Sparse(list(zip(STARTS, pieces)), size)
    writer = Parts()
    with lib.use_hexdump(env):
        reader = script.BinaryDataFormatAnalyzer(
            debug=True, output_writer=writer)
        reader.ReadDefinition("vhdx.yaml")
        result = lib.outcome(reader.ReadFileObject, file_object)
        want = []
        for index, kind in enumerate(KINDS):
            if len(whole[index]) < (BLOCK if kind == "information" else
                                    4096 if kind == "header" else 16):
                whole[index] = b""
        expected = decode(want, whole)
    env.check("outcome", result, expected)
    shown = writer.text()
    env.check("structures", len(shown), len(want))
    for got, wanted in zip(shown, want):
        env.check("structure", got, wanted)
    env.reach(expected[0])


def main_program(env):
    """The script analyzes the file once and closes it."""
    arguments, expected = script_output.pick(env, "arguments", (
        ([], "Definition file missing."),
        (["vhdx.yaml"], "Source file missing."),
        (["bsm.yaml", "/f"], "Definition file currently not supported."),
        (["vhdx.yaml", "/f"], None)))
    history = []

    class StandIn:
        def __init__(self, debug=False, output_writer=None):
            history.append(("make", debug))

        def ReadDefinition(self, name):
            history.append(("definition", name))

        def ReadFileObject(self, file_object):
            history.append(("read", file_object.closed))

    seen = []
    opener = script_mains.named_file(script, "/f", b"vhdxfile", seen)
    before = sys.argv
    sys.argv = ["analyzer.py", *arguments]
    try:
        with script_output.replaced(
                script, BinaryDataFormatAnalyzer=StandIn):
            with opener, contextlib.redirect_stdout(io.StringIO()):
                with lib.capture_print(env) as printed:
                    result = lib.outcome(script.Main)
    finally:
        sys.argv = before
    if expected is not None:
        env.check("outcome", result, ("ok", False))
        env.check("text", printed.text().strip("\n"), expected)
        env.check("history", history, [])
        env.check("opened", seen, [])
        env.reach("refused")
        return
    env.check("outcome", result, ("ok", True))
    env.check("history", history, [
        ("make", True), ("definition", "vhdx.yaml"), ("read", False)])
    env.check("opened", seen, [("look", "/f", "rb")])
    env.check("closed", [x.closed for x in opener.files], [True])
    env.reach("read")


def _register():
    def add(name, part, holes, count=2, limits=(), size=5 * BLOCK,
            tier="quick"):
        REGISTRY.add("C43", name, analyze, {
            "part": part, "holes": holes, "count": count, "limits": limits,
            "size": size}, tier=tier, bounds=(
                f"{count} regions; bytes {holes} of structure {part} symbolic"
                f", file of {size} bytes"))

    add("information-signature-0", 0, ((0, 4),))
    add("information-signature-4", 0, ((4, 4),))
    for offset in (8, 26, 516, 518):
        add(f"information-creator-{offset}", 0, ((offset, 2),))
    add("information-creator-pair", 0, ((10, 4),),
        limits=((11, 0xd7, 0xe0), (13, 0xd7, 0xe0)))
    add("information-end", 0, ((519, 2), (65535, 1)))
    for part in (1, 2):
        for offset, length in ((0, 4), (4, 4), (8, 4), (12, 4), (16, 8),
                               (24, 8), (32, 8), (40, 8), (48, 8), (56, 8),
                               (64, 4), (68, 4), (72, 4), (76, 4), (80, 2),
                               (4094, 2)):
            add(f"header-{part}-{offset}", part, ((offset, length),))
    for part in (3, 4):
        for offset, length in ((0, 4), (4, 4), (12, 4), (16, 8), (24, 8),
                               (32, 4), (36, 4), (40, 4), (44, 4), (48, 8),
                               (56, 8), (64, 8), (72, 8)):
            add(f"table-{part}-{offset}", part, ((offset, length),))
        for count in (0, 1, 3, 5):
            add(f"table-{part}-count-{count}", part, ((4, 4),), count=count)
        add(f"table-{part}-number", part, ((8, 1),), count=3,
            limits=((8, 0, 4),))
    for size in (0, 7, 520, 65535, 65536, 65600, 131072, 135167, 135168,
                 200704, 262144, 262144 + 15, 262144 + 16, 262144 + 79,
                 262144 + 80):
        add(f"size-{size}", 4 if size > 262144 + 15 else 0,
            ((5, 2),) if size > 262144 + 15 else ((8, 1),), size=size)
    REGISTRY.add("C43", "main", main_program, {}, bounds="the arguments")


_register()
