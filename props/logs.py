"""C15: Apple System Log; C16: BSM audit logs; C17: systemd journals."""

from dtformats import asl
from dtformats import bsm
from dtformats import systemd

from props import bsm_events
from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


# Apple System Log.

ASL_HEADER = (
    ("Signature", 12, "str"), ("Format version", 4, "d"),
    ("First log entry offset", 8, "x8"), ("Creation time", 8, "t"),
    ("Cache size", 4, "d"), ("Last log entry offset", 8, "x8"),
    ("Unknown1", 36, "b"))

ASL_RECORD = (
    ("Unknown1", 2, "x8"), ("Data size", 4, "d"),
    ("Next record offset", 8, "x8"), ("Message identifier", 8, "x8"),
    ("Written time", 8, "t"), ("Written time nanoseconds", 4, "d"),
    ("Alert level", 2, "d"), ("Flags", 2, "x4"),
    ("Process identifier (PID)", 4, "d"), ("User identifier (UID)", 4, "i"),
    ("Group identifier (GID)", 4, "i"),
    ("Read user identifier (UID)", 4, "i"),
    ("Read group identifier (GID)", 4, "i"),
    ("Reference process identifier (PID)", 8, "d"),
    ("Hostname string offset", 8, "x8"), ("Sender string offset", 8, "x8"),
    ("Facility string offset", 8, "x8"), ("Message string offset", 8, "x8"))


def utf8(data):
    try:
        return data.decode("utf-8")
    except UnicodeDecodeError:
        raise lib.Reject("characters")


def asl_string(out, data, offset):
    """A string: none, inline in its 64-bit reference, or elsewhere."""
    if offset == 0:
        return None, None
    if offset >> 63:
        flag = offset >> 60
        out.append(lib.line("Inline string flag", f"0x{flag:01x}"))
        size = (offset >> 56) & 15
        if flag != 8 or size > 7:
            raise lib.Reject("inline string")
        text = utf8(offset.to_bytes(8, "big")[1:1 + size])
        out.append(lib.line("Inline string size", size))
        out.append(lib.line("Inline string", text))
        out.append("\n")
        return text, None
    if offset + 6 > len(data):
        raise lib.Reject("string")
    size = lib.uint(data, offset + 2, 4, big=True)
    end = offset + 6 + size
    if end > len(data):
        raise lib.Reject("string")
    text = utf8(data[offset + 6:end]).rstrip("\x00")
    out.append(lib.line("Unknown1",
                        f"0x{lib.uint(data, offset, 2, big=True):08x}"))
    out.append(lib.line("String size", size))
    out.append(lib.item("String", text))
    lib.close(out)
    return text, end


def asl_log(out, data):
    if data[:12] != b"ASL DB" + bytes(6):
        raise lib.Reject("signature")
    header = lib.layout(out, data, 0, ASL_HEADER, big=True)
    at = header[2]
    done = 80
    while 0 < at < len(data):
        # The strings of a record are stored in front of it.
        if at < done:
            raise lib.Reject("record offset")
        record = lib.layout(out, data, at, ASL_RECORD, big=True)
        done = at + 98
        texts = []
        for offset in record[14:]:
            text, end = asl_string(out, data, offset)
            texts.append(text)
        extra = record[1] + 6 - 98
        if extra < 0 or extra % 8 != 0 or at + 98 + extra > len(data):
            raise lib.Reject("additional data")
        done = at + 98 + extra
        names = []
        values = []
        for field in range(at + 98, at + 98 + extra - 8, 16):
            pair = lib.layout(out, data, field, (
                ("Name string offset", 8, "x8"),
                ("Value string offset", 8, "x8")), big=True)
            name, end = asl_string(out, data, pair[0])
            if end is not None:
                done = end
            value, end = asl_string(out, data, pair[1])
            if end is not None:
                done = end
            if name is None:
                continue
            known = False
            for index, other in enumerate(names):
                if other == name:
                    values[index] = value
                    known = True
            if not known:
                names.append(name)
                values.append(value)
        for label, text in zip(("Hostname", "Sender", "Facility", "Message"),
                               texts):
            out.append(lib.line(label, text))
        for name, value in zip(names, values):
            out.append(lib.line(name, value))
        out.append("\n")
        if record[2] == 0:
            break
        if record[2] <= at:
            raise lib.Reject("next record")
        at = record[2]


def make_asl(debug, writer):
    return asl.AppleSystemLogFile(debug=debug, output_writer=writer)


def asl_text(text):
    return b"\x00\x01" + (len(text) + 1).to_bytes(4, "big") + text + b"\x00"


def inline(text):
    return bytes([0x80 | len(text)]) + text + bytes(7 - len(text))


def asl_record(following, strings, extra=(), number=7):
    """Strings are 8-byte references."""
    size = 98 + 16 * len(extra) + 8 - 6
    return (b"\x00\x00" + size.to_bytes(4, "big") + following.to_bytes(8, "big")
            + number.to_bytes(8, "big") + (1600000000).to_bytes(8, "big")
            + (5).to_bytes(4, "big") + b"\x00\x03\x00\x01"
            + (77).to_bytes(4, "big") + bytes(16) + (9).to_bytes(8, "big")
            + b"".join(strings)
            + b"".join([a + b for a, b in extra]) + bytes(8))


def asl_bytes(first, last, body):
    return (b"ASL DB" + bytes(6) + (2).to_bytes(4, "big")
            + first.to_bytes(8, "big") + (1500000000).to_bytes(8, "big")
            + (256).to_bytes(4, "big") + last.to_bytes(8, "big") + bytes(36)
            + body)


# BSM audit logs.

X2 = ("Token type", 1, "x2")


def sized(label, size_label, kind):
    return (X2, (size_label, 2, "d"), (label, 0, kind))


def event_name(value):
    return f"0x{value:04x} ({bsm_events.EVENTS.get(value, 'UNKNOWN'):s})"


def header(wide, extended):
    time = 8 if wide else 4
    address = ()
    if extended:
        address = (("Net type", 4, "net"), ("IP address", 0, "ip"))
    return (X2, ("Record size", 4, "d"), ("Format version", 1, "d"),
            ("Event type", 2, event_name), ("Modifier", 2, "x4")) + address + (
                ("Timestamp", time, "t"), ("Microseconds", time, "d"))


def subject(wide, extended):
    address = (("IP address", 4, "ip"),)
    if extended:
        address = (("Net type", 4, "net"), ("IP address", 0, "ip"))
    return (X2, ("Audit user identifier", 4, "i"),
            ("Effective user identifier", 4, "i"),
            ("Effective group identifier", 4, "i"),
            ("Real user identifier", 4, "i"),
            ("Real group identifier", 4, "i"),
            ("Process identifier (PID)", 4, "d"),
            ("Session identifier", 4, "d"),
            ("Terminal port", 8 if wide else 4, "d")) + address


def attributes(device):
    return (X2, ("Unknown1", 2, "x4"), ("File mode", 2, "x4"),
            ("User identifier (UID)", 4, "i"),
            ("Group identifier (GID)", 4, "i"),
            ("File system identifier", 4, "x8"),
            ("File identifier", 8, "x8"), ("Device", device, "x8"))


def argument(size):
    return (X2, ("Argument index", 1, "d"), ("Argument name", size, "x8"),
            ("Argument value size", 2, "d"), ("Argument value", 0, "ascii"))


TOKENS = {
    0x11: (X2, ("Timestamp", 4, "t"), ("Microseconds", 4, "d"),
           ("Name size", 2, "d"), ("Name", 0, "ascii")),
    0x13: (X2, ("Signature", 2, "magic"), ("Record size", 4, "d")),
    0x14: header(False, False), 0x15: header(False, True),
    0x21: (X2, ("Data format", 1, "x2"), ("Element data type", 1, "x2"),
           ("Number of elements", 1, "d"), ("Data", 0, "elements")),
    0x22: (X2, ("Object type", 1, "x2"), ("Object identifier", 4, "x8")),
    0x23: sized("Path", "Path size", "ascii"),
    0x24: subject(False, False), 0x26: subject(False, False),
    0x27: (X2, ("Status", 1, "x8"), ("Return value", 4, "x8")),
    0x28: sized("Text", "Text size", "ascii"),
    0x29: sized("Data", "Data size", "bytes"),
    0x2a: (X2, ("IP address", 4, "ip")),
    0x2b: (X2, ("Unknown", 12, "hidden"), ("Source IP address", 4, "ip"),
           ("Destination IP address", 4, "ip")),
    0x2c: (X2, ("Port number", 2, "d")),
    0x2d: argument(4),
    0x2f: (X2, ("Sequence number", 4, "d")),
    0x32: (("Token type", 29, "hidden"),),
    0x34: "groups", 0x3b: "groups", 0x3c: "strings", 0x3d: "strings",
    0x3e: attributes(4),
    0x52: (X2, ("Status", 4, "x8"), ("Return value", 4, "x8")),
    0x60: sized("Name", "Name size", "ascii"),
    0x71: argument(8),
    0x72: (X2, ("Status", 1, "x8"), ("Return value", 8, "x8")),
    0x73: attributes(8),
    0x74: header(True, False),
    0x75: subject(True, False), 0x77: subject(True, False),
    0x79: header(True, True),
    0x7a: subject(False, True), 0x7b: subject(False, True),
    0x7c: subject(True, True), 0x7d: subject(True, True),
    0x7e: (X2, ("Net type", 4, "net"), ("IP address", 16, "ip")),
    0x7f: (X2, ("Socket domain", 2, "x4"), ("Socket type", 2, "x4"),
           ("Net type", 2, "net"), ("Local port", 2, "d"),
           ("Local IP address", 0, "ip"), ("Remote port", 2, "d"),
           ("Remote IP address", 0, "ip")),
    0x80: (X2, ("Socket family", 2, "x4"), ("Local port", 2, "d"),
           ("Local IP address", 4, "ip")),
    0x81: (X2, ("Socket family", 2, "x4"), ("Local port", 2, "d"),
           ("Local IP address", 16, "ip")),
    0x82: (X2, ("Socket family", 2, "x4"), ("Socket path", 0, "path")),
}


def address(data):
    if len(data) == 4:
        return ".".join([f"{x:d}" for x in data])
    return ":".join([f"{data[i] * 256 + data[i + 1]:04x}"
                     for i in range(0, 16, 2)])


def ascii_text(data):
    try:
        return data.decode("ascii")
    except UnicodeDecodeError:
        raise lib.Reject("characters")


def zero_from(data, at):
    while True:
        if at >= len(data):
            raise lib.Reject("string")
        if data[at] == 0:
            return at
        at += 1


def token(out, data, at):
    """One token; (type, values by label, end)."""
    if at >= len(data):
        raise lib.Reject("token")
    kind = data[at]
    if kind not in TOKENS:
        raise lib.Reject("token type")
    spec = TOKENS[kind]
    if spec == "groups":
        return kind, {}, check_end(
            data, at + 5 + 4 * lib.uint(data, at + 1, 4, big=True))
    if spec == "strings":
        count = lib.uint(data, at + 1, 4, big=True)
        at += 5
        while count > 0:
            end = zero_from(data, at)
            ascii_text(data[at:end])
            at = end + 1
            count -= 1
        return kind, {}, at
    texts = []
    values = {}
    last = net = None
    for label, size, show in spec:
        if show == "ascii" or show == "bytes":
            size = last
        elif show == "elements":
            size = last << values["Element data type"]
        elif show == "ip" and size == 0:
            size = net
        elif show == "path":
            size = zero_from(data, at) - at + 1
        check_end(data, at + size)
        if show in ("ascii", "bytes", "elements", "ip", "path", "hidden"):
            value = data[at:at + size]
        elif show == "i":
            value = lib.sint(data, at, size, big=True)
        else:
            value = lib.uint(data, at, size, big=True)
        if show == "net":
            net = value
            text = f"{value:d}"
        elif show == "magic":
            if value != 0xb105:
                raise lib.Reject("trailer")
            text = f"0x{value:04x}"
        elif show == "ip":
            text = value
        elif show == "ascii" or show == "path":
            text = ascii_text(value).rstrip("\x00")
        elif show in ("bytes", "elements"):
            text = None
        elif show == "hidden":
            text = None
        elif net is not None and net != 4 and net != 16:
            text = None
        else:
            text = lib.shown(show, value)
        last = value
        values[label] = value
        at += size
        if show in ("bytes", "elements"):
            texts.append(lib.dump(label, value))
        elif show == "ip":
            texts.append((label, value))
        elif show in ("ascii", "path"):
            texts.append(lib.item(label, text))
        elif text is not None:
            texts.append(lib.line(label, text))
    if net is not None and net != 4 and net != 16:
        raise lib.Reject("net type")
    for text in texts:
        if isinstance(text, tuple):
            text = lib.line(text[0], address(text[1]))
        out.append(text)
    if texts:
        lib.close(out)
    return kind, values, at


def check_end(data, end):
    if end > len(data):
        raise lib.Reject("truncated")
    return end


def audit(out, data):
    at = 0
    while at < len(data):
        kind, values, end = token(out, data, at)
        if kind not in (0x14, 0x15, 0x74, 0x79):
            raise lib.Reject("header")
        if values["Format version"] != 11:
            raise lib.Reject("version")
        size = values["Record size"]
        limit = at + size
        at = end
        while at < limit and kind != 0x13:
            kind, values, at = token(out, data, at)
        if kind != 0x13 or values["Record size"] != size:
            raise lib.Reject("trailer")


def make_audit(debug, writer):
    return bsm.BSMEventAuditingFile(debug=debug, output_writer=writer)


def audit_record(tokens, head=b"\x14", version=11):
    """A record of tokens; head is the start of the header token."""
    fixed = {0x14: 18, 0x15: 18, 0x74: 26, 0x79: 26}[head[0]]
    size = fixed + len(head) - 1 + len(tokens) + 7
    stamp = 4 if head[0] in (0x14, 0x15) else 8
    return (head[:1] + size.to_bytes(4, "big") + bytes([version])
            + b"\x17\x0c\x00\x00" + head[1:]
            + (1500000000).to_bytes(stamp, "big") + (7).to_bytes(stamp, "big")
            + tokens + b"\x13\xb1\x05" + size.to_bytes(4, "big"))


def listed(env, kind, count, size, hole):
    """The values of a token of groups or strings."""
    data = bytes([kind]) + count.to_bytes(4, "big") + env.bytes(
        "data", hole) + b"a\x00bc\x00d\x00\x00efgh"[:size - hole]
    reader = bsm.BSMEventAuditingFile()
    result = lib.outcome(reader._ReadToken, lib.MemFile(b"xy" + data), 2)
    want, _ = lib.reference(lambda out: token(out, data, 0))
    if want[0] == "raise":
        env.check("outcome", result, want)
        env.reach("rejected")
        return
    env.check("accepted", result[0], "ok")
    found = result[1]
    env.check("type", found.token_type, kind)
    if TOKENS[kind] == "groups":
        env.check("number", found.number_of_groups, count)
        env.check("groups", list(found.groups), [
            lib.uint(data, 5 + 4 * i, 4, big=True) for i in range(count)])
    else:
        strings = []
        at = 5
        while len(strings) < count:
            end = zero_from(data, at)
            strings.append(data[at:end].decode("ascii"))
            at = end + 1
        env.check("number", found.number_of_strings, count)
        env.check("strings", [x.rstrip("\x00") for x in found.strings],
                  strings)
    env.reach("accepted")


# Systemd journals.

JOURNAL = (
    ("Signature", 8, "str"), ("Compatible flags", 4, "x8"),
    ("Incompatible flags", 4, "x8"), ("State", 1, "x2"), ("Reserved", 7, "b"),
    ("File identifier", 16, "b"), ("Machine identifier", 16, "b"),
    ("Boot identifier", 16, "b"), ("Sequence number identifier", 16, "b"),
    ("Header size", 8, "d"), ("Arena size", 8, "d"),
    ("Data hash table offset", 8, "x8"), ("Data hash table size", 8, "d"),
    ("Field hash table offset", 8, "x8"), ("Field hash table size", 8, "d"),
    ("Tail object offset", 8, "x8"), ("Number of objects", 8, "d"),
    ("Number of entry objects", 8, "d"),
    ("Tail entry sequence number", 8, "x8"),
    ("Head entry sequence number", 8, "x8"), ("Entry array offset", 8, "x8"),
    ("Head entry real time", 8, "tu"), ("Tail entry real time", 8, "tu"),
    ("Tail entry monotonic", 8, "x8"))

OBJECTS = ("OBJECT_UNUSED", "OBJECT_DATA", "OBJECT_FIELD", "OBJECT_ENTRY",
           "OBJECT_DATA_HASH_TABLE", "OBJECT_FIELD_HASH_TABLE",
           "OBJECT_ENTRY_ARRAY", "OBJECT_TAG")


def object_type(value):
    name = OBJECTS[value] if value < 8 else "UNKNOWN"
    return f"{value:d} ({name:s})"


def object_flags(value):
    if value == 0:
        return "0x00"
    name = "UNKNOWN"
    if value == 1:
        name = "OBJECT_COMPRESSED_XZ"
    elif value == 2:
        name = "OBJECT_COMPRESSED_LZ4"
    return f"0x{value:02x} ({name:s})"


OBJECT = (("Object type", 1, object_type), ("Object flags", 1, object_flags),
          ("Reserved", 6, "b"), ("Data size", 8, "d"))


def journal_object(out, data, at, kind, smallest, flags, unit=1):
    if at + smallest > len(data):
        raise lib.Reject("object")
    size = lib.uint(data, at + 8, 8)
    if size < smallest:
        raise lib.Reject("object size")
    # What remains of the elements is not used.
    if size >= smallest + unit and at + size > len(data):
        raise lib.Reject("object size")
    lib.layout(out, data, at, OBJECT)
    if data[at] != kind or data[at + 1] > flags:
        raise lib.Reject("object")
    return size - smallest


def journal(out, data):
    if data[:8] != b"LPKSHHRH":
        raise lib.Reject("signature")
    head = lib.layout(out, data, 0, JOURNAL)
    version = None
    if head[9] == 224:
        version = 187
    elif head[9] == 240:
        version = 189
    elif head[9] != 208:
        raise lib.Reject("header size")
    entries = []
    at = head[20]
    seen = []
    while at != 0:
        for other in seen:
            if at == other:
                raise lib.Reject("loop")
        seen.append(at)
        size = journal_object(out, data, at, 6, 24, 0, unit=8)
        following = lib.uint(data, at + 16, 8)
        out.append(lib.line("Next entry array offset", f"0x{following:08x}"))
        index = 0
        while index * 8 + 8 <= size:
            offset = lib.uint(data, at + 24 + 8 * index, 8)
            if index == 0:
                out.append("Entry object offsets:\n")
            out.append(lib.line(f"    Entry object offset: {index}",
                                f"0x{offset:08x}"))
            entries.append(offset)
            index += 1
        if index == 0:
            out.append(lib.line("Entry object offsets", ""))
        out.append("\n")
        at = following
    for at in entries:
        if at != 0:
            journal_entry(out, data, at)
    return version


def journal_entry(out, data, at):
    size = journal_object(out, data, at, 3, 64, 0, unit=16)
    lib.layout(out, data, at + 16, (
        ("Sequence number", 8, "d"), ("Real time", 8, "tu"),
        ("Monotonic", 8, "x8"), ("Boot identifier", 16, "b"),
        ("XOR hash", 8, "x8")))
    out.pop()
    items = []
    index = 0
    while index * 16 + 16 <= size:
        offset = lib.uint(data, at + 64 + 16 * index, 8)
        value = lib.uint(data, at + 72 + 16 * index, 8)
        if index == 0:
            out.append("Entry items:\n")
        out.append(lib.line(f"    Entry item: {index} object offset",
                            f"0x{offset:08x}"))
        out.append(lib.line(f"    Entry item: {index} hash", f"0x{value:08x}"))
        items.append(offset)
        index += 1
    if index == 0:
        out.append(lib.line("Entry items", ""))
    out.append("\n")
    for offset in items:
        journal_object(out, data, offset, 1, 64, 2)
        lib.layout(out, data, offset + 16, (
            ("Hash", 8, "x8"), ("Next hash offset", 8, "x8"),
            ("Next field offset", 8, "x8"), ("Entry offset", 8, "x8"),
            ("Entry array offset", 8, "x8"), ("Number of entries", 8, "d")))


def make_journal(debug, writer):
    return systemd.SystemdJournalFile(debug=debug, output_writer=writer)


def observe_journal(reader):
    return reader._format_version


def journal_head(array, size=208):
    numbers = [size, 4096, 1, 2, 3, 4, 5, 6, 7, 8, 9, array, 10**15, 10**15, 3]
    return (b"LPKSHHRH" + bytes(8) + b"\x01" + bytes(7) + bytes(range(64))
            + b"".join([x.to_bytes(8, "little") for x in numbers])
            + bytes(size - 208))


def make_object(kind, body, flags=0):
    return (bytes([kind, flags]) + bytes(6)
            + (16 + len(body)).to_bytes(8, "little") + body)


def numbers(*values):
    return b"".join([x.to_bytes(8, "little") for x in values])


def entry_object(items):
    return make_object(3, numbers(1, 10**15, 2) + bytes(range(16)) + numbers(
        5, *[x for pair in items for x in pair]))


def data_object(text, flags=0):
    return make_object(1, numbers(11, 12, 13, 14, 15, 16) + text, flags)


def _register():
    run = lib.file_runner(make_asl, asl_log)
    family = lib.Family(REGISTRY, "C15", "asl", run)
    first = asl_text(b"host") + asl_text(b"k") + asl_text(b"val")
    start = 80 + len(first)
    host, key, value = [x.to_bytes(8, "big") for x in (80, 91, 99)]
    one = asl_record(0, [host, inline(b"send"), bytes(8), inline(b"")],
                     [(key, value), (inline(b"a"), bytes(8))])
    second = asl_text(b"message")
    after = start + len(one) + len(second)
    one = (one[:6] + after.to_bytes(8, "big") + one[14:])
    two = asl_record(0, [host, inline(b"sendabc"), bytes(8),
                         (start + len(one)).to_bytes(8, "big")], number=8)
    base = asl_bytes(start, after, first + one + second + two)
    family.fields(base, [(0, 4), (4, 8), (12, 4), (28, 12), (40, 4),
                         (44, 36)])
    # A record elsewhere has a time so far away that formatting it is slow.
    family.holes("first-offset", base, [(16, 8)],
                 limits=[(23, start, start + 3)])
    family.holes("first-offset-outside", base, [(16, 8)],
                 limits=[(22, 16, 255)])
    family.holes("creation", base, [(24, 8)],
                 limits=[(24, 0, 0), (25, 0, 0), (26, 0, 0)])
    for name, at in (("one", start), ("two", after)):
        family.holes(f"{name}-unknown", base, [(at, 2)])
        family.holes(f"{name}-size", base, [(at + 2, 4)])
        family.holes(f"{name}-next", base, [(at + 6, 8)],
                     limits=[(at + 13, after % 256, after % 256 + 3)])
        family.holes(f"{name}-next-back", base, [(at + 6, 8)],
                     limits=[(at + 12, 0, 0), (at + 13, 0, start)])
        family.holes(f"{name}-next-outside", base, [(at + 6, 8)],
                     limits=[(at + 12, 16, 255)])
        family.holes(f"{name}-number", base, [(at + 14, 8)])
        family.holes(f"{name}-time", base, [(at + 22, 8)],
                     limits=[(at + 22, 0, 0), (at + 23, 0, 0),
                             (at + 24, 0, 0)])
        family.holes(f"{name}-numbers", base, [(at + 30, 36)])
        for index in range(4):
            offset = at + 66 + 8 * index
            low = base[offset + 7] // 16 * 16
            family.holes(f"{name}-string-{index}", base, [(offset, 8)],
                         limits=[(offset, 0, 0x7f),
                                 (offset + 7, low, low + 31)])
            family.holes(f"{name}-string-any-{index}", base, [(offset, 8)],
                         limits=[(offset, 0, 0x7f)], tier="thorough")
            family.holes(f"{name}-inline-{index}", base, [(offset, 3)],
                         limits=[(offset, 0x80, 0x82)])
            family.holes(f"{name}-inline-flag-{index}", base, [(offset, 1)],
                         limits=[(offset, 0x80, 0xff)])
    for index in range(4):
        offset = start + 98 + 8 * index
        low = base[offset + 7] // 16 * 16
        family.holes(f"extra-{index}", base, [(offset, 8)],
                     limits=[(offset, 0, 0x7f), (offset + 7, low, low + 31)])
        family.holes(f"extra-any-{index}", base, [(offset, 8)],
                     limits=[(offset, 0, 0x7f)], tier="thorough")
        family.holes(f"extra-inline-{index}", base, [(offset, 3)],
                     limits=[(offset, 0x80, 0x82)])
    family.holes("same-name", base, [(91 + 6, 2), (start + 114, 3)],
                 limits=[(start + 114, 0x81, 0x81)])
    family.holes("footer", base, [(start + 130, 8)])
    for name, at in (("host", 80), ("key", 91), ("message",
                                                 start + len(one))):
        family.holes(f"{name}-size", base, [(at + 2, 4)])
        family.holes(f"{name}-text", base, [(at + 6, 2)])
    family.cuts(base, [0, 11, 12, 79, 80, start, start + 1, start + 97,
                       start + 98, start + 114, start + 137, start + 138,
                       after, after + 97, len(base) - 8, len(base) - 1])
    for count in (0, 1, 3):
        alone = asl_bytes(80, 80, asl_record(
            0, [inline(b"h"), bytes(8), bytes(8), bytes(8)],
            [(inline(b"k"), inline(b"v"))] * count))
        family.holes(f"alone-{count}", alone, [(82, 4)],
                     limits=[(82, 0, 0), (83, 0, 0)])
        family.holes(f"alone-names-{count}", alone,
                     [(80 + 98 + 16 * i + 1, 1) for i in range(count)]
                     + [(80 + 98 + 16 * i + 9, 1) for i in range(count)])

    run = lib.file_runner(make_audit, audit)
    family = lib.Family(REGISTRY, "C16", "audit", run)
    exits = b"\x27\x00" + bytes(range(1, 5))
    v4 = b"\x00\x00\x00\x04" + bytes([10, 0, 0, 1])
    v6 = b"\x00\x00\x00\x10" + bytes(range(16))
    for name, head in (("32", b"\x14"), ("32ex4", b"\x15" + v4),
                       ("32ex6", b"\x15" + v6), ("64", b"\x74"),
                       ("64ex4", b"\x79" + v4), ("64ex6", b"\x79" + v6)):
        base = audit_record(exits, head)
        more = len(head) - 1
        wide = head[0] > 0x20
        stamp = 8 if wide else 4
        at = 10 + more
        family.holes(f"{name}-size", base, [(1, 4)])
        family.holes(f"{name}-version", base, [(5, 1)])
        family.holes(f"{name}-modifier", base, [(8, 2)])
        if more:
            family.holes(f"{name}-net", base, [(10, 4)], limits=[
                (13, 0, 255) if not wide else
                (13, 16 if len(v6) == more else 0, 255)])
            family.holes(f"{name}-address", base, [(14, more - 4)])
        family.holes(f"{name}-stamp", base, [(at, stamp)],
                     limits=[(at + i, 0, 0) for i in range(stamp - 4)])
        family.holes(f"{name}-micro", base, [(at + stamp, stamp)])
        family.holes(f"{name}-trailer", base, [(len(base) - 6, 6)])
        family.cuts(base, sorted({0, 1, 5, 9, 10, 13, at, len(base) - 13,
                                  len(base) - 12, len(base) - 7,
                                  len(base) - 6, len(base) - 1}),
                    name=f"{name}-cut")
    base = audit_record(exits)
    family.holes("type", base, [(0, 1)], limits=[(0, 0, 0x73)])
    family.holes("type-high", base, [(0, 1)], limits=[(0, 0x75, 0xff)])
    for high in (0, 1, 0x17, 0x18, 0x19, 0x1b, 0x80, 0xa7, 0xa8, 0xaf):
        family.holes(f"event-{high}", base, [(6, 2)], limits=[
            (6, high, high)], tier="quick" if high in (0x17, 0xaf) else
            "thorough")
    family.holes("two", base + base, [(len(base), 1), (len(base) + 1, 4)],
                 limits=[(len(base), 0x10, 0x1f)])
    family.holes("no-trailer", base[:-7], [(1, 4)])
    # A trailer that is not where the record is said to end.
    for name, after in (("last", b""), ("token", exits), ("record", base)):
        early = base + after
        ends = early + early[-7:] if after == exits else early
        for extra in (b"", base):
            family.holes(
                f"early-trailer-{name}-{len(extra)}", ends + extra,
                [(4, 1), (len(base) - 1, 1), (len(ends) - 1, 1)][
                    :3 if after else 2])
    filler = bytes(range(1, 64))
    for kind, spec in sorted(TOKENS.items()):
        if kind in (0x14, 0x15, 0x74, 0x79):
            continue
        if spec == "groups":
            tokens = [bytes([kind]) + bytes([0, 0, 0, count])
                      + bytes(range(4 * count)) for count in (0, 1, 3)]
        elif spec == "strings":
            tokens = [bytes([kind]) + bytes([0, 0, 0, count])
                      + b"ab\x00c\x00\x00"[:(0, 3, 5)[count]]
                      for count in (0, 1, 2)]
        elif kind == 0x13:
            continue
        else:
            tokens = token_samples(kind, spec, filler)
        for index, sample in enumerate(tokens):
            base = audit_record(sample)
            at = 18
            family.cuts(base, sorted({at + 1, at + len(sample) - 1}),
                        name=f"token-{kind:02x}-{index}-cut")
            for number, (offset, size) in enumerate(
                    token_parts(kind, spec, sample)):
                limits = ()
                name = f"token-{kind:02x}-{index}-{number}"
                options = {}
                if isinstance(size, tuple):
                    size, low, high = size
                    limits = [(at + offset, low, high)]
                family.holes(name, base, [(at + offset, size)],
                             limits=limits, **options)
    for kind, count, size, hole in (
            (0x34, 0, 0, 0), (0x34, 1, 4, 4), (0x34, 2, 8, 8),
            (0x3b, 2, 8, 8), (0x3b, 2, 7, 7), (0x3c, 0, 0, 0),
            (0x3c, 1, 3, 3), (0x3c, 2, 4, 3), (0x3c, 2, 9, 2),
            (0x3d, 3, 12, 2), (0x3d, 4, 12, 1), (0x3d, 6, 12, 1)):
        REGISTRY.add("C16", f"listed-{kind:02x}-{count}-{size}", listed, {
            "kind": kind, "count": count, "size": size, "hole": hole},
            bounds=f"token {kind:#x} of {count} values, {hole} of {size} "
                   "bytes symbolic")
    # Times are small: formatting those far away is slow.
    filler = bytes(filler[i] if i not in (10, 11, 12, 18, 19, 20, 30, 31, 32)
                   else 0 for i in range(40))
    family.holes("token-type", audit_record(filler), [(18, 1)])
    family.holes("token-type-long", audit_record(bytes(40)), [(18, 1)])

    run = lib.file_runner(make_journal, journal, observe=observe_journal)
    family = lib.Family(REGISTRY, "C17", "journal", run)
    for size in (208, 224, 240):
        first = data_object(b"A=b")
        last = data_object(b"", flags=2)
        at_first = size
        at_last = at_first + len(first)
        at_entry = at_last + len(last)
        entry = entry_object([(at_first, 21), (at_last, 22)])
        single = entry_object([(at_last, 23)])
        at_single = at_entry + len(entry)
        at_array = at_single + len(single)
        at_more = at_array + 24 + 16
        array = make_object(6, numbers(at_more, at_entry, 0))
        more = make_object(6, numbers(0, at_single))
        base = (journal_head(at_array, size) + first + last + entry + single
                + array + more)
        if size == 208:
            family.fields(base, [(0, 8), (8, 8), (16, 8), (24, 64), (88, 8),
                                 (96, 48), (144, 32), (200, 8)])
            for at in (184, 192):
                family.holes(f"time-{at}", base, [(at, 8)],
                             limits=[(at + 7, 0, 0)])
            for name, at in (("first", at_first), ("entry", at_entry),
                             ("array", at_array), ("more", at_more),
                             ("last", at_last)):
                family.holes(f"{name}-type", base, [(at, 1)])
                family.holes(f"{name}-flags", base, [(at + 1, 1)])
                family.holes(f"{name}-reserved", base, [(at + 2, 6)])
                family.holes(f"{name}-size", base, [(at + 8, 8)])
            family.holes("first-values", base, [(at_first + 16, 48)])
            family.holes("entry-values", base,
                         [(at_entry + 16, 8), (at_entry + 32, 32)])
            family.holes("entry-time", base, [(at_entry + 24, 8)],
                         limits=[(at_entry + 31, 0, 0)])
            family.holes("item-hash", base, [(at_entry + 72, 8),
                                             (at_entry + 88, 8)])
            for name, at, target in (
                    ("entry-array-offset", 176, at_array),
                    ("item-offset", at_entry + 64, at_first),
                    ("item-offset-1", at_entry + 80, at_last),
                    ("array-next", at_array + 16, at_more),
                    ("array-offset", at_array + 24, at_entry),
                    ("array-offset-1", at_array + 32, 0),
                    ("more-next", at_more + 16, 0),
                    ("more-offset", at_more + 24, at_single)):
                low = max(target % 256 - 16, 0)
                family.holes(name, base, [(at, 8)],
                             limits=[(at, low, min(low + 32, 255))])
                family.holes(f"{name}-any", base, [(at, 8)], tier="thorough")
            family.cuts(base, [0, 8, 207, 208, at_last, at_more - 1, at_more,
                               at_more + 31])
        else:
            family.fields(base, [(88, 8)], name=f"head-{size}")
    empty = make_object(6, numbers(0))
    family.holes("no-offsets", journal_head(208) + empty, [(208 + 8, 8)])
    bare = entry_object([])
    family.holes("no-items",
                 journal_head(208) + make_object(6, numbers(0, 240)) + bare,
                 [(248, 8)])
    family.holes("no-array", journal_head(0), [(8, 8)])
    # Chains of arrays, which end, go on or come back to an earlier one.
    for count in (2, 3, 4):
        places = [208 + 32 * index for index in range(count)]
        chain = b"".join([
            make_object(6, numbers(following, 0))
            for following in places[1:] + [0]])
        for index, at in enumerate(places):
            for high in (0, 1):
                base = bytearray(journal_head(208) + chain)
                base[at + 17] = high
                family.holes(f"chain-{count}-{index}-{high}", bytes(base),
                             [(at + 16, 1)])


def token_samples(kind, spec, filler):
    """Well-formed tokens of a type."""
    result = []
    variants = [0]
    shows = [show for _, _, show in spec]
    if "net" in shows:
        variants = [4, 16]
    elif "elements" in shows:
        variants = [0, 1, 2, 3]
    elif "ascii" in shows or "bytes" in shows:
        variants = [0, 3]
    for variant in variants:
        parts = []
        for index, (_, size, show) in enumerate(spec):
            following = shows[index + 1] if index + 1 < len(shows) else ""
            if index == 0:
                parts.append(bytes([kind]) + filler[:size - 1])
            elif show == "net":
                parts.append(variant.to_bytes(size, "big"))
            elif show == "ip":
                parts.append(filler[:size or variant])
            elif show in ("ascii", "bytes"):
                parts.append(filler[33:33 + variant])
            elif show == "path":
                parts.append(b"/s\x00")
            elif show == "elements":
                parts.append(filler[:2 << variant])
            elif following == "elements":
                parts.append(b"\x02")
            elif shows[index + 2:index + 3] == ["elements"]:
                parts.append(bytes([variant]))
            elif following in ("ascii", "bytes"):
                parts.append(variant.to_bytes(size, "big"))
            else:
                parts.append(filler[:size])
        result.append(b"".join(parts))
    return result


def token_parts(kind, spec, sample):
    """The parts of a token to be symbolic in turn."""
    if spec == "groups":
        return [(1, 4), (5, len(sample) - 5)] if len(sample) > 5 else [(1, 4)]
    if spec == "strings":
        parts = [(1, (3, 0, 255)), (4, (1, 0, 5))]
        if len(sample) > 5:
            parts.append((5, min(len(sample) - 5, 3)))
        return parts
    parts = []
    at = 0
    count = 0
    for index, (_, size, show) in enumerate(spec):
        if size == 0:
            size = len(sample) - at
            if show == "ip":
                size = 4 if sample[at - 3:at - 2] == b"\x04" else size
            if show == "ip" and len(spec) == 8:
                size = (len(sample) - 11) // 2
        width = size
        if index == 0:
            width = 0
            if size > 1:
                parts.append((1, size - 1))
        if width and spec[index + 2:index + 3] and (
                spec[index + 2][2] == "elements"):
            parts.append((at, (1, 0, 9)))
        elif width:
            parts.append((at, width))
        at += size
        count += 1
    return parts


_register()

REGISTRY.add_reuse()
