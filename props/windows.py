"""C21..C23: task scheduler jobs, USN change journals, restore point logs."""

from dtformats import job
from dtformats import rp_change_log
from dtformats import rp_log
from dtformats import usn_journal

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


def utf16(data):
    try:
        return data.decode("utf-16-le")
    except UnicodeDecodeError:
        raise lib.Reject("UTF-16")


def before_nul(data):
    """The UTF-16 text of a field before its end-of-string character."""
    end = 0
    while end < len(data) and data[end:end + 2] != bytes(2):
        end += 2
    return utf16(data[:end])


def take(data, offset, size):
    if offset + size > len(data):
        raise lib.Reject("data")
    return data[offset:offset + size]


# Task scheduler jobs.


def version(value):
    return f"0x{value:04x} ({value >> 8:d}.{value & 255:d})"


def minutes(value):
    return f"{value:d} minutes"


def milliseconds(value):
    return f"{value:d} milliseconds"


def uuid_text(data):
    order = (3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1,
             10, 11, 12, 13, 14, 15)
    return "".join(["-" if x < 0 else f"{data[x]:02x}" for x in order])


JOB_START = (
    ("Product version", 2, version), ("Format version", 2, "d"))

JOB_REST = (
    ("Application name offset", 2, "x4"), ("Triggers offset", 2, "x4"),
    ("Error retry count", 2, "d"), ("Error retry interval", 2, minutes),
    ("Idle deadline", 2, minutes), ("Idle wait", 2, minutes),
    ("Priority", 4, "x8"), ("Maximum run time", 4, milliseconds),
    ("Exit code", 4, "x8"), ("Status", 4, "x8"), ("Flags", 4, "x8"))


def job_string(out, label, data, offset):
    size = 2 * lib.uint(take(data, offset, 2), 0, 2)
    text = before_nul(take(data, offset + 2, size))
    out.append(lib.item(label, f"({size:d} bytes) {text}"))
    return text, offset + 2 + size


def job_stream(out, label, data, offset):
    size = lib.uint(take(data, offset, 2), 0, 2)
    value = take(data, offset + 2, size)
    out.append(lib.dump(label, value))
    return offset + 2 + size


def job_date(data, offset):
    year = lib.uint(data, offset, 2)
    month = lib.uint(data, offset + 2, 2)
    day = lib.uint(data, offset + 4, 2)
    return f"{year:04d}-{month:02d}-{day:02d}"


def job_file(out, data):
    if len(data) < 68:
        raise lib.Reject("fixed-length section")
    lib.layout(out, data, 0, JOB_START)
    out.pop()
    identifier = uuid_text(data[4:20])
    out.append(lib.line("Job identifier", identifier))
    values = lib.layout(out, data, 20, JOB_REST)
    out.pop()
    units = [lib.uint(data, 52 + 2 * x, 2) for x in range(8)]
    out.append(lib.line("Last run time", (
        f"{units[0]:04d}-{units[1]:02d}-{units[3]:02d} {units[4]:02d}:"
        f"{units[5]:02d}:{units[6]:02d}.{units[7]:03d}")))
    lib.close(out)

    inner = []
    instances = lib.uint(take(data, 68, 2), 0, 2)
    inner.append(lib.line("Running instance count", instances))
    offset = 70
    texts = []
    for label in ("Application name", "Parameters", "Working directory",
                  "Author", "Comment"):
        text, offset = job_string(inner, label, data, offset)
        texts.append(text)
    for label in ("User data", "Reserved data"):
        offset = job_stream(inner, label, data, offset)
    count = lib.uint(take(data, offset, 2), 0, 2)
    offset += 2
    take(data, offset, 48 * count)
    out.extend(inner)
    lib.close(out)
    for index in range(count):
        at = offset + 48 * index
        lib.layout(out, data, at, (
            ("Size", 2, "d"), ("Reserved1", 2, "x4")))
        out.pop()
        out.append(lib.line("Start date", job_date(data, at + 4)))
        out.append(lib.line("End date", job_date(data, at + 10)))
        hours = lib.uint(data, at + 16, 2)
        minute = lib.uint(data, at + 18, 2)
        out.append(lib.line("Start time", f"{hours:02d}:{minute:02d}"))
        lib.layout(out, data, at + 20, (
            ("Duration", 4, minutes), ("Interval", 4, minutes),
            ("Trigger flags", 4, "x8"), ("Trigger type", 4, "x8"),
            ("Trigger arg0", 2, "x4"), ("Trigger arg1", 2, "x4"),
            ("Trigger arg2", 2, "x4"), ("Trigger padding", 2, "x4"),
            ("Trigger reserved2", 2, "x4"), ("Trigger reserved3", 2, "x4")))
    return (values[2], values[3], identifier, values[6], texts[0], texts[1],
            texts[2], texts[3], texts[4])


def observe_job(reader):
    task = reader.GetWindowsTaskConfiguration()
    return (task.error_retry_count, task.error_retry_interval,
            task.identifier, task.priority, task.application_name,
            task.parameters, task.working_directory, task.author,
            task.comment)


def make_job(debug, writer):
    return job.WindowsTaskSchedulerJobFile(debug=debug, output_writer=writer)


run_job = lib.file_runner(make_job, job_file, observe_job)


# USN change journals.

USN = (
    ("Size", 4, "d"), ("Major format version", 2, "d"),
    ("Minor format version", 2, "d"), ("File reference", 8, "x8"),
    ("Parent file reference", 8, "x8"), ("-", 8, "-"),
    ("Timestamp", 8, "ft"), ("Update reason flags", 4, "x8"),
    ("Update source flags", 4, "x8"), ("Security descriptor entry", 4, "d"),
    ("File attribute flags", 4, "x8"), ("Name size", 2, "d"),
    ("Name offset", 2, "d"))


def usn_file(out, data):
    """Blocks of 4096 bytes with records, of which the rest can be empty."""
    found = []
    end = 0
    while end < len(data):
        offset = end
        end = min(offset + 4096, len(data))
        while end - offset > 60:
            if data[offset:offset + 60] == bytes(60):
                break
            size = lib.uint(data, offset, 4)
            if (lib.uint(data, offset + 4, 2) != 2
                    or lib.uint(data, offset + 6, 2) != 0):
                raise lib.Reject("version")
            name_size = lib.uint(data, offset + 56, 2)
            if size < 60 + name_size or offset + size > len(data):
                raise lib.Reject("size")
            name = utf16(data[offset + 60:offset + 60 + name_size])
            values = lib.layout(out, data, offset, USN)
            out.pop()
            out.append(lib.item("Name", name.rstrip("\x00")))
            lib.close(out)
            found.append((values[3], values[4], values[5], values[6],
                          values[7], values[8], name))
            offset += size
        if offset > end:
            end = offset
    return found


def read_usn(env, data, debug):
    from props.lib import Writer, use_files, use_hexdump, outcome
    writer = Writer()
    found = []

    def consume():
        reader = usn_journal.USNRecords(debug=debug, output_writer=writer)
        reader.Open("/f")
        for record in reader.ReadRecords():
            found.append((
                record.file_reference, record.parent_file_reference,
                record.sequence_number, record.timestamp,
                record.update_reason_flags, record.update_source_flags,
                record.name))
        return found

    with use_files({"/f": data}):
        with use_hexdump(env):
            result = outcome(consume)
    return result, writer.text()


def run_usn(env, base, holes, size=None, limits=()):
    data = lib.fill(env, base, holes, size, limits)
    want, expected = lib.reference(usn_file, data)
    result, text = read_usn(env, data, True)
    env.check("records", result, want)
    env.check("values", text, expected)
    result, text = read_usn(env, data, False)
    env.check("quiet records", result, want)
    env.check("quiet text", text, "")
    env.reach(want[0])


# Restore point logs.


def rp_log_file(out, data):
    if len(data) < 16:
        raise lib.Reject("header")
    end = 16
    while True:
        if end + 2 > len(data):
            raise lib.Reject("description")
        end += 2
        if lib.uint(data, end - 2, 2) == 0:
            break
    text = utf16(data[16:end - 2])
    event = lib.uint(data, 0, 4)
    names = {100: "BEGIN_SYSTEM_CHANGE", 101: "END_SYSTEM_CHANGE",
             102: "BEGIN_NESTED_SYSTEM_CHANGE",
             103: "END_NESTED_SYSTEM_CHANGE"}
    out.append(lib.line(
        "Event type", f"0x{event:08x} ({names.get(event, 'UNKNOWN')})"))
    kind = lib.uint(data, 4, 4)
    names = {0: "APPLICATION_INSTALL", 1: "APPLICATION_UNINSTALL",
             10: "DEVICE_DRIVER_INSTALL", 12: "MODIFY_SETTINGS",
             13: "CANCELLED_OPERATION"}
    out.append(lib.line(
        "Restore point type", f"0x{kind:08x} ({names.get(kind, 'UNKNOWN')})"))
    out.append(lib.line("Sequence number", f"0x{lib.uint(data, 8, 8):08x}"))
    out.append(lib.line("Description", text))
    out.append("\n")
    if end + 8 > len(data):
        raise lib.Reject("footer")
    out.append(lib.dump("Unknown1", data[end:-8]))
    out.append(lib.line("Creation time", lib.filetime(
        lib.uint(data, len(data) - 8, 8))))
    out.append("\n")


def make_rp_log(debug, writer):
    return rp_log.RestorePointLogFile(debug=debug, output_writer=writer)


run_rp_log = lib.file_runner(make_rp_log, rp_log_file)

RECORD_TYPES = ("RecordTypeLogHeader", "RecordTypeLogEntry",
                "RecordTypeVolumePath", "RecordTypeFirstPath",
                "RecordTypeSecondPath", "RecordTypeTempPath",
                "RecordTypeAclInline", "RecordTypeAclFile",
                "RecordTypeDebugInfo", "RecordTypeShortName")

ENTRY_TYPES = (
    (1, "STREAMCHANGE"), (2, "ACLCHANGE"), (4, "ATTRCHANGE"),
    (8, "STREAMOVERWRITE"), (0x10, "FILEDELETE"), (0x20, "FILECREATE"),
    (0x40, "FILERENAME"), (0x80, "DIRCREATE"), (0x100, "DIRRENAME"),
    (0x200, "DIRDELETE"), (0x400, "MOUNTCREATE"), (0x800, "MOUNTDELETE"),
    (0x1000, "VOLUMEERROR"), (0x2000, "STREAMCREATE"),
    (0x10000, "NOOPTIMIZE"), (0x20000, "ISDIR"), (0x40000, "ISNOTDIR"),
    (0x80000, "SIMULATEDELETE"), (0x100000, "INPRECREATE"),
    (0x200000, "OPENBYID"))

ENTRY_FLAGS = ((1, "TEMPPATH"), (2, "SECONDPATH"), (4, "ACLINFO"),
               (8, "DEBUGINFO"), (16, "SHORTNAME"))

STRINGS = {4: "Secondary path", 5: "Backup filename", 9: "Short filename"}


class Unspecified(Exception):
    """The format does not say what a reader does here."""


def record_head(out, data, offset):
    size = lib.uint(data, offset, 4)
    kind = lib.uint(data, offset + 4, 4)
    name = "UNKNOWN"
    for number, text in enumerate(RECORD_TYPES):
        if kind == number:
            name = text
    out.append(lib.line("Record size", size))
    out.append(lib.line("Record type", f"{kind:d} ({name})"))
    return size, kind


def terminated(data):
    """A string with an end-of-string character."""
    end = 0
    while end + 2 <= len(data):
        if data[end:end + 2] == bytes(2):
            return utf16(data[:end]), end + 2
        end += 2
    raise lib.Reject("string")


def change_log(out, data, debug=True):
    if len(data) < 16:
        raise lib.Reject("header")
    size, kind = record_head(out, data, 0)
    signature = lib.uint(data, 8, 4)
    number = lib.uint(data, 12, 4)
    out.append(lib.line("Signature", f"0x{signature:08x}"))
    out.append(lib.line("Format version", number))
    if signature != 0xabcdef12 or kind != 0 or number != 2:
        raise lib.Reject("header")
    if size < 16 or size > len(data):
        raise lib.Reject("size")
    body = data[16:size]
    path = body[:-4]
    if len(path) < 8:
        raise lib.Reject("volume path")
    path_size = lib.uint(path, 0, 4)
    if path_size < 8 or path_size > len(path):
        raise lib.Reject("volume path")
    volume = utf16(path[8:path_size])[:-1]
    _, kind = record_head(out, path, 0)
    out.append(lib.line("Volume path", volume))
    out.append("\n")
    if kind != 2:
        raise lib.Reject("volume path")
    copy = lib.uint(body, len(body) - 4, 4)
    out.append(lib.line("Copy of record size", copy))
    out.append("\n")
    if copy != size:
        raise lib.Reject("copy")
    entries = []
    offset = size
    while offset < len(data):
        entry, offset = change_log_entry(out, data, offset)
        entries.append(entry)
    return volume, entries


def change_log_entry(out, data, offset):
    if offset + 72 > len(data):
        raise lib.Reject("entry")
    size, kind = record_head(out, data, offset)
    values = [lib.uint(data, offset + 8 + 4 * x, 4) for x in range(4)]
    out.append(lib.line("Signature", f"0x{values[0]:08x}"))
    out.append(lib.line("Entry type", f"0x{values[1]:08x}"))
    for flag, name in ENTRY_TYPES:
        if values[1] & flag:
            out.append(f"\tCHANGE_LOG_ENTRYTYPES_{name}\n")
    out.append("\n")
    out.append(lib.line("Entry flags", f"0x{values[2]:08x}"))
    for flag, name in ENTRY_FLAGS:
        if values[2] & flag:
            out.append(f"\tCHANGE_LOG_ENTRYFLAGS_{name}\n")
    out.append("\n")
    out.append(lib.line("File attribute flags", f"0x{values[3]:08x}"))
    sequence = lib.uint(data, offset + 24, 8)
    out.append(lib.line("Sequence number", sequence))
    out.append(lib.line("Process name size", lib.uint(data, offset + 64, 4)))
    out.append(lib.line("Unknown2", f"0x{lib.uint(data, offset + 68, 4):08x}"))
    if kind != 1 or values[0] != 0xabcdef12:
        raise lib.Reject("entry")
    if size < 72 or offset + size > len(data):
        raise lib.Reject("size")
    body = data[offset + 72:offset + size]
    name, at = terminated(body)
    out.append(lib.line("Process name", name))
    out.append("\n")
    end = len(body) - 4
    if at > end:
        raise Unspecified()
    out.append(lib.line("Sub record data offset", at))
    out.append(lib.line("Sub record data size", end - at))
    if at < end:
        out.append("\n")
    while at < end:
        if at + 8 > end:
            raise Unspecified()
        sub = []
        sub_size, sub_kind = record_head(sub, body, at)
        if sub_size < 8 or at + sub_size > end:
            raise Unspecified()
        out.extend(sub)
        for number, label in STRINGS.items():
            if sub_kind == number:
                text, _ = terminated(body[at + 8:at + sub_size])
                out.append(lib.line(label, text))
        out.append("\n")
        at += sub_size
    copy = lib.uint(body, end, 4)
    if copy != size:
        raise lib.Reject("copy")
    out.append(lib.line("Copy of record size", copy))
    out.append("\n")
    return (values[1], values[2], values[3], sequence, name), offset + size


def make_change_log(debug, writer):
    return rp_change_log.RestorePointChangeLogFile(
        debug=debug, output_writer=writer)


def observe_change_log(reader):
    return reader.volume_path, [
        (x.entry_type, x.entry_flags, x.file_attribute_flags,
         x.sequence_number, x.process_name) for x in reader.entries]


def run_change_log(env, base, holes, size=None, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    try:
        lib.decide(env, make_change_log, change_log, data,
                   observe=observe_change_log, before=before)
    except Unspecified:
        for debug in (True, False):
            result, _, _ = lib.read_file(env, make_change_log, data,
                                         debug=debug)
            handled = result[0] == "ok" or result == ("raise", "ParseError")
            env.check("handled", handled, True)
        env.reach("unspecified")


run_change_log.reusable = True


# Cases.


def le(value, size):
    return value.to_bytes(size, "little")


def text16(text):
    return text.encode("utf-16-le")


def job_base(strings=("a", "b", "", "c", "d"), user=b"\x01", reserved=b"",
             triggers=1):
    data = (le(0x0601, 2) + le(1, 2) + bytes(range(16)) + le(70, 2)
            + le(100, 2) + le(3, 2) + le(5, 2) + le(60, 2) + le(10, 2)
            + le(0x20000000, 4) + le(1000, 4) + le(1, 4) + le(2, 4)
            + le(3, 4) + bytes(16) + le(0, 2))
    for value in strings:
        raw = text16(value + "\x00") if value else b""
        data += le(len(raw) // 2, 2) + raw
    data += le(len(user), 2) + user + le(len(reserved), 2) + reserved
    data += le(triggers, 2)
    for index in range(triggers):
        data += le(48, 2) + bytes(18) + le(index, 4) + bytes(24)
    return data


def usn_record(name="a", size=None, pad=None):
    raw = text16(name)
    if pad is None:
        pad = -(60 + len(raw)) % 8
    if size is None:
        size = 60 + len(raw) + pad
    return (le(size, 4) + le(2, 2) + le(0, 2) + le(0x100000005, 8)
            + le(0x2000000007, 8) + le(64, 8) + le(0x01d700000000, 8)
            + le(0x100, 4) + le(0, 4) + le(1, 4) + le(32, 4)
            + le(len(raw), 2) + le(60, 2) + raw + bytes(pad))


def sub_record(kind, raw):
    return le(8 + len(raw), 4) + le(kind, 4) + raw


def entry_base(name="\\p", subs=(), signature=0xabcdef12):
    body = text16(name + "\x00") + b"".join(subs)
    size = 72 + len(body) + 4
    return (le(size, 4) + le(1, 4) + le(signature, 4) + le(0x20, 4)
            + le(1, 4) + le(32, 4) + le(7, 8) + bytes(32)
            + le(2 * len(name) + 2, 4) + le(3, 4) + body + le(size, 4))


def change_base(volume="\\v", entries=()):
    path = sub_record(2, text16(volume + "\x00"))
    size = 16 + len(path) + 4
    return (le(size, 4) + le(0, 4) + le(0xabcdef12, 4) + le(2, 4) + path
            + le(size, 4) + b"".join(entries))


def _register():
    family = lib.Family(REGISTRY, "C21", "job", run_job)
    base = job_base()
    family.fields(base, [(0, 4), (4, 16), (20, 8), (28, 4), (32, 8),
                         (40, 8), (48, 4), (52, 8), (60, 8), (68, 2)],
                  name="fixed")
    offset = 70
    for index, length in enumerate((2, 2, 0, 2, 2)):
        family.holes(f"string-{index}-size", base, [(offset, 2)],
                     limits=[(offset + 1, 0, 0)])
        if length:
            family.holes(f"string-{index}-text", base, [(offset + 2, 4)])
        offset += 2 + 2 * length
    family.holes("user-size", base, [(offset, 2)],
                 limits=[(offset + 1, 0, 0)])
    family.holes("user", base, [(offset + 2, 1)])
    family.holes("reserved-size", base, [(offset + 3, 2)],
                 limits=[(offset + 4, 0, 0)])
    family.holes("count", base, [(offset + 5, 2)],
                 limits=[(offset + 6, 0, 0)])
    family.holes("count-any", base, [(offset + 5, 2)], tier="thorough")
    family.holes("strings-any", base, [(70, 8)], tier="thorough",
                 limits=[(71, 0, 0)])
    at = offset + 7
    two = job_base(triggers=2)
    for start, length in ((0, 4), (4, 6), (10, 6), (16, 4), (20, 8),
                          (28, 8), (36, 12)):
        family.holes(f"trigger-{start}", base, [(at + start, length)])
        family.holes(f"trigger-second-{start}", two,
                     [(at + 48 + start, length)])
    long = job_base(("ab", "\u20ac", "\U0001f600", "x\ny", ""),
                    user=b"0123456789abcdefg", reserved=bytes(8), triggers=0)
    family.holes("long", long, [(0, 2)])
    for place in range(5):
        at = 70
        for index, length in enumerate((3, 2, 3, 4)):
            if index == place:
                family.holes(f"long-{index}", long, [(at + 2, 4)])
            at += 2 + 2 * length
    family.holes("none", job_base(("",) * 5, b"", b"", 0), [(68, 2)])
    family.cuts(base, range(0, 70, 7))
    family.cuts(base, range(67, len(base)))

    family = lib.Family(REGISTRY, "C22", "usn", run_usn)
    one = usn_record("ab")
    size = len(one)
    family.holes("version", one, [(4, 4)])
    family.holes("references", one, [(8, 16)])
    family.holes("number-flags", one, [(24, 8), (40, 8)])
    family.holes("time", one, [(32, 8)])
    family.holes("attributes", one, [(48, 8), (58, 2)])
    family.holes("name", one, [(60, 4)])
    family.holes("size", one, [(0, 4)], limits=[(1, 0, 0), (2, 0, 0)])
    family.holes("name-size", one, [(56, 2)], limits=[(57, 0, 0)])
    family.holes("padding", one, [(64, size - 64)])
    family.cuts(one, range(0, size + 1, 3), holes=[(0, 1)])
    for cut in (58, 59, 60, 61, 62, 64, 71, 72):
        family.holes(f"cut-exact-{cut}", one, [], size=cut,
                     bounds=f"cut to {cut} bytes")
    pair = usn_record("") + usn_record("long name")
    family.holes("second", pair, [(64, 4), (64 + 60, 2)],
                 limits=[(65, 0, 0), (66, 0, 0), (67, 0, 0)])
    family.holes("second-empty", one + bytes(64), [(size, 1)])
    family.holes("second-empty-last", one + bytes(64), [(size + 59, 1)])
    family.holes("second-empty-behind", one + bytes(64), [(size + 60, 1)])
    full = usn_record("b", size=4096, pad=4096 - 62)
    rest = one + bytes(4096 - size)
    most = usn_record("b", size=4096 - 60, pad=4096 - 60 - 62)
    for name, blocks in (
            ("empty-first", bytes(4096) + one), ("padded", rest + one),
            ("three", rest + bytes(4096) + one),
            ("full", full + one), ("almost", most + b"\xff" * 60 + one),
            ("almost-62", usn_record("b", size=4034, pad=4034 - 62)
             + usn_record("", size=62, pad=2) + one),
            ("padded-second", one + rest[:4096 - size] + one)):
        family.holes(f"block-{name}", blocks,
                     [(len(blocks) - size + 32, 3)],
                     bounds="records in several blocks of 4096 bytes")
        family.holes(f"block-{name}-cut", blocks, [], size=len(blocks) - 5,
                     bounds="last record cut")
        family.holes(f"block-{name}-behind", blocks + bytes(30), [
            (len(blocks), 1)], bounds="a few bytes behind the last record")
    for gap in (60, 61, 64, 120, 128, 192):
        family.holes(f"stale-{gap}", one + bytes(gap) + one + one,
                     [(size + gap + 32, 2)],
                     bounds="records behind an empty one, which is the end of "
                     "the block")
        if gap % 8 == 0:
            family.holes(
                f"stale-{gap}-next", one + bytes(gap)
                + usn_record("c", size=4096 - size - gap,
                             pad=4096 - size - gap - 62) + one,
                [(4096 + 32, 2)],
                bounds="a stale record in the first block, a record in the "
                "second")
    family.holes("block-crossing", usn_record("b", size=4104, pad=4104 - 62)
                 + one, [(4104 + 32, 3)],
                 bounds="a record that crosses a block boundary")
    family.holes("nothing", b"", [], bounds="empty file")

    family = lib.Family(REGISTRY, "C23", "rplog", run_rp_log)
    base = (le(102, 4) + le(1, 4) + le(9, 8) + text16("abc\x00")
            + b"\x01\x02\x03" + le(0x01d700000000, 8))
    family.fields(base, [(0, 4), (4, 4), (8, 8), (len(base) - 8, 5)])
    for at in range(16, 24, 2):
        family.holes(f"text-{at}", base, [(at, 4)])
    family.holes("unknown", base, [(24, 3)])
    family.cuts(base, range(0, len(base)))
    for tail in range(0, 10):
        family.holes(f"tail-{tail}", base[:24] + bytes(tail), [],
                     bounds=f"{tail} bytes behind the description")

    family = lib.Family(REGISTRY, "C23", "change", run_change_log)
    subs = [sub_record(4, text16("s\x00")), sub_record(6, b"\xff\xfe"),
            sub_record(5, text16("ab\x00")), sub_record(9, text16("\x00"))]
    head = change_base()
    base = change_base(entries=[entry_base(subs=subs)])
    start = len(head)
    family.fields(head, [(0, 4), (4, 4), (8, 4), (12, 4), (20, 4)],
                  name="head")
    family.holes("path-size", head, [(16, 4)],
                 limits=[(17, 0, 0), (18, 0, 0)])
    family.holes("path", head, [(24, 4)])
    family.holes("path-end", head, [(28, 2)])
    family.holes("head-copy", head, [(30, 4)])
    family.cuts(head, range(0, len(head)))
    family.holes("entry-size", base, [(start, 4)],
                 limits=[(start + 1, 0, 0), (start + 2, 0, 0)])
    family.fields(base, [(start + 4, 4), (start + 8, 4), (start + 16, 4),
                         (start + 20, 12), (start + 64, 8)], name="entry")
    for index in range(3):
        family.holes(f"entry-type-{index}", base, [(start + 12 + index, 1)])
    family.holes("entry-type-high", base, [(start + 15, 1)])
    family.holes("name-0", base, [(start + 72, 4)])
    family.holes("name-1", base, [(start + 74, 4)])
    at = start + 78
    for index, sub in enumerate(subs):
        family.holes(f"sub-{index}-type", base, [(at + 4, 4)])
        family.holes(f"sub-{index}-size", base, [(at, 4)],
                     limits=[(at + 1, 0, 0), (at + 2, 0, 0)])
        family.holes(f"sub-{index}-value", base, [(at + 8, len(sub) - 8)])
        at += len(sub)
    family.holes("copy", base, [(len(base) - 4, 4)])
    family.cuts(base, range(start + 1, len(base), 3))
    family.cuts(base, (start + 70, start + 71, start + 72, start + 73,
                       len(base) - 1))
    plain = change_base(entries=[entry_base("\\x"), entry_base("p\u20ac")])
    family.holes("two", plain, [(start + 24, 8)])
    family.holes("two-second", plain, [(len(plain) - 4 - 8, 4)])
    family.holes("two-signature", plain,
                 [(start + 72 + 6 + 4 + 8, 4)])


_register()

REGISTRY.add_reuse()
