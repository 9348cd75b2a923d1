"""C38: the unified logging script shows every log entry, in order.

The script is run on a log file whose entries come from a stand-in for the
reader of log files (which C33 covers), so that their fields are symbolic.
"""

import sys
import uuid

from dtformats import unified_logging
from scripts import unified_logging as script

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

IDENTIFIERS = {
    "boot": uuid.UUID(bytes=bytes(range(16, 32))),
    "process": uuid.UUID(bytes=bytes(range(32, 48))),
    "sender": uuid.UUID(bytes=bytes(range(0xa0, 0xb0)))}

# Timestamps and their text.
TIMES = {
    1600000000123456789: "2020-09-13 12:26:40.123456+0000",
    1600000001000000000: "2020-09-13 12:26:41.000000+0000",
    1500000000000000001: "2017-07-14 02:40:00.000000+0000",
    0: "1970-01-01 00:00:00.000000+0000"}

MASK = (1 << 63) - 1


class Entry:
    """Fields of a log entry; those not given are not available."""

    FIELDS = (
        "activity_identifier", "backtrace_frames", "boot_identifier",
        "category", "creator_activity_identifier", "event_message",
        "event_type", "format_string", "loss_count",
        "loss_end_mach_timestamp", "loss_end_timestamp",
        "loss_start_mach_timestamp", "loss_start_timestamp",
        "mach_timestamp", "message_type", "parent_activity_identifier",
        "process_identifier", "process_image_identifier",
        "process_image_path", "sender_image_identifier",
        "sender_image_path", "sender_program_counter",
        "signpost_identifier", "signpost_name", "signpost_scope",
        "signpost_type", "sub_system", "thread_identifier", "timestamp",
        "trace_identifier", "ttl")

    def __init__(self, values):
        self.values = values

    def get(self, name):
        return self.values.get(name)

    def log_entry(self):
        """The entry as a reader offers it."""
        result = unified_logging.LogEntry()
        for name, value in self.values.items():
            if name == "backtrace_frames" and value is not None:
                frames = []
                for identifier, offset in value:
                    frame = unified_logging.BacktraceFrame()
                    frame.image_identifier = identifier
                    frame.image_offset = offset
                    frames.append(frame)
                value = frames
            setattr(result, name, value)
        return result


class StandIn:
    """Reader of log files that offers entries."""

    ACTIVITY_IDENTIFIER_BITMASK = MASK
    entries = ()

    def __init__(self, debug=False, file_system_helper=None,
                 output_writer=None):
        self.opened = []

    def Open(self, path):
        self.opened.append(path)

    def Close(self):
        return

    def ReadLogEntries(self):
        for entry in self.entries:
            yield entry.log_entry()


def run_script(env, arguments, entries):
    """What the script prints."""
    original = unified_logging.TraceV3File
    arguments_before = sys.argv
    StandIn.ACTIVITY_IDENTIFIER_BITMASK = original.ACTIVITY_IDENTIFIER_BITMASK
    StandIn.entries = entries
    unified_logging.TraceV3File = StandIn
    sys.argv = ["unified_logging.py", *arguments, "/f"]
    try:
        with lib.use_files({"/f": b"\x00\x10\x00\x00"}):
            with lib.capture_print(env) as printed:
                result = lib.outcome(script.Main)
    finally:
        unified_logging.TraceV3File = original
        sys.argv = arguments_before
        StandIn.entries = ()
    return result, printed.text()


# Reference


def quoted(text):
    """A JSON string; a solidus is escaped as well."""
    out = ['"']
    for x in text or "":
        if x == '"' or x == "\\" or x == "/":
            out.append("\\")
            out.append(x)
        elif x == "\n":
            out.append("\\n")
        elif x == "\t":
            out.append("\\t")
        elif ord(x) < 32:
            out.append(f"\\u{ord(x):04x}")
        else:
            out.append(x)
    out.append('"')
    return "".join(out)


def identifier(value):
    return f'"{str(value).upper():s}"'


def moment(value):
    return TIMES[value] if value is not None else (
        "YYYY-MM-DD hh:ss:mm.######+####")


def number(value):
    return f"{value or 0:d}"


QUIET = ("activityCreateEvent", "lossEvent", "userActionEvent")
LATE = QUIET + ("signpostEvent",)


def members(entry, parents):
    """Names and JSON texts of the members of an entry, in order."""
    kind = entry.get("event_type") or ""
    message = (entry.get("event_message") or "").rstrip()
    image = entry.get("process_image_identifier")
    sender = entry.get("sender_image_identifier")
    common = {
        "bootUUID": identifier(entry.get("boot_identifier")),
        "category": quoted(entry.get("category")),
        "processImageUUID": identifier(image or ""),
        "eventType": quoted(kind),
        "threadID": number(entry.get("thread_identifier")),
        "timestamp": f'"{moment(entry.get("timestamp")):s}"',
        "activityIdentifier": number(entry.get("activity_identifier")),
        "senderProgramCounter": number(entry.get("sender_program_counter")),
        "machTimestamp": number(entry.get("mach_timestamp")),
        "processID": number(entry.get("process_identifier")),
        "subsystem": quoted(entry.get("sub_system")),
        "timezoneName": '""',
        "traceID": number(entry.get("trace_identifier")),
        "eventMessage": quoted(message),
        "formatString": quoted(entry.get("format_string")),
        "processImagePath": quoted(entry.get("process_image_path")),
        "senderImageUUID": identifier(sender or ""),
        "senderImagePath": quoted(entry.get("sender_image_path"))}
    if kind == "activityCreateEvent" or kind == "userActionEvent":
        common["formatString"] = '""'
    if kind == "timesyncEvent":
        common["parentActivityIdentifier"] = "0"
        return [(name, common[name]) for name in (
            "bootUUID", "category", "processImageUUID", "eventType",
            "threadID", "timestamp", "activityIdentifier",
            "senderProgramCounter", "parentActivityIdentifier",
            "machTimestamp", "processID", "subsystem", "timezoneName",
            "traceID", "eventMessage", "formatString", "processImagePath",
            "senderImageUUID", "senderImagePath")]
    lost = entry.get("loss_count")
    signpost = entry.get("signpost_identifier")
    creator = entry.get("creator_activity_identifier")
    out = [("traceID", common["traceID"])]
    if kind not in LATE:
        out.append(("eventMessage", common["eventMessage"]))
    out.append(("eventType", common["eventType"]))
    if lost is not None:
        out.append(("lossCount", f"{lost:d}"))
        out.append(("lossCountSaturated", "true"))
    if signpost is not None:
        out.append(("signpostID", f"{signpost:d}"))
        out.append(("signpostScope", quoted(entry.get("signpost_scope"))))
    if kind not in QUIET:
        out.append(("source", "null"))
    out.append(("formatString", common["formatString"]))
    if lost is not None:
        out.append(("lossEndMachContinuousTimestamp",
                    number(entry.get("loss_end_mach_timestamp"))))
    for name in ("activityIdentifier", "subsystem", "category", "threadID",
                 "senderImageUUID"):
        out.append((name, common[name]))
    if signpost is not None:
        out.append(("signpostType", quoted(entry.get("signpost_type"))))
    frames = entry.get("backtrace_frames")
    if frames:
        shown = ['{\n    "frames" : [\n      {\n']
        for index, (frame, offset) in enumerate(frames):
            if index:
                shown.append("\n      },\n      {\n")
            shown.append(f'        "imageOffset" : {offset:d},\n'
                         f'        "imageUUID" : {identifier(frame):s}')
        shown.append("\n      }\n    ]\n  }")
        out.append(("backtrace", "".join(shown)))
    for name in ("bootUUID", "processImagePath", "timestamp",
                 "senderImagePath"):
        out.append((name, common[name]))
    if creator is not None:
        parents[entry.get("activity_identifier") or 0] = creator & MASK
        out.append(("creatorActivityID", f"{creator:d}"))
    elif lost is not None:
        out.append(("lossStartMachContinuousTimestamp",
                    number(entry.get("loss_start_mach_timestamp"))))
        out.append(("lossEndTimestamp",
                    f'"{moment(entry.get("loss_end_timestamp")):s}"'))
        out.append(("lossStartTimestamp",
                    f'"{moment(entry.get("loss_start_timestamp")):s}"'))
    elif signpost is not None:
        out.append(("signpostName", quoted(entry.get("signpost_name"))))
    out.append(("machTimestamp", common["machTimestamp"]))
    if kind in LATE:
        out.append(("eventMessage", common["eventMessage"]))
    else:
        out.append(("messageType", quoted(entry.get("message_type"))))
    parent = entry.get("parent_activity_identifier")
    if not parent:
        parent = parents.get(entry.get("activity_identifier") or 0) or 0
    if creator is not None and parent == creator:
        parent = 0
    for name in ("processImageUUID", "processID", "senderProgramCounter"):
        out.append((name, common[name]))
    out.append(("parentActivityIdentifier", f"{parent:d}"))
    out.append(("timezoneName", '""'))
    return out


TITLE = "Apple Unified Logging and Activity Tracing information:\n"
HEADER = ("Timestamp                       Thread     Type        "
          "Activity             PID    TTL\n")


def in_order(entries):
    """The entries by time."""
    result = []
    for entry in entries:
        at = 0
        while (at < len(result)
               and result[at].get("timestamp") <= entry.get("timestamp")):
            at += 1
        result.insert(at, entry)
    return result


def as_json(entries):
    parents = {}
    shown = []
    for entry in in_order(entries):
        shown.append(",\n".join([
            f'  "{name:s}" : {text:s}'
            for name, text in members(entry, parents)]))
    if not shown:
        return "[]"
    return "[{\n" + "\n},{\n".join(shown) + "\n}]"


def basename(path):
    return path[path.rfind("/") + 1:]


def padded(text, size):
    return text + " " * (size - len(text))


def as_text(entries):
    out = [HEADER]
    for entry in in_order(entries):
        parts = []
        if entry.get("process_image_path"):
            parts.append(f"{basename(entry.get('process_image_path')):s}:")
        if entry.get("sender_image_path"):
            parts.append(f"({basename(entry.get('sender_image_path')):s})")
        if entry.get("sub_system") and entry.get("category"):
            parts.append(
                f"[{entry.get('sub_system'):s}:{entry.get('category'):s}]")
        parts.append(entry.get("event_message") or "")
        thread = entry.get("thread_identifier") or 0
        activity = entry.get("activity_identifier") or 0
        process = entry.get("process_identifier") or 0
        ttl = entry.get("ttl") or 0
        out.append("\t".join([
            moment(entry.get("timestamp")), f"0x{thread:<8x}",
            padded(entry.get("event_type") or "", 11),
            f"0x{activity:<18x}", f"{process:<6d}", f"{ttl:<4d}",
            " ".join(parts)]) + "\n")
    return "".join(out)


# Cases

BASE = {
    "event_message": "m", "event_type": "logEvent", "mach_timestamp": 5,
    "timestamp": 1600000000123456789, "trace_identifier": 7,
    "boot_identifier": IDENTIFIERS["boot"]}


def show(env, entries, style):
    """Runs the script on entries, checks what it shows."""
    result, text = run_script(env, ["--format", style], entries)
    env.check("outcome", result, ("ok", True))
    if style == "json":
        env.check("text", text, TITLE + as_json(entries))
    else:
        env.check("text", text, TITLE + as_text(entries))


def text_field(env, name, size, style, given, head=""):
    """Every text of a size in a field."""
    text = head
    for index in range(size):
        value = env.byte(f"char{index}")
        env.assume(value < 0x80)
        text = text + chr(value)
    values = dict(BASE, **given)
    values[name] = text
    show(env, [Entry(values)], style)
    env.reach("shown")


def number_field(env, name, bits, style, given):
    """Every number in a field, or none."""
    value = env.int("value", 0, (1 << bits) - 1)
    values = dict(BASE, **given)
    if name == "frame":
        values["backtrace_frames"] = [
            (IDENTIFIERS["sender"], value), (IDENTIFIERS["boot"], 3)]
    else:
        values[name] = value
    show(env, [Entry(values)], style)
    env.reach("shown")


def present(env, names, style, given):
    """Fields that are available or not."""
    values = dict(BASE, **given)
    for name, value in names:
        if env.pick(f"has {name}", [0, 1]):
            values[name] = value
        else:
            values.pop(name, None)
    show(env, [Entry(values)], style)
    env.reach("shown")


def order(env, count, style):
    """Entries of different times, in every order."""
    times = list(TIMES)
    entries = []
    for index in range(count):
        time = env.pick(f"time{index}", times)
        for other in entries:
            env.assume(time != other.get("timestamp"))
        entries.append(Entry(dict(
            BASE, timestamp=time, event_message=f"message {index:d}",
            mach_timestamp=index)))
    show(env, entries, style)
    env.reach("shown")


def same_time(env, count, style):
    """Entries of times that may be the same: none is lost."""
    entries = []
    for index in range(count):
        entries.append(Entry(dict(
            BASE, timestamp=env.pick(f"time{index}", list(TIMES)[:2]),
            event_message=f"<{index:d}>")))
    result, text = run_script(env, ["--format", style], entries)
    env.check("outcome", result, ("ok", True))
    last = None
    left = list(range(count))
    while "<" in text:
        text = text[text.index("<") + 1:]
        number_text = text[:text.index(">")]
        position = int(number_text)
        time = entries[position].get("timestamp")
        env.check("shown once", position in left, True)
        left.remove(position)
        env.check("in order", last is None or last <= time, True)
        last = time
    env.check("all", left, [])
    env.reach("shown")


def activities(env, count, style):
    """Activities whose creators are remembered."""
    entries = []
    for index in range(count):
        values = dict(
            BASE, timestamp=sorted(TIMES)[index],
            event_type=env.pick(
                f"type{index}", ["activityCreateEvent", "logEvent"]),
            activity_identifier=env.pick(f"activity{index}", [None, 3, 4]))
        if values["event_type"] == "activityCreateEvent":
            # The most significant bit is a flag.
            value = env.int(f"creator{index}", 0, 5)
            if env.pick(f"flag{index}", [0, 1]):
                value = value + (1 << 63)
            values["creator_activity_identifier"] = value
        else:
            values["parent_activity_identifier"] = env.pick(
                f"parent{index}", [None, 4])
        entries.append(Entry(values))
    show(env, entries, style)
    env.reach("shown")


def frames(env, count, style):
    values = dict(BASE, backtrace_frames=[
        (IDENTIFIERS[name], env.int(f"offset{index}", 0, 0xffffffff))
        for index, name in enumerate(("sender", "boot", "process")[:count])])
    show(env, [Entry(values)], style)
    env.reach("shown")


def no_entries(env, style):
    show(env, [], style)
    env.reach("shown")


SIGNPOST = {"event_type": "signpostEvent", "signpost_identifier": 9}
LOSS = {"event_type": "lossEvent", "loss_count": 2,
        "loss_end_mach_timestamp": 11, "loss_start_mach_timestamp": 10,
        "loss_start_timestamp": 0, "loss_end_timestamp": 1500000000000000001}


def _register():
    add = REGISTRY.add
    for style in ("json", "text"):
        add("C38", f"{style}-none", no_entries, {"style": style},
            bounds="no log entries")
        for name in ("event_message", "format_string", "category",
                     "sub_system", "process_image_path", "sender_image_path",
                     "signpost_name"):
            given = {}
            if name == "signpost_name":
                given = SIGNPOST
            if name == "category":
                given = {"sub_system": "s"}
            if name == "sub_system":
                given = {"category": "c"}
            if style == "text" and name in ("format_string", "signpost_name"):
                continue
            add("C38", f"{style}-{name}", text_field,
                {"name": name, "size": 1, "style": style, "given": given,
                 "head": "ab"},
                bounds=f"one entry, {name} of 3 characters of which the last "
                       "is symbolic (ASCII)")
            add("C38", f"{style}-{name}-2", text_field,
                {"name": name, "size": 2, "style": style, "given": given},
                tier="thorough" if style == "json" and name not in (
                    "event_message",) else "quick",
                bounds=f"one entry, {name} of 2 symbolic characters (ASCII)")
        for name, bits, given in (
                ("activity_identifier", 64, {}),
                ("creator_activity_identifier", 64,
                 {"event_type": "activityCreateEvent"}),
                ("loss_count", 32, LOSS),
                ("loss_end_mach_timestamp", 64, LOSS),
                ("loss_start_mach_timestamp", 64, LOSS),
                ("mach_timestamp", 64, {}),
                ("mach_timestamp", 64, {"event_type": "timesyncEvent"}),
                ("parent_activity_identifier", 64, {}),
                ("process_identifier", 32, {}),
                ("sender_program_counter", 64, {}),
                ("signpost_identifier", 64, SIGNPOST),
                ("thread_identifier", 64, {}),
                ("trace_identifier", 64, {}),
                ("trace_identifier", 64, {"event_type": "timesyncEvent"}),
                ("ttl", 8, {}), ("frame", 32, {})):
            if style == "text" and name not in (
                    "activity_identifier", "process_identifier",
                    "thread_identifier", "ttl"):
                continue
            if style == "json" and name == "ttl":
                continue
            kind = given.get("event_type", "logEvent")
            add("C38", f"{style}-{name}-{kind}", number_field,
                {"name": name, "bits": bits, "style": style, "given": given},
                bounds=f"one entry ({kind}), every {name} of {bits} bits")
        kinds = ("logEvent", "signpostEvent", "activityCreateEvent",
                 "userActionEvent", "lossEvent", "timesyncEvent",
                 "stateEvent", "traceEvent")
        for kind in kinds:
            given = {"event_type": kind}
            if kind == "signpostEvent":
                given = SIGNPOST
            if kind == "lossEvent":
                given = LOSS
            names = [
                ("process_image_identifier", IDENTIFIERS["process"]),
                ("sender_image_identifier", IDENTIFIERS["sender"]),
                ("format_string", "%d"), ("sub_system", "s"),
                ("category", "c")]
            if style == "text":
                if kind != "logEvent":
                    continue
                names = [("process_image_path", "/a/b"), ("sub_system", "s"),
                         ("category", "c"), ("sender_image_path", "/d/e"),
                         ("event_message", "x"), ("event_type", "logEvent"),
                         ("ttl", 1)]
            add("C38", f"{style}-fields-{kind}", present,
                {"names": names, "style": style, "given": given},
                bounds=f"one {kind}, {len(names)} fields available or not")
        if style == "json":
            names = [("signpost_scope", "process"), ("signpost_type", "begin"),
                     ("signpost_name", "n"), ("category", "c"),
                     ("signpost_identifier", 0)]
            add("C38", "json-fields-signpost", present,
                {"names": names, "style": style, "given": SIGNPOST},
                bounds="one signpost, 5 fields available or not")
            names = [("event_type", "logEvent"), ("event_message", "x"),
                     ("message_type", "Default"), ("process_identifier", 1),
                     ("activity_identifier", 2), ("thread_identifier", 3),
                     ("sender_program_counter", 4)]
            add("C38", "json-fields-other", present,
                {"names": names, "style": style, "given": {}},
                bounds="one entry, 7 fields available or not")
            names = [("loss_count", 0), ("loss_end_timestamp", 0),
                     ("loss_start_timestamp", 1500000000000000001)]
            add("C38", "json-fields-loss", present,
                {"names": names, "style": style, "given": LOSS},
                bounds="one loss event, 3 fields available or not")
            for count in (1, 2, 3):
                add("C38", f"json-frames-{count}", frames,
                    {"count": count, "style": style},
                    bounds=f"{count} backtrace frames, symbolic offsets")
            add("C38", "json-activities-2", activities,
                {"count": 2, "style": style}, weight=5,
                bounds="2 entries, activities created or not, creators and "
                       "parents from small sets with and without the flag")
            add("C38", "json-activities-3", activities,
                {"count": 3, "style": style}, tier="thorough",
                bounds="3 entries, activities created or not")
        for count in (2, 3):
            add("C38", f"{style}-order-{count}", order,
                {"count": count, "style": style},
                bounds=f"{count} entries, 4 times in every order")
        for count in (3, 4):
            add("C38", f"{style}-same-{count}", same_time,
                {"count": count, "style": style},
                bounds=f"{count} entries of 2 times")


_register()
