"""C33: the log files (tracev3) of the Apple unified logging."""

import os

from dtformats import unified_logging

from props import aul_files
from props import aul_strings
from props import lib
from props.lib import Reject
from props.lib import Unspecified

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

number = aul_files.number
uuid_text = aul_files.uuid_text
UNSUPPORTED = aul_strings.UNSUPPORTED

PATH = "/db/diagnostics/Persist/f.tracev3"
NO_MESSAGE = "<compose failure [missing precomposed log]>"
MASK = (1 << 63) - 1

LOG_TYPES = {
    0x00: "Default", 0x01: "Info", 0x02: "Debug", 0x03: "Useraction",
    0x10: "Error", 0x11: "Fault",
    0x40: "Thread Signpost Event", 0x41: "Thread Signpost Start",
    0x42: "Thread Signpost End", 0x80: "Process Signpost Event",
    0x81: "Process Signpost Start", 0x82: "Process Signpost End",
    0xc0: "System Signpost Event", 0xc1: "System Signpost Start",
    0xc2: "System Signpost End"}

ALLOWED = {
    2: ((0x01, 0x03), 0x033f), 3: ((0x00,), 0x0002),
    4: ((0x00, 0x01, 0x02, 0x10, 0x11), 0x1f2f),
    6: ((0x40, 0x41, 0x42, 0x80, 0x81, 0x82, 0xc0, 0xc1, 0xc2), 0x8f2f),
    7: ((0x00,), 0x0000)}

EVENTS = {3: "traceEvent", 4: "logEvent", 6: "signpostEvent", 7: "lossEvent"}

ATTRIBUTES = [
    "activity_identifier", "backtrace_frames", "boot_identifier", "category",
    "creator_activity_identifier", "event_message", "event_type",
    "format_string", "loss_count", "loss_end_mach_timestamp",
    "loss_end_timestamp", "loss_start_mach_timestamp",
    "loss_start_timestamp", "mach_timestamp", "message_type",
    "parent_activity_identifier", "process_identifier",
    "process_image_identifier", "process_image_path",
    "sender_image_identifier", "sender_image_path",
    "sender_program_counter", "signpost_identifier", "signpost_name",
    "signpost_scope", "signpost_type", "sub_system", "thread_identifier",
    "timestamp", "time_zone_name", "trace_identifier", "ttl"]


# What the bytes of a file say.

class Reader:
    """Reads little-endian values of a part of the data."""

    def __init__(self, data, offset=0, end=None):
        self.data = data
        self.offset = offset
        self.end = len(data) if end is None else end

    def take(self, size):
        begin = self.offset
        if begin + size > self.end:
            raise Reject("too short")
        self.offset = begin + size
        return self.data[begin:begin + size]

    def uint(self, size):
        return lib.uint(self.take(size), 0, size)

    def sint(self, size):
        return lib.sint(self.take(size), 0, size)

    def identifier(self):
        return uuid_text(self.take(16))

    def align(self, start, padded=True):
        size = -(self.offset - start) % 8
        if padded:
            self.take(size)
        else:
            self.offset = self.offset + size


def text_before_zero(data):
    end = 0
    while end < len(data) and data[end] != 0:
        end += 1
    try:
        return data[:end].decode("utf-8")
    except UnicodeDecodeError:
        raise Reject("text")


def fixed_text(data):
    if 0 not in list(data):
        raise Unspecified("no end of string")
    return text_before_zero(data)


class Process:
    pass


class Catalog:

    def __init__(self, data, offset, size):
        reader = Reader(data, offset)
        strings_offset = reader.uint(2)
        entries_offset = reader.uint(2)
        number_of_entries = reader.uint(2)
        sub_chunks_offset = reader.uint(2)
        number_of_sub_chunks = reader.uint(2)
        reader.take(6 + 8)
        start = reader.offset
        if strings_offset % 16 != 0 or entries_offset < strings_offset:
            raise Unspecified("offsets")
        self.uuids = []
        while reader.offset < start + strings_offset:
            self.uuids.append(reader.identifier())
        text = Reader(reader.take(entries_offset - strings_offset))
        self.strings = {}
        while text.offset < text.end:
            begin = text.offset
            while text.uint(1) != 0:
                if text.offset == text.end:
                    raise Unspecified("no end of string")
            self.strings[begin] = text_before_zero(
                text.data[begin:text.offset])
        self.processes = []
        for _ in range(number_of_entries):
            self.processes.append(self.process(reader))
        if reader.offset != start + sub_chunks_offset:
            raise Unspecified("sub chunks offset")
        for _ in range(number_of_sub_chunks):
            begin = reader.offset
            reader.take(24)
            reader.take(2 * reader.uint(4))
            reader.take(2 * reader.uint(4))
            reader.align(begin)
        if reader.offset > offset + size:
            raise Unspecified("beyond the chunk")
        seen = []
        for process in self.processes:
            process.main = self.at(process.main)
            process.dsc = self.at(process.dsc)
            if process.key in seen:
                raise Reject("twice")
            seen.append(process.key)

    def process(self, reader):
        begin = reader.offset
        process = Process()
        reader.take(4)
        process.main = reader.sint(2)
        process.dsc = reader.sint(2)
        upper = reader.uint(8)
        process.key = (upper, reader.uint(4))
        process.pid = reader.uint(4)
        reader.take(8)
        count = reader.uint(4)
        reader.take(4)
        process.images = []
        for _ in range(count):
            size = reader.uint(4)
            reader.take(4)
            index = reader.uint(2)
            address = reader.uint(4)
            process.images.append(
                (address + reader.uint(2) * 0x100000000, size, index))
        count = reader.uint(4)
        reader.take(4)
        process.sub_systems = []
        for _ in range(count):
            identifier = reader.uint(2)
            name = reader.uint(2)
            process.sub_systems.append((identifier, name, reader.uint(2)))
        reader.align(begin)
        return process

    def at(self, index):
        if index < 0:
            return None
        if index >= len(self.uuids):
            raise Reject("index")
        return self.uuids[index]

    def find(self, key):
        for process in self.processes:
            if process.key == key:
                return process
        return None


class Image:

    def __init__(self, identifier=None, path=None, text=None, offset=None):
        self.identifier = identifier
        self.path = path
        self.text = text
        self.offset = offset


class Log:

    def __init__(self, files, path=PATH):
        self.files = files
        self.data = files[path]
        self.catalog = None
        self.oversize = []
        if path[0] != "/":
            path = f"{os.getcwd()}/{path}"
        folders = path.split("/")[1:-1]
        for _ in range(2):
            if folders and not folders[-1].lower().endswith(".logarchive"):
                folders = folders[:-1]
        root = "/" + "/".join(folders)
        if folders and folders[-1].lower().endswith(".logarchive"):
            self.strings = root if f"{root}/dsc" in files else None
        else:
            self.strings = root.rstrip("/") + "/uuidtext"
            if self.strings not in files:
                self.strings = None
        self.times = root.rstrip("/") + "/timesync"
        if self.times not in files:
            self.times = root.rstrip("/") + "/diagnostics/timesync"
            if self.times not in files:
                self.times = None

    def entries(self):
        reader = Reader(self.data)
        reader.take(8)
        size = reader.uint(8)
        self.header(Reader(self.data, 16))
        if size < 208:
            raise Unspecified("header size")
        offset = 16 + size + -size % 8
        if self.records is not None:
            boot, records = self.records
            name = f"{self.boot!s}".upper()
            yield {"boot_identifier": self.boot,
                   "event_message": f"=== system boot: {name}",
                   "event_type": "timesyncEvent", "mach_timestamp": 0,
                   "thread_identifier": 0, "timestamp": boot,
                   "trace_identifier": 0}
            for kernel, timestamp in records:
                yield {
                    "boot_identifier": self.boot,
                    "event_message": "=== system wallclock time adjusted",
                    "event_type": "timesyncEvent", "mach_timestamp": kernel,
                    "parent_activity_identifier": 0, "thread_identifier": 0,
                    "timestamp": timestamp, "trace_identifier": 0}
        while offset < len(self.data):
            reader = Reader(self.data, offset)
            tag = reader.uint(4)
            reader.take(4)
            size = reader.uint(8)
            offset = offset + 16
            if tag == 0x600b:
                self.catalog = Catalog(self.data, offset, size)
            elif tag == 0x600d:
                yield from self.chunk_set(offset, size)
            else:
                raise Reject("tag")
            offset = offset + size
            offset = offset + -offset % 8

    def header(self, reader):
        numerator = reader.uint(4)
        denominator = reader.uint(4)
        reader.take(8)
        self.timestamp = reader.sint(4) * 1000000000
        reader.take(16)
        flags = reader.uint(4)
        for tag, size in ((0x6100, 8), (0x6101, 56), (0x6102, 24),
                          (0x6103, 48)):
            if reader.uint(4) != tag:
                raise Reject("sub chunk")
            reader.take(4)
            content = reader.take(size)
            if tag == 0x6101:
                fixed_text(content[8:24])
                fixed_text(content[24:])
            elif tag == 0x6102:
                self.boot = uuid_text(content[:16])
            elif tag == 0x6103:
                fixed_text(content)
        if flags & 1 == 0:
            raise Reject("flags")
        if denominator == 0:
            raise Reject("denominator")
        self.rate = numerator, denominator
        self.records = None
        self.timesync()

    def timesync(self):
        """The boot record and the time adjustments that follow it."""
        if self.times is None:
            return
        for path, data in self.files.items():
            if (path.rsplit("/", 1)[0] != self.times
                    or not path.endswith(".timesync")):
                continue
            if self.records is not None:
                break
            found = None
            records = []
            offset = 0
            while offset < len(data):
                values, size = aul_files.timesync_record([], data, offset)
                offset = offset + size
                if values[0] == b"\xb0\xbb":
                    if found is not None:
                        break
                    if values[3] == self.boot:
                        found = values
                elif found is not None:
                    records.append((values[3], values[4]))
            if found is not None:
                if found[5] == 0:
                    raise Reject("denominator")
                self.rate = found[4], found[5]
                self.records = found[6], records

    def time(self, value):
        numerator, denominator = self.rate
        if self.records is None:
            return self.timestamp + value * numerator // denominator
        timestamp, records = self.records
        best = None
        for kernel, adjusted in records:
            if kernel <= value and (best is None or kernel > best):
                best = kernel
                timestamp = adjusted
        if best is not None:
            if [x[0] for x in records].count(best) > 1:
                raise Unspecified("two adjustments at once")
            value = value - best
        return timestamp + value * numerator // denominator

    # String files.

    def uuidtext(self, name):
        """The entries and path of the string file of an image."""
        name = name.replace("-", "").upper()
        path = f"{self.strings}/{name[:2]}/{name[2:]}"
        if self.strings is None or path not in self.files:
            return None
        data = self.files[path]
        return (data,) + aul_files.uuidtext_file([], data)

    def dsc(self, name):
        name = name.replace("-", "").upper()
        path = f"{self.strings}/dsc/{name}"
        if self.strings is None or path not in self.files:
            return None
        data = self.files[path]
        return data, aul_files.dsc_file([], data)[0]

    def image(self, process, point, kind, reference, dynamic):
        offset = 0
        if kind == 2:
            name = process.main if process else None
        elif kind == 4 or kind == 12:
            name = process.dsc if process else None
        elif kind == 8:
            name = None
            address = point["address"] + point["upper"] * 0x100000000
            for begin, size, index in process.images if process else []:
                if begin <= address and address < begin + size:
                    name = self.catalog.at(index)
                    offset = begin
                    break
            if name is None:
                return None
        elif kind == 10:
            name = point["identifier"]
        else:
            raise Reject("strings file type")
        if name is None:
            raise Reject("no strings file")
        if dynamic and reference > 0xffffffff:
            raise Unspecified("large dynamic reference")
        large = point["large"]
        if kind == 4 or kind == 12:
            image = Image(name, offset=0)
            content = self.dsc(name)
            if content is not None:
                found = aul_files.find_dsc(
                    content[0], content[1], reference, dynamic)
                if found is not None:
                    image = Image(*found)
            shared = point["shared"]
            if large and shared and large != shared // 2:
                image = Image(name, "", image.text, 0)
            return image
        image = Image(name, offset=offset)
        content = self.uuidtext(name)
        if content is not None:
            data, entries, image.path = content
            if dynamic:
                image.text = "%s"
                return image
            for begin, size, start in entries:
                if begin <= reference and reference < begin + size:
                    image.text = aul_files.zero_terminated(
                        data, start + reference - begin)[0]
                    return image
            image.offset = large << 31
        return image

    def process_image(self, process):
        if process and process.main is not None:
            content = self.uuidtext(process.main)
            if content is not None:
                return process.main, content[2]
        return None, None

    # Chunks.

    def chunk_set(self, offset, size):
        reader = Reader(self.data, offset)
        content = Reader(reader.take(size))
        marker = content.take(4)
        length = content.uint(4)
        if marker == b"bv41":
            raise Unspecified("compressed")
        if marker != b"bv4-":
            raise Reject("marker")
        data = content.take(length)
        if content.take(4) != b"bv4$":
            raise Reject("end marker")
        if content.offset != content.end:
            raise Unspecified("more data")
        offset = 0
        while offset < len(data):
            reader = Reader(data, offset)
            tag = reader.uint(4)
            reader.take(4)
            size = reader.uint(8)
            offset = offset + 16
            if offset + size > len(data):
                raise Unspecified("chunk size")
            content = data[offset:offset + size]
            if tag == 0x6001:
                yield from self.firehose(content)
            elif tag == 0x6002:
                self.oversize.append(self.oversize_chunk(content))
            elif tag == 0x6003:
                yield self.state_dump(content)
            elif tag == 0x6004:
                yield self.simple_dump(content)
            offset = offset + size
            offset = offset + -offset % 8

    def items(self, reader, count):
        items = []
        for _ in range(count):
            kind = reader.uint(1)
            size = reader.uint(1)
            if kind in (0x20, 0x21, 0x22, 0x30, 0x32, 0x40, 0x41, 0x42,
                        0xf2):
                if size != 4:
                    raise Reject("item size")
                begin = reader.uint(2)
                items.append((kind, begin, reader.uint(2)))
            else:
                items.append((kind, reader.take(size), None))
        return items

    def oversize_chunk(self, data):
        reader = Reader(data)
        upper = reader.uint(8)
        key = (upper, reader.uint(4))
        reader.take(12)
        reference = reader.uint(4)
        size = reader.uint(2)
        private_size = reader.uint(2)
        reader.take(1)
        items = self.items(reader, reader.uint(1))
        if reader.offset > 32 + size or 32 + size + private_size > len(data):
            raise Unspecified("oversize data")
        return (key, reference, items, data[reader.offset:32 + size],
                data[32 + size:32 + size + private_size])

    def state_dump(self, data):
        reader = Reader(data)
        upper = reader.uint(8)
        key = (upper, reader.uint(4))
        reader.take(4)
        time = reader.uint(8)
        activity = reader.uint(8)
        sender = reader.identifier()
        kind = reader.uint(4)
        size = reader.uint(4)
        library = reader.take(64)
        decoder = reader.take(64)
        title = fixed_text(reader.take(64))
        content = reader.take(size)
        process = self.catalog.find(key) if self.catalog else None
        if process is None:
            raise Reject("process")
        message = ""
        if kind == 3:
            name = f"{text_before_zero(library)}:{text_before_zero(decoder)}"
            if name == "mdns:yesno":
                text = aul_strings.boolean("no", "yes")(content)
            elif name in aul_strings_names():
                raise Unspecified("decoder")
            else:
                text = f"<decode: unsupported decoder: {name}>"
            message = f"{title}\n{text}"
        image, path = self.process_image(process)
        return {"activity_identifier": activity & MASK,
                "backtrace_frames": [(sender, 0)],
                "boot_identifier": self.boot, "event_message": message,
                "event_type": "stateEvent", "mach_timestamp": time,
                "process_identifier": process.pid,
                "process_image_identifier": image,
                "process_image_path": path,
                "sender_image_identifier": sender,
                "timestamp": self.time(time), "trace_identifier": 0}

    def simple_dump(self, data):
        reader = Reader(data)
        upper = reader.uint(8)
        key = (upper, reader.uint(4))
        reader.take(1)
        kind = reader.uint(1)
        reader.take(2)
        time = reader.uint(8)
        thread = reader.uint(8)
        address = reader.uint(8)
        sender = reader.identifier()
        reader.take(20)
        size = reader.uint(4)
        message_size = reader.uint(4)
        sub_system = reader.take(size)
        message = reader.take(message_size)
        sub_system = fixed_text(sub_system)
        message = fixed_text(message)
        process = self.catalog.find(key) if self.catalog else None
        if process is None:
            raise Reject("process")
        image, path = self.process_image(process)
        return {"backtrace_frames": [(sender, address)],
                "boot_identifier": self.boot, "event_message": message,
                "event_type": "logEvent", "mach_timestamp": time,
                "message_type": LOG_TYPES.get(kind),
                "process_identifier": process.pid,
                "process_image_identifier": image,
                "process_image_path": path,
                "sender_image_identifier": sender,
                "sender_program_counter": address,
                "sub_system": sub_system, "thread_identifier": thread,
                "timestamp": self.time(time), "trace_identifier": 0}

    def firehose(self, data):
        reader = Reader(data)
        upper = reader.uint(8)
        key = (upper, reader.uint(4))
        reader.take(4)
        public = reader.uint(2)
        virtual = reader.uint(2) % 4096
        reader.take(4)
        base = reader.uint(8)
        process = None
        if self.catalog:
            process = self.catalog.find(key)
            if process is None:
                raise Reject("process")
        private = b""
        if virtual:
            if 4096 - virtual > len(data) - 32:
                raise Unspecified("private data size")
            private = data[len(data) - (4096 - virtual):]
        while reader.offset < public:
            begin = reader.offset
            kind = reader.uint(1)
            log_type = reader.uint(1)
            flags = reader.uint(2)
            reference = reader.uint(4)
            thread = reader.uint(8)
            low = reader.uint(4)
            time = base + low + reader.uint(2) * 0x100000000
            content = reader.take(reader.uint(2))
            reader.align(begin)
            if kind == 0:
                continue
            if kind not in (2, 3, 4, 6, 7):
                raise Reject("record type")
            if log_type not in ALLOWED[kind][0]:
                raise Reject("log type")
            if flags & ~ALLOWED[kind][1] != 0:
                raise Reject("flags")
            entry = {
                "boot_identifier": self.boot, "mach_timestamp": time,
                "thread_identifier": thread,
                "trace_identifier": (
                    reference * 0x100000000 + flags * 0x10000
                    + log_type * 0x100 + kind)}
            if kind == 2:
                entry["event_type"] = ("activityCreateEvent" if log_type == 1
                                       else "userActionEvent")
            else:
                entry["event_type"] = EVENTS[kind]
            entry.update(self.tracepoint(
                process, key, kind, log_type, flags, reference, content,
                virtual, private))
            entry["timestamp"] = self.time(time)
            image, path = self.process_image(process)
            entry["process_image_identifier"] = image
            if kind != 7:
                entry["process_image_path"] = path
            yield entry
        if reader.offset > public + 16:
            raise Unspecified("public data size")

    def tracepoint(self, process, key, kind, log_type, flags, reference,
                   content, virtual, private):
        reader = Reader(content)
        if kind == 7:
            start, end, count = (reader.uint(8), reader.uint(8),
                                 reader.uint(8))
            return {
                "loss_count": count, "loss_start_mach_timestamp": start,
                "loss_end_mach_timestamp": end,
                "loss_start_timestamp": self.time(start),
                "loss_end_timestamp": self.time(end),
                "event_message": (
                    f"lost >={count:d} unreliable messages from {start:d}-"
                    f"{end:d} (Mach continuous exact start-approx. end)")}
        source = flags & 0x000e
        point = {"large": 0, "upper": 0, "shared": 0}
        current = other = created = 0
        if kind != 3 and flags & 0x0001:
            current = reader.uint(8)
        if kind == 2:
            if flags & 0x0010:
                reader.take(8)
            if flags & 0x0200:
                other = reader.uint(8)
            if log_type != 3:
                created = reader.uint(8)
        private_range = None
        if kind in (4, 6) and flags & 0x0100:
            private_range = reader.uint(2), reader.uint(2)
        point["address"] = reader.uint(4)
        if kind != 3:
            if flags & 0x0020:
                point["large"] = reader.uint(2)
            if source == 8:
                point["upper"] = reader.uint(2)
            elif source == 10:
                point["identifier"] = reader.identifier()
            elif source == 12:
                point["shared"] = reader.uint(2)
        sub_system = signpost = None
        ttl = oversize = name = 0
        items = []
        if kind in (4, 6):
            if flags & 0x0200:
                sub_system = reader.uint(2)
            if kind == 6:
                signpost = reader.uint(8)
            if flags & 0x0400:
                ttl = reader.uint(1)
            if flags & 0x0800:
                oversize = reader.uint(2)
                if oversize == 0:
                    raise Unspecified("oversize reference")
            if flags & 0x8000:
                name = reader.uint(4)
                if flags & 0x0020:
                    name_upper = reader.uint(2)
                else:
                    name_upper = 0
            reader.take(1)
            items = self.items(reader, reader.uint(1))
        values = reader.data[reader.offset:]
        large = point["shared"] or point["large"]
        dynamic = reference >= 0x80000000
        calculated = reference % 0x80000000 + large * 0x80000000
        image = self.image(process, point, source, calculated, dynamic)
        frames = []
        if kind == 3:
            texts = self.trace_values(image, content)
        else:
            if oversize:
                if private_range is not None:
                    raise Unspecified("two kinds of private data")
                items = None
                for found in self.oversize:
                    if found[0] == key and found[1] == oversize:
                        _, _, items, values, private = found
                begin = 0
            elif private_range is None:
                begin = 0
            else:
                begin = private_range[0] - virtual
                if virtual and begin < 0:
                    raise Unspecified("private data range")
            if flags & 0x1000:
                frames = self.backtrace(values)
            texts = self.values(image, items or [], values, private, begin)
        address = point["address"]
        upper = point["upper"] * 0x100000000
        if point["shared"]:
            if point["large"] and point["large"] != point["shared"] // 2:
                address = address + point["large"] * 0x100000000
            else:
                address = address | point["shared"] << 31
        elif point["large"]:
            address = address | upper | point["large"] << 31
        else:
            address = address + upper
        counter = address - (image.offset if image else 0)
        if image and not frames:
            frames = [(image.identifier, counter)]
        result = {
            "backtrace_frames": frames, "sender_program_counter": counter,
            "process_identifier": process.pid if process else 0,
            "ttl": ttl, "time_zone_name": None,
            "event_message": NO_MESSAGE}
        if image:
            result["event_message"] = compose(image.text, texts)
            result["format_string"] = image.text
            result["sender_image_identifier"] = image.identifier
            result["sender_image_path"] = image.path
        if sub_system is not None and process:
            for identifier, first, second in process.sub_systems:
                if identifier == sub_system:
                    result["sub_system"] = self.catalog.strings.get(first)
                    result["category"] = self.catalog.strings.get(second)
        if kind != 6:
            result["message_type"] = LOG_TYPES[log_type]
        if kind == 2:
            result["activity_identifier"] = created & MASK
            result["parent_activity_identifier"] = other & MASK
            if log_type == 1:
                result["creator_activity_identifier"] = current
        else:
            result["activity_identifier"] = current & MASK
        if kind == 6:
            result["signpost_identifier"] = signpost
            result["signpost_scope"] = {
                4: "thread", 8: "process", 12: "system"}[log_type // 16]
            result["signpost_type"] = ["event", "begin", "end"][
                log_type % 16]
            if flags & 0x8000:
                calculated = name % 0x80000000 + name_upper * 0x80000000
                if calculated:
                    image = self.image(process, point, source, calculated,
                                       name >= 0x80000000)
                    if image:
                        result["signpost_name"] = image.text
        return result

    def trace_values(self, image, content):
        if len(content) < 5:
            raise Unspecified("trace")
        count = content[-1]
        if count == 0:
            return []
        if len(content) < 5 + count:
            raise Reject("trace values")
        end = len(content) - 1 - count
        reader = Reader(content, 4, end)
        texts = []
        for index in range(count):
            size = content[end + index]
            if size != 4 and size != 8:
                raise Reject("value size")
            if reader.offset + size > end:
                raise Unspecified("value")
            texts.append(decode(image, index, reader.take(size)))
        return texts

    def backtrace(self, values):
        reader = Reader(values)
        reader.take(3)
        identifiers = reader.uint(1)
        count = reader.uint(1)
        reader.take(1)
        identifiers = [reader.identifier() for _ in range(identifiers)]
        offsets = [reader.uint(4) for _ in range(count)]
        frames = []
        for offset in offsets:
            index = reader.uint(1)
            if index == 0xff:
                frames.append(("00000000-0000-0000-0000-000000000000",
                               offset))
            elif index < len(identifiers):
                frames.append((identifiers[index], offset))
            else:
                frames.append(None)
        if None in frames:
            raise Reject("index")
        return frames

    def values(self, image, items, values, private, begin):
        texts = []
        for kind, first, size in items:
            if kind == 0x10 or kind == 0x12:
                continue
            if kind in (0x00, 0x02):
                content = first
            elif kind in (0x21, 0x41):
                if size and begin + first + size > len(private):
                    if begin + first < len(private):
                        raise Unspecified("private data")
                    size = 0
                content = private[begin + first:begin + first + size]
            elif size is not None:
                if first + size > len(values):
                    raise Unspecified("values data")
                content = values[first:first + size]
            elif kind in (0x01, 0x25, 0x31, 0x35, 0x45):
                content = b""
            elif kind == 0x72:
                texts.append(UNSUPPORTED)
                continue
            else:
                raise Reject("value type")
            if kind in (0x01, 0x21, 0x25, 0x31, 0x35, 0x41, 0x45) and len(
                    content) == 0:
                texts.append("<private>")
            else:
                texts.append(decode(image, len(texts), content))
        return texts


def aul_strings_names():
    return unified_logging.TraceV3File._FORMAT_STRING_DECODER_NAMES


def operators(text):
    """Splits a format string that has simple operators only."""
    parts = [""]
    index = 0
    while index < len(text):
        if text[index] == "%" and index + 1 < len(text):
            if text[index + 1] == "%":
                parts[-1] += "%"
            elif text[index + 1] in "dsux":
                parts.extend([text[index + 1], ""])
            else:
                raise Unspecified("operator")
            index += 2
        else:
            if text[index] == "%":
                raise Unspecified("operator")
            parts[-1] += text[index]
            index += 1
    return parts


def compose(text, values):
    if text is None:
        return ""
    result = ""
    for index, part in enumerate(operators(text)):
        if index % 2 == 0:
            result += part
        elif index // 2 < len(values):
            result += values[index // 2]
        else:
            result += "<decode: missing data>"
    return result


def decode(image, index, data):
    """The text of the value of an operator."""
    if image is None:
        return "<decode: missing string formatter>"
    parts = [] if image.text is None else operators(image.text)
    if 2 * index + 1 >= len(parts):
        return "<decode: missing decoder>"
    kind = parts[2 * index + 1]
    if kind == "s":
        return aul_strings.reference_string(data, "", 0, None)
    if len(data) not in (1, 2, 4, 8):
        return UNSUPPORTED
    if kind == "d":
        return f"{lib.sint(data, 0, len(data)):d}"
    value = lib.uint(data, 0, len(data))
    return f"{value:x}" if kind == "x" else f"{value:d}"


# What the reader says.

def plain(name, value):
    if name == "backtrace_frames" and value is not None:
        return [(plain("image_identifier", x.image_identifier),
                 x.image_offset)
                for x in value]
    if name.endswith("_identifier") and name.split("_")[-2] in (
            "boot", "image") and value is not None:
        return f"{value!s}"
    return value


def values_of(entry):
    return [plain(name, getattr(entry, name)) for name in ATTRIBUTES]


def read_log(files, path, debug, before=(), twice=False):
    entries = []
    with lib.use_files(files):
        reader = unified_logging.TraceV3File(
            debug=debug, output_writer=lib.Writer(keep=()))
        for other in before:
            lib.outcome(reader.Open, other)
            lib.outcome(lambda: list(reader.ReadLogEntries()))
            lib.outcome(reader.Close)
        result = lib.outcome(reader.Open, path)
        if result[0] == "ok" and twice:
            lib.outcome(lambda: list(reader.ReadLogEntries()))
        if result[0] == "ok":
            generator = reader.ReadLogEntries()
            while True:
                try:
                    entries.append(values_of(next(generator)))
                except StopIteration:
                    break
                except Exception as exception:
                    result = ("raise", lib.exception_name(exception))
                    break
    return result, entries


def log_runner(side, path=PATH, twice=False, before=(), debugs=(False,),
               other=None):
    """Reads a log file with these other files around it.

    Holes beyond the log file are in the other file.
    """

    def run(env, base, holes, size=None, limits=()):
        files = dict(SIDES[side])
        if other is None:
            files[path] = lib.fill(env, base, holes, size, limits)
        else:
            files[path] = bytes.fromhex(base)
            files[other] = lib.fill(env, files[other].hex(), holes)
        for index, content in enumerate(before):
            files[f"/db/diagnostics/Persist/{index}.tracev3"] = content
        want = ("ok", None)
        expected = []
        try:
            for entry in Log(files, path).entries():
                expected.append(entry)
        except Reject:
            want = ("raise", "ParseError")
        except Unspecified:
            want = None
        for debug in debugs:
            name = "debug" if debug else "quiet"
            result, entries = read_log(
                files, path, debug, twice=twice, before=[
                    f"/db/diagnostics/Persist/{index}.tracev3"
                    for index in range(len(before))])
            if want is None:
                env.check(f"{name} handled", lib.handled(result), True)
                env.reach("unspecified")
                continue
            env.check(f"{name} outcome", result, want)
            env.check(f"{name} number of entries", len(entries),
                      len(expected))
            for index, entry in enumerate(expected[:len(entries)]):
                for number_of, attribute in enumerate(ATTRIBUTES):
                    env.check(
                        f"{name} {index} {attribute}",
                        entries[index][number_of],
                        entry.get(attribute))
            env.reach(want[0])

    return run


# Files to start from.

def chunk(tag, data, sub_tag=0, aligned=True):
    data = number(tag, 4) + number(sub_tag, 4) + number(len(data), 8) + data
    return data + bytes(-len(data) % 8) if aligned else data


def identifier(index):
    return bytes([index] * 16)


BOOT = bytes(range(16))


def header(rate=(1, 1), timestamp=1554134400, boot=BOOT):
    return chunk(0x1000, (
        number(rate[0], 4) + number(rate[1], 4) + number(1, 8)
        + number(timestamp, 4) + bytes(16) + number(1, 4)
        + number(0x6100, 4) + number(8, 4) + number(5, 8)
        + number(0x6101, 4) + number(56, 4) + bytes(8)
        + b"19D52".ljust(16, b"\x00") + b"J96AP".ljust(32, b"\x00")
        + number(0x6102, 4) + number(24, 4) + boot + bytes(8)
        + number(0x6103, 4) + number(48, 4) + b"/tz".ljust(48, b"\x00")))


def process(main=0, dsc=1, upper=3, lower=4, pid=77, images=(), systems=()):
    data = (bytes(4) + number(main & 0xffff, 2) + number(dsc & 0xffff, 2)
            + number(upper, 8) + number(lower, 4) + number(pid, 4)
            + bytes(8) + number(len(images), 4) + bytes(4))
    for address, size, index in images:
        data += (number(size, 4) + bytes(4) + number(index, 2)
                 + number(address & 0xffffffff, 4)
                 + number(address >> 32, 2))
    data += number(len(systems), 4) + bytes(4)
    for system in systems:
        data += b"".join([number(x, 2) for x in system])
    return data + bytes(-len(data) % 8)


SYSTEMS = ((5, 0, 4), (6, 4, 0), (7, 4, 9))
IMAGES = ((0x2000, 0x100, 2), (0x2100, 0x80, 0), (0x1fffffff0, 0x20, 2))


def catalog(processes=None, uuids=(1, 2, 3), sub_chunks=0,
            strings=b"sys\x00cat\x00\xc3\xa9t\x00x\x00"):
    if processes is None:
        processes = (process(images=IMAGES, systems=SYSTEMS),)
    strings = strings.ljust(-(-len(strings) // 8) * 8, b"\x00")
    entries = b"".join(processes)
    start = 16 * len(uuids)
    sub = b"".join([(number(1, 8) + number(2, 8) + number(3, 4)
                     + number(0x100, 4) + number(1, 4) + number(0, 2)
                     + number(2, 4) + number(0, 2) + number(4, 2)
                     ).ljust(40, b"\x00")] * sub_chunks)
    return chunk(0x600b, (
        number(start, 2) + number(start + len(strings), 2)
        + number(len(processes), 2)
        + number(start + len(strings) + len(entries), 2)
        + number(sub_chunks, 2) + bytes(6) + number(9, 8)
        + b"".join([identifier(x) for x in uuids]) + strings + entries
        + sub))


def chunk_set(*chunks):
    data = b"".join(chunks)
    return chunk(0x600d, b"bv4-" + number(len(data), 4) + data + b"bv4$")


def firehose(*points, upper=3, lower=4, base=1000, private=b"", public=None):
    data = b"".join(points)
    if public is None:
        public = 16 + len(data)
    virtual = 4096 - len(private)
    return chunk(0x6001, (
        number(upper, 8) + number(lower, 4) + bytes(4) + number(public, 2)
        + number(virtual, 2) + bytes(4) + number(base, 8) + data + private),
        aligned=True)


def point(kind, log_type, flags, content, reference=0x100, thread=9,
          time=0x0000123456):
    data = (number(kind, 1) + number(log_type, 1) + number(flags, 2)
            + number(reference, 4) + number(thread, 8)
            + number(time & 0xffffffff, 4) + number(time >> 32, 2)
            + number(len(content), 2) + content)
    return data + bytes(-len(data) % 8)


def numeric(value, size=4, kind=0):
    return number(kind, 1) + number(size, 1) + number(value, size)


def ranged(kind, offset, size):
    return number(kind, 1) + b"\x04" + number(offset, 2) + number(size, 2)


def body(flags, items=(), values=b"", current=0x8000000000000011,
         private=(0, 0), address=0x2010, large=0x3, upper=0,
         name=identifier(3), shared=0x6, system=5, signpost=None, ttl=14,
         oversize=0x0107, text=None, text_upper=0):
    """The data of a log or signpost tracepoint."""
    data = b""
    if flags & 0x0001:
        data += number(current, 8)
    if flags & 0x0100:
        data += number(private[0], 2) + number(private[1], 2)
    data += number(address, 4)
    if flags & 0x0020:
        data += number(large, 2)
    if flags & 0x000e == 8:
        data += number(upper, 2)
    elif flags & 0x000e == 10:
        data += name
    elif flags & 0x000e == 12:
        data += number(shared, 2)
    if flags & 0x0200:
        data += number(system, 2)
    if signpost is not None:
        data += number(signpost, 8)
    if flags & 0x0400:
        data += number(ttl, 1)
    if flags & 0x0800:
        data += number(oversize, 2)
    if flags & 0x8000:
        data += number(text, 4)
        if flags & 0x0020:
            data += number(text_upper, 2)
    return data + b"\x00" + number(len(items), 1) + b"".join(items) + values


def activity(flags, log_type=1, address=0x2010, large=3, upper=0, shared=6,
             name=identifier(3)):
    data = b""
    if flags & 0x0001:
        data += number(0x8000000000000021, 8)
    if flags & 0x0010:
        data += number(55, 8)
    if flags & 0x0200:
        data += number(0x8000000000000022, 8)
    if log_type != 3:
        data += number(0x8000000000000023, 8)
    data += number(address, 4)
    if flags & 0x0020:
        data += number(large, 2)
    if flags & 0x000e == 8:
        data += number(upper, 2)
    elif flags & 0x000e == 10:
        data += name
    elif flags & 0x000e == 12:
        data += number(shared, 2)
    return data


def trace(*values, address=0x2010):
    data = number(address, 4)
    for value, size in values:
        data += number(value, size)
    return data + b"".join([number(x[1], 1) for x in values]) + number(
        len(values), 1)


def oversize(items, values, private=b"", upper=3, lower=4, reference=0x0107):
    content = b"\x00" + number(len(items), 1) + b"".join(items) + values
    return chunk(0x6002, (
        number(upper, 8) + number(lower, 4) + bytes(4) + number(7, 8)
        + number(reference, 4) + number(len(content), 2)
        + number(len(private), 2) + content + private))


def state_dump(content=b"\x01", kind=3, library=b"mdns", decoder=b"yesno",
               title=b"Title", upper=3, lower=4):
    return chunk(0x6003, (
        number(upper, 8) + number(lower, 4) + bytes(4) + number(50, 8)
        + number(0x8000000000000031, 8) + identifier(9) + number(kind, 4)
        + number(len(content), 4) + library.ljust(64, b"\x00")
        + decoder.ljust(64, b"\x00") + title.ljust(64, b"\x00") + content))


def simple_dump(sub_system=b"sub\x00", message=b"message\x00", kind=1,
                upper=3, lower=4):
    return chunk(0x6004, (
        number(upper, 8) + number(lower, 4) + b"\x00" + number(kind, 1)
        + bytes(2) + number(60, 8) + number(61, 8) + number(62, 8)
        + identifier(9) + identifier(8) + number(1, 4)
        + number(len(sub_system), 4) + number(len(message), 4) + sub_system
        + message))


# Strings of image 1: 0x100 "%d of %s", 0x109 "fixed", 0x10f "%s".
STRINGS = b"%d of %s\x00fixed\x00%s\x00"
FIRST = aul_files.uuidtext([(0x100, len(STRINGS))], STRINGS, b"/bin/one\x00")
THIRD = aul_files.uuidtext(
    [(0x100, 6), (0x180000000 - 0x100000000, 6)],
    b"3: %u\x00high!\x00", b"/bin/three\x00")
# The shared cache has 0x100 "%d of %s", 0x109 "fixed", and large ones.
CACHE = aul_files.dsc(2, ranges=(
    (0, 0x100, len(STRINGS)), (1, 0x180000100, 8), (0, 0x300000100, 8)),
    images=((0x2000, 0x200), (0x40000000, 0x80)),
    strings=STRINGS + b"large%x\x00" + b"larger!\x00")

STRING_FILES = {
    "/db/uuidtext": b"", "/db/uuidtext/dsc": b"",
    "/db/uuidtext/01/" + "01" * 15: FIRST,
    "/db/uuidtext/03/" + "03" * 15: THIRD,
    "/db/uuidtext/dsc/" + "02" * 16: CACHE}
TIMES = aul_files.boot() + aul_files.sync(kernel=2000, timestamp=10 ** 15) + (
    aul_files.sync(kernel=0x10000, timestamp=2 * 10 ** 15)) + aul_files.sync(
        kernel=0x8000, timestamp=3 * 10 ** 15)
TIME_PATH = "/db/diagnostics/timesync/1.timesync"

SIDES = {
    "none": {},
    "strings": STRING_FILES,
    "times": {**STRING_FILES, "/db/diagnostics/timesync": b"",
              TIME_PATH: TIMES},
}


def plain_log(*points, **options):
    return header() + catalog() + chunk_set(firehose(*points, **options))


POINT = 224


# Paths of the log file, and the files around it.


def placed(strings, times=None):
    """The files of SIDES["times"] in other folders."""
    files = {}
    for path, data in STRING_FILES.items():
        files[strings + path[len("/db/uuidtext"):]] = data
    if times is not None:
        files[times] = b""
        files[f"{times}/1.timesync"] = TIMES
    return files


SIDES["archive"] = placed("/x/a.logarchive", "/x/a.logarchive/timesync")
SIDES["upper"] = placed("/x/A.LogArchive", "/x/A.LogArchive/timesync")
SIDES["no-dsc"] = {
    path: data for path, data in SIDES["archive"].items()
    if "/dsc" not in path}
SIDES["above"] = placed("/db/uuidtext", "/db/timesync")
SIDES["root"] = placed("/uuidtext", "/timesync")
SIDES["both"] = {**SIDES["times"], "/db/timesync": b""}
SIDES["relative"] = placed(os.getcwd() + "/uuidtext",
                           os.getcwd() + "/diagnostics/timesync")
SIDES["other-boot"] = {
    **STRING_FILES, "/db/diagnostics/timesync": b"",
    "/db/diagnostics/timesync/other": TIMES,
    "/db/diagnostics/timesync/1.timesync": aul_files.boot().replace(
        BOOT, identifier(4)) + aul_files.sync(),
    "/db/diagnostics/timesync/2.timesync": aul_files.boot().replace(
        BOOT, identifier(4)) + TIMES + aul_files.boot().replace(
            BOOT, identifier(4)) + aul_files.sync(1)}

PLACES = [
    ("/x/a.logarchive/logdata.LiveData.tracev3", "archive"),
    ("/x/a.logarchive/Persist/f.tracev3", "archive"),
    ("/x/a.logarchive/Persist/more/f.tracev3", "archive"),
    ("/x/a.logarchive/Persist/more/than/f.tracev3", "archive"),
    ("/x/A.LogArchive/Persist/f.tracev3", "upper"),
    ("/x/a.logarchive/Persist/f.tracev3", "no-dsc"),
    (PATH, "above"), (PATH, "both"), (PATH, "other-boot"),
    ("/f.tracev3", "root"), ("/d/f.tracev3", "root"),
    ("/d/e/f.tracev3", "root"), ("/d/e/f/g.tracev3", "root"),
    ("diagnostics/Persist/f.tracev3", "relative"),
    ("diagnostics/f.tracev3", "relative")]


def _register():
    head = header()
    middle = head + catalog()
    start = len(middle) + 16 + 8 + 16 + 32

    def family(name, side="strings", tier="quick", **options):
        return lib.Family(REGISTRY, "C33", name, log_runner(side, **options),
                          tier=tier)

    def whole(group, base, name="whole"):
        lib.Family(REGISTRY, "C33", group.prefix, log_runner(
            "strings", debugs=(False, True), twice=True)).holes(
                name, base, [])

    def members(group, base, begin, sizes, slow=(), **options):
        """One case per member of a structure."""
        for size in sizes:
            if begin in slow:
                group.fields(base, [(begin + index, 1)
                                    for index in range(size)], **options)
                group.fields(base, [(begin, size)],
                             **{**options, "tier": "thorough"})
            elif size > 0:
                group.fields(base, [(begin, size)], **options)
            begin += abs(size)

    items = [numeric(0xfffffffe), ranged(0x22, 0, 4)]
    values = b"abc\x00"

    # The record, with and without strings files.
    for side in ("strings", "none"):
        group = family(f"record-{side}", side=side)
        base = middle + chunk_set(firehose(
            point(4, 1, 0x0602, body(0x0602, items, values))))
        if side == "strings":
            whole(group, base)
        members(group, base, start, (1, 1, 1, 1, 4, 8, 6, 1, 1))

    # The data of a log, with many flags.
    for source, reference in (
            (2, 0x100), (2, 0x80000100), (4, 0x100), (4, 0x80002010),
            (8, 0x100), (10, 0x100), (12, 0x100), (14, 0x100), (0, 0x100)):
        for flags in (0x0000, 0x0020, 0x0621, 0x0e01):
            flags |= source
            address = 0x2010
            large = 0
            if source == 10 and flags & 0x20:
                large = 1
            elif source == 12:
                large = 3 if flags & 0x200 else 0
            elif source == 4 and flags & 0x20:
                large = 3
            content = body(flags, items, values, address=address, large=large)
            base = middle + chunk_set(
                oversize(items, values),
                firehose(point(4, 1, flags, content, reference)))
            begin = start + 16 + len(oversize(items, values)) - 16
            group = family(f"log-{reference:x}-{flags:04x}")
            whole(group, base)
            tier = "quick" if flags & 0x20 and source not in (0, 14) else (
                "thorough")
            group.holes("reference", base, [(begin + 4, 4)], tier=tier)
            sizes = [8] if flags & 1 else []
            sizes.append(4)
            if flags & 0x20:
                sizes.append(2)
            if source == 8:
                sizes.append(2)
            elif source == 10:
                sizes.extend([-16])
            elif source == 12:
                sizes.append(2)
            if flags & 0x200:
                sizes.append(2)
            if flags & 0x400:
                sizes.append(1)
            if flags & 0x800:
                sizes.append(2)
            members(group, base, begin + 24, sizes, tier=tier)
    base = middle + chunk_set(firehose(point(
        4, 1, 0x000a, body(0x000a, items, values), 0x80000100)))
    group = family("log-identifier")
    group.holes("first", base, [(start + 24 + 4, 1)])
    group.holes("dynamic", base, [(start + 4, 1), (start + 7, 1)])

    # Items of a log.
    base = middle + chunk_set(firehose(point(
        4, 1, 0x0002, body(0x0002, items, values))))
    group = family("items")
    members(group, base, start + 24 + 4, (1, 1, 1, 1, 4, 1, 1, 2, 2, -4))
    group.holes("count", base, [(start + 24 + 5, 1), (start + 24 + 8, 1)],
                tier="thorough")
    group.holes("kinds", base, [(start + 24 + 6, 1), (start + 24 + 12, 1)],
                tier="thorough")
    group.holes("range", base, [(start + 24 + 14, 4)], tier="thorough")
    for kind in (0x01, 0x25, 0x31, 0x35, 0x45, 0x72, 0x10, 0x12):
        base = middle + chunk_set(firehose(point(4, 1, 0x0002, body(
            0x0002, [numeric(3, kind=kind), ranged(0x22, 0, 4)], values))))
        group.holes(f"kind-{kind:x}", base, [(start + 24 + 7, 1)])

    # Private data.
    for private in (b"secret\x00", b"one\x00two\x00"):
        for first in (0, 4):
            virtual = 4096 - len(private)
            content = body(0x0102, [numeric(5), ranged(0x21, first, 4)],
                           private=(virtual, len(private)))
            base = middle + chunk_set(firehose(
                point(4, 1, 0x0102, content), private=private))
            group = family(f"private-{len(private)}-{first}", tier=(
                "quick" if len(private) - first == 4 or first == 0
                and len(private) == 7 else "thorough"))
            whole(group, base)
            members(group, base, start + 24, (2, 2, -4, 1, 1, -6, 1, 1, 2,
                                              2))
            group.fields(base, [(start - 32 + 16, 2), (start - 32 + 18, 2),
                                (len(base) - 12 - 8, 1)])
    for kind in (0x20, 0x22, 0x25, 0x35, 0x40, 0x41, 0x42, 0xf2):
        content = body(0x0102, [numeric(5), ranged(kind, 4, 4)], b"public\x00",
                       private=(4096 - 8, 8))
        base = middle + chunk_set(firehose(
            point(4, 1, 0x0102, content), private=b"one\x00two\x00"))
        group = family(f"private-kind-{kind:x}")
        group.holes("offset", base, [(start + 24 + 18, 1)])
        group.holes("size", base, [(start + 24 + 20, 1)])

    # Private values of any content, such as zero bytes only.
    for kind in (0x21, 0x41):
        content = body(0x0102, [numeric(5), ranged(kind, 0, 2)],
                       private=(4096 - 2, 2))
        base = middle + chunk_set(firehose(
            point(4, 1, 0x0102, content), private=b"\xfe\xfd"))
        offset = base.index(b"\xfe\xfd")
        group = family(f"private-value-{kind:x}")
        group.holes("last", base[:offset] + b"a" + base[offset + 1:],
                    [(offset + 1, 1)])
        group.holes("rest", base[:offset] + b"\x00\x00" + base[offset + 2:],
                    [(offset + 1, 1)])
        group.holes("both", base, [(offset, 2)], tier="thorough")

    # Oversize data.
    large = oversize([numeric(5), ranged(0x22, 0, 4), ranged(0x21, 0, 4)],
                     b"abc\x00", b"secret\x00")
    content = body(0x0802)
    base = middle + chunk_set(large, firehose(point(4, 1, 0x0802, content)))
    group = family("oversize")
    whole(group, base)
    begin = len(middle) + 24 + 16
    members(group, base, begin, (8, 4, -12, 4, 2, 2, -1, 1, 1, 1, 2, 2, 1, 1,
                                 2, 2))
    base = middle + chunk_set(large, oversize([numeric(6)], b"", lower=5),
                              oversize([numeric(7)], b"", reference=0x0108),
                              firehose(point(4, 1, 0x0802, content)))
    group.holes("reference", base, [(base.rindex(number(0x0107, 2)), 1)])
    group.holes("other", base, [(begin + len(large) + 8, 1)])
    group.holes("again", base, [(begin + len(large) + 8, 1),
                                (begin + len(large) + 56 + 24, 1)],
                tier="thorough")
    # The same oversize data can belong to more than one tracepoint.
    twice = point(4, 1, 0x0802, content)
    for name, parts in (
            ("one-chunk", (firehose(twice, twice),)),
            ("two-chunks", (firehose(twice), firehose(twice)))):
        base = middle + chunk_set(large, *parts)
        group.holes(f"twice-{name}", base,
                    [(base.rindex(number(0x0107, 2)), 1)])
    base = middle + chunk_set(firehose(point(4, 1, 0x0802, content)), large)
    group.holes("after", base, [])
    base = middle + chunk_set(large) + chunk_set(
        firehose(point(4, 1, 0x0802, content)))
    group.holes("chunk-sets", base, [])

    # A backtrace.
    frames = (b"\x01\x00\x12" + number(2, 1) + number(3, 2) + identifier(1)
              + identifier(3) + number(0x10, 4) + number(0x20, 4)
              + number(0x30, 4) + b"\x01\xff\x00")
    content = body(0x1002, [numeric(5)], frames)
    base = middle + chunk_set(firehose(point(4, 1, 0x1002, content)))
    group = family("backtrace")
    whole(group, base)
    members(group, base, start + 24 + 12, (-3, 1, 1, -1, -32, 4, -4, -4, 1,
                                           1, 1))
    group.holes("identifier", base, [(start + 24 + 18, 2)])
    group.holes("indexes", base, [(start + 24 + 18 + 32 + 12, 3)],
                tier="thorough")
    group.holes("counts", base, [(start + 24 + 15, 2)], tier="thorough")

    # Activities.
    for log_type, flags in ((1, 0x0002), (1, 0x0213), (1, 0x0233),
                            (3, 0x0002), (3, 0x0213), (1, 0x021b),
                            (1, 0x0237), (3, 0x0008), (1, 0x000a),
                            (1, 0x002c)):
        base = middle + chunk_set(firehose(point(
            2, log_type, flags, activity(flags, log_type, large=0, shared=0),
            0x109)))
        group = family(f"activity-{log_type}-{flags:04x}", tier=(
            "quick" if flags & 0x20 or flags & 0x200 else "thorough"))
        whole(group, base)
        group.fields(base, [(start, 1), (start + 1, 1), (start + 2, 1),
                            (start + 3, 1), (start + 22, 1)])
        sizes = []
        if flags & 0x1:
            sizes.append(8)
        if flags & 0x10:
            sizes.append(-8)
        if flags & 0x200:
            sizes.append(8)
        if log_type == 1:
            sizes.append(8)
        sizes.append(4)
        if flags & 0x20:
            sizes.append(2)
        if flags & 0xe == 8:
            sizes.append(2)
        elif flags & 0xe == 10:
            sizes.append(-16)
        elif flags & 0xe == 12:
            sizes.append(2)
        members(group, base, start + 24, sizes, name="data")

    # Traces.
    for count in (0, 1, 2, 3):
        content = trace(*((0xfffffffe, 4), (7, 8), (9, 4))[:count])
        base = middle + chunk_set(firehose(point(
            3, 0, 0x0002, content, 0x100 if count == 2 else 0x118)))
        group = family(f"trace-{count}", tier=(
            "quick" if count in (0, 2) else "thorough"))
        whole(group, base)
        members(group, base, start, (1, 1, 1, 1, 4, -8, -6, 1))
        at = start + 24
        group.fields(base, [(at, 4)], name="data")
        group.fields(base, [(at + len(content) - 1 - index, 1)
                            for index in range(count + 1)], name="data")
        if count:
            group.fields(base, [(at + 4, 4)], name="data")

    # Signposts.
    for flags, reference in (
            (0x8602, 0x109), (0x8002, 0x80000109), (0x8028, 0x100),
            (0x8004, 0x109), (0x802a, 0x100), (0x0003, 0), (0x8e21, 0x109),
            (0x822c, 0x109)):
        content = body(flags, items, values, large=0, shared=0,
                       signpost=0x1122334455667788, text=reference)
        base = middle + chunk_set(
            large, firehose(point(6, 0x41, flags, content)))
        at = start + len(large)
        group = family(f"signpost-{flags:04x}", tier=(
            "quick" if flags in (0x8602, 0x8028, 0x8004, 0x822c)
            else "thorough"))
        whole(group, base)
        group.fields(base, [(at, 1), (at + 1, 1), (at + 2, 1), (at + 3, 1)])
        sizes = []
        if flags & 0x1:
            sizes.append(8)
        sizes.append(4)
        if flags & 0x20:
            sizes.append(2)
        if flags & 0xe == 8:
            sizes.append(2)
        elif flags & 0xe == 10:
            sizes.append(-16)
        elif flags & 0xe == 12:
            sizes.append(2)
        if flags & 0x200:
            sizes.append(2)
        sizes.append(8)
        if flags & 0x400:
            sizes.append(1)
        if flags & 0x800:
            sizes.append(2)
        if flags & 0x8000:
            sizes.append(4)
            if flags & 0x20:
                sizes.append(2)
        members(group, base, at + 24, sizes, name="data")
    for high in (0, 8):
        content = body(0x8002, signpost=1, text=0x109 + (high << 28))
        base = middle + chunk_set(firehose(point(6, 0x80, 0x8002, content)))
        group = family(f"signpost-name-{high}")
        group.holes("name", base, [(start + 24 + 12, 1),
                                   (start + 24 + 15, 1)])

    # Losses.
    content = number(100, 8) + number(200, 8) + number(3, 8)
    base = middle + chunk_set(firehose(point(7, 0, 0, content)))
    group = family("loss")
    whole(group, base)
    members(group, base, start, (1, 1, 1, 1, 4, 8, 6, 1, 1, 2, 2, -4, 2, -6,
                                 8))
    group.fields(base, [(start + 24, 8), (start + 32, 8)])

    # Firehose chunks.
    log = point(4, 1, 0x0002, body(0x0002, items, values))
    empty = point(0, 0, 0, b"")
    base = middle + chunk_set(firehose(log, empty, log))
    group = family("firehose")
    whole(group, base)
    members(group, base, start - 48, (4, -4, 8, 8, 4, -4, 2, 2, -4, 8),
            slow=(start - 40, start - 16))
    group.fields(base, [(start + 22, 2)])
    group.holes("kind", base, [(start, 1), (start + len(log), 1)],
                tier="thorough")
    begin = len(middle)
    members(group, base, begin, (4, -4, 8, 4, 4), name="set")
    group.fields(base, [(len(base) - 4, 4)], name="set")
    group.cuts(base, [begin + size for size in (
        0, 1, 15, 16, 19, 23, 24, 39, 40, 71, 72, 95)]
               + [len(base) - size for size in (1, 4, 5)])
    second = chunk_set(firehose(log), firehose(log, base=5))
    base = middle + second + second
    whole(group, base, "sets")
    base = head + chunk_set(firehose(log))
    whole(group, base, "no-catalog")
    group.fields(base, [(len(head) + 72, 1), (len(head) + 74, 1)],
                 name="no-catalog")
    for first, other in ((0x0002, 0x0002), (0x0002, 0x0004),
                         (0x0008, 0x0008)):
        first = point(4, 1, first, body(first, items, values))
        other = point(4, 1, other, body(other, items, values))
        base = middle + chunk_set(firehose(first, other))
        group = family(f"pair-{first[2]}-{other[2]}")
        at = start + len(first)
        group.holes("flags", base, [(at + 2, 1)])
        group.holes("reference", base, [(at + 4, 1)])
        group.holes("address", base, [(at + 24, 1)])

    # Catalogs.
    extra = process(main=2, dsc=-1, upper=3, lower=5, pid=78)
    base = head + catalog(processes=(
        process(images=IMAGES, systems=SYSTEMS), extra)) + chunk_set(
            firehose(point(4, 1, 0x0208, body(0x0208, items, values))))
    group = family("catalog")
    whole(group, base)
    begin = len(head)
    members(group, base, begin, (4, -4, 8, 2, 2, 2, 2, 2),
            slow=(begin + 16, begin + 18), tier="thorough")
    group.fields(base, [(begin, 4), (begin + 8, 8), (begin + 17, 1),
                        (begin + 19, 1), (begin + 20, 2), (begin + 24, 2)])
    group.fields(base, [(begin + 40, 2), (begin + 72, 2)])
    at = begin + 16 + 24 + 48
    group.fields(base, [(at + index, 1) for index in range(16)],
                 name="string")
    at += 16
    members(group, base, at, (-4, 2, 2, 8, 4, 4, -8, 4, -4, 4, -4, 2, 4, 2),
            name="process")
    members(group, base, at + 40 + 3 * 16, (4, -4, 2, 2, 2), name="process")
    group.holes("keys", base, [(at + 16, 1), (len(base) - 12 - len(
        point(4, 1, 0x0208, body(0x0208, items, values))) - 16 - 8, 1)],
                tier="thorough")
    group.fields(base, [(at + len(process(images=IMAGES, systems=SYSTEMS))
                         + 8, 1), (at + len(process(
                             images=IMAGES, systems=SYSTEMS)) + 16, 1)],
                 name="second")
    group.cuts(base, [begin + size for size in (
        0, 8, 16, 30, 40, 60, 88, 100, 108, 120, 150, 190, 210)])
    sub = head + catalog(sub_chunks=2)
    group = family("sub-chunks")
    whole(group, sub)
    members(group, sub, len(sub) - 80, (8, 8, 4, 4, 1))
    group.fields(sub, [(len(sub) - 80 + 30, 1)])
    base = middle + chunk_set(firehose(log)) + catalog(processes=(
        process(pid=99, main=2),)) + chunk_set(firehose(log))
    group = family("catalogs")
    whole(group, base)
    begin = len(middle + chunk_set(firehose(log))) + 16 + 24 + 48 + 16
    members(group, base, begin, (-4, 2, 2, 8, 4, 4))

    # Headers.
    base = middle + chunk_set(firehose(log))
    group = family("header")
    members(group, base, 0, (4, -4, 8, 4, 4, -8, 4, -16, 4, 4, -4, -8, 4, -4,
                             -8, 1, -14, 1, 1, -30, 1, 4, -4, 2, -22, 4, -4,
                             1, -46, 1))
    for rate in ((125, 3), (1, 0), (0, 1), (3, 125)):
        base = header(rate) + catalog() + chunk_set(firehose(log))
        lib.Family(REGISTRY, "C33", f"rate-{rate[0]}-{rate[1]}",
                   log_runner("strings")).holes(
                       "time", base, [(start + 16, 6)])
    group.cuts(base, [0, 1, 8, 16, 17, 40, 63, 64, 72, 80, 128, 144, 160,
                      176, 200, 223])

    # Other chunks.
    state = state_dump()
    base = middle + chunk_set(state)
    group = family("state")
    whole(group, base)
    begin = len(middle) + 24 + 16
    members(group, base, begin, (8, 4, -4, 8, 8, 2, -14, 4, 4, 1, -3, 1, -59,
                                 1, -4, 1, -58, 1, -4, 1, -58, 1))
    for content in (b"", b"\x00", b"\x01\x00"):
        for kind in (0, 1, 2, 3):
            base = middle + chunk_set(state_dump(content, kind))
            group.holes(f"kind-{kind}-{len(content)}", base,
                        [(begin + 240, 1)] if content else [])
    simple = simple_dump()
    base = middle + chunk_set(simple)
    group = family("simple")
    whole(group, base)
    members(group, base, begin, (8, 4, -1, 1, -2, 8, 8, 8, 2, -14, -20, 4, 4,
                                 1, -2, 1, 1, -6, 1))
    base = middle + chunk_set(simple_dump(b"", b"m\x00"),
                              simple_dump(b"s\x00", b"\x00"))
    whole(group, base, "empty")
    base = middle + chunk_set(chunk(0x6005, b"abc"), simple, state, large,
                              firehose(log))
    group = family("mixed")
    whole(group, base)
    group.fields(base, [(len(middle) + 24, 2)])
    group.fields(base, [(len(middle) + 24 + 8, 1)], tier="thorough")
    base = middle + chunk(0x600c, b"abc") + chunk_set(simple)
    group.holes("unknown", base, [(len(middle), 2)])

    # Times.
    base = middle + chunk_set(firehose(log, base=0))
    group = family("times", side="times")
    whole(group, base)
    group.holes("time", base, [(start + 16, 3)])
    group.holes("boot", base, [(16 + 48 + 16 + 64 + 8, 2)])
    loss = middle + chunk_set(firehose(point(7, 0, 0, (
        number(0x7000, 8) + number(0x9000, 8) + number(3, 8))), base=0))
    group.fields(loss, [(start + 24, 2), (start + 32, 2)], name="loss")
    group = family("sync", side="times", other=TIME_PATH)
    near = middle + chunk_set(firehose(point(
        4, 1, 0x0002, body(0x0002, items, values), time=0x8100), base=0))
    for offset, size in ((8, 1), (24, 4), (28, 4), (32, 8), (40, 4)):
        group.fields(near, [(offset, size)], name="boot")
    for index in range(3):
        group.fields(near, [(48 + 32 * index, 2), (48 + 32 * index + 8, 8),
                            (48 + 32 * index + 16, 8)], name="record")
    group.holes("kernels", near, [(48 + 8, 2), (48 + 72, 2)],
                tier="thorough")

    # Where the files are.
    base = middle + chunk_set(firehose(log))
    for number_of, (path, side) in enumerate(PLACES):
        lib.Family(REGISTRY, "C33", f"place-{number_of}", log_runner(
            side, path=path)).holes("time", base, [(start + 16, 1)])

    # A reader used before.
    others = (header((1, 2), 5) + catalog(processes=(
        process(pid=1), process(lower=9))) + chunk_set(large, firehose(
            point(4, 1, 0x0802, body(0x0802)))),)
    for name, content in (
            ("log", middle + chunk_set(firehose(log))),
            ("oversize", middle + chunk_set(
                firehose(point(4, 1, 0x0802, body(0x0802))))),
            ("no-catalog", head + chunk_set(firehose(log)))):
        lib.Family(REGISTRY, "C33", f"again-{name}", log_runner(
            "strings", before=others, twice=True)).holes(
                "time", content, [(start + 16, 1)] if name == "log" else [])


_register()
