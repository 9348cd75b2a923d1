"""C40: the scripts show every record that their reader gives.

Each script is run from its Main with its arguments; the readers (which other
properties cover) are replaced by stand-ins that give records of which fields
are symbolic.
"""

import sys

from scripts import indexeddb as indexeddb_script
from scripts import job as job_script
from scripts import keychain as keychain_script
from scripts import leveldb as leveldb_script
from scripts import prefetch_hash as prefetch_script
from scripts import recycle_bin as recycle_script
from scripts import rp_change_log as change_script
from scripts import spotlight_storedb as spotlight_script
from scripts import usn_journal as usn_script
from scripts import wmi_repository as wmi_script

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


class Record:
    """A record with the fields given."""

    def __init__(self, **fields):
        for name, value in fields.items():
            setattr(self, name, value)


class StandIn:
    """A reader: the records and what is done with it."""

    def __init__(self, fields=(), methods=()):
        self.history = []
        for name, value in dict(fields).items():
            setattr(self, name, value)
        for name, value in dict(methods).items():
            setattr(self, name, self._returns(value))

    def _returns(self, value):
        def call(*args):
            return value(*args) if callable(value) else iter(list(value))
        return call

    def Open(self, path):
        self.history.append(("open", path))

    def Close(self):
        self.history.append("close")


class replaced:
    """Context manager: attributes of a module are replaced."""

    def __init__(self, module, **values):
        self.module = module
        self.values = values
        self.before = {}

    def __enter__(self):
        for name, value in self.values.items():
            self.before[name] = getattr(self.module, name)
            setattr(self.module, name, value)
        return self

    def __exit__(self, *args):
        for name, value in self.before.items():
            setattr(self.module, name, value)


def show(env, script, arguments, module, names, files=None):
    """Runs a script; names are classes of module and their stand-ins."""
    made = []

    def maker(name, reader):
        def make(*args, **kwargs):
            made.append((name, kwargs))
            return reader
        return make

    values = {name: maker(name, reader) for name, reader in names.items()}
    before = sys.argv
    sys.argv = ["script.py", *arguments]
    try:
        with replaced(module, **values), lib.use_files(files or {}):
            with lib.capture_print(env) as printed:
                result = lib.outcome(script.Main)
    finally:
        sys.argv = before
    return result, printed.text(), made


def shown(env, reader, result, text, want, made=None, expected=None):
    env.check("outcome", result, ("ok", True))
    env.check("text", text, want)
    if reader is not None:
        env.check("history", reader.history, [("open", "/f"), "close"])
    if made is not None:
        env.check("reader", [x for x, _ in made], expected)
    env.reach("shown")


TIMES = {0: "Not set (0)", 0x7fffffffffffffff: "Never (0x7fffffffffffffff)",
         0x01cb3a623d0a17ce: "2010-08-12 21:06:31.5468750 UTC",
         116444736000000000: "1970-01-01 00:00:00.0000000 UTC"}


def pick(env, name, choices):
    """One of the values: a symbolic choice."""
    index = env.int(name, 0, len(choices) - 1)
    for number, value in enumerate(choices):
        if index == number:
            return value
    return choices[-1]


def letters(env, name, size, low=0x20, high=0x7e):
    """A text of ASCII characters."""
    data = env.bytes(name, size)
    for x in data:
        env.assume(x >= low)
        env.assume(x <= high)
    return data.decode("ascii")


# USN change journal


def usn(env, count, free):
    records = []
    want = ("USN journal records information:\n"
            "Date and time,Name,File reference,Parent file reference\n")
    for index in range(count):
        time = 0x01cb3a623d0a17ce
        name = f"name{index}"
        reference, parent = (7 << 48) | 1234, (1 << 48) | 5
        if index == free:
            time = pick(env, "time", list(TIMES))
            name = letters(env, "name", 3)
            reference = env.int("reference", 0, (1 << 64) - 1)
            parent = env.int("parent", 0, (1 << 64) - 1)
        records.append(Record(
            timestamp=time, name=name, file_reference=reference,
            parent_file_reference=parent))
        want += (
            f"{TIMES[time]},{name},{reference % (1 << 48)}-"
            f"{reference // (1 << 48)},{parent % (1 << 48)}-"
            f"{parent // (1 << 48)}\n")
    from dtformats import data_format

    class Reader(StandIn, data_format.BinaryDataFormat):
        """Formats time values as any reader does."""

        def __init__(self):
            data_format.BinaryDataFormat.__init__(self)
            StandIn.__init__(self, (), {"ReadRecords": records})

    reader = Reader()
    result, text, _ = show(env, usn_script, ["/f"], usn_script.usn_journal,
                           {"USNRecords": reader})
    shown(env, reader, result, text, want)


# Keychain


TYPES = {0: "String with size",
         1: "Integer 32-bit signed",
         2: "Integer 32-bit unsigned",
         3: "CSSM_DB_ATTRIBUTE_FORMAT_BIG_NUM",
         4: "Floating-point 64-bit",
         5: "Date and time",
         6: "Binary data",
         7: "CSSM_DB_ATTRIBUTE_FORMAT_MULTI_UINT32",
         8: "CSSM_DB_ATTRIBUTE_FORMAT_COMPLEX"}


def keychain(env, content, columns, records):
    tables = []
    want = "" if content else "Keychain database file schema:\n"
    for number in range(2):
        relation = env.int(f"relation{number}", 0, 0xffffffff)
        name = letters(env, f"table{number}", 1)
        want += f"Table: {name} (0x{relation:08x})\n"
        if not content:
            want += (f"\tNumber of columns:\t{columns}\n"
                     "\tColumn\tIdentifier\tName\tType\n")
        found = []
        for index in range(columns):
            identifier, kind, label = index, 2, f"c{index}"
            if index == 0 and number == 0:
                label = pick(env, "label", ["first", "", None])
            if index == columns - 1 and not content:
                identifier = env.int(f"identifier{number}", 0, columns + 1)
                kind = env.int(f"kind{number}", 0, 0xffffffff)
            found.append(Record(attribute_identifier=identifier,
                                attribute_data_type=kind,
                                attribute_name=label))
            if not content:
                shown_identifier = (
                    "" if identifier >= columns else f"{identifier}")
                shown_kind = f"0x{kind:08x}"
                for value, text in TYPES.items():
                    if kind == value:
                        shown_kind = text
                want += (f"\t{index}\t{shown_identifier}\t{label or 'NULL'}\t"
                         f"{shown_kind}\n")
        rows = []
        if content:
            if not found:
                want += "\n"
            else:
                want += "\t".join(
                    [x.attribute_name or ("NULL" if (
                        x.attribute_name is None or number == 0) else "")
                     for x in found]) + "\n"
            for row in range(records):
                values = {}
                cells = []
                for index in range(columns):
                    value = env.int(f"v{number}{row}{index}", -5, 1 << 40)
                    if index == row and number == 0:
                        value = pick(env, f"other{row}", [
                            None, "text", 0, ""])
                    values[f"c{index}"] = value
                    cells.append("NULL" if value is None else f"{value}")
                rows.append(values)
                want += "\t".join(cells) + "\n"
        want += "\n"
        tables.append(Record(
            relation_name=name, relation_identifier=relation, columns=found,
            records=rows))
    if not content:
        want += "\n"
    reader = StandIn({"tables": tables})
    result, text, _ = show(
        env, keychain_script, ["--content", "/f"] if content else ["/f"],
        keychain_script.keychain, {"KeychainDatabaseFile": reader})
    shown(env, reader, result, text, want)


# LevelDB


MAGIC = b"\x57\xfb\x80\x8b\x24\x75\x47\xdb"
KINDS = {0: "del", 1: "val"}


def entries(env, count, free, key=None):
    """Entries of a table, of which one is symbolic, and their texts."""
    found = []
    lines = []
    for index in range(count):
        kind, number, value = index, 1000 + index, b"v\x00\xff'\""
        if index == free:
            kind = env.int("kind", 0, 255)
            number = env.int("number", 0, (1 << 56) - 1)
            value = env.bytes("value", 1)
        found.append((number, kind, value))
        text = "UNKNOWN"
        for x, name in KINDS.items():
            if kind == x:
                text = name
        lines.append(f"@ {number} : {text} => {repr(value)[1:]}")
    return found, lines


def leveldb(env, count, free, name="/d/f", size=20, magic=True):
    found, lines = entries(env, count, free)
    data = b"0123456789abcdefghij"[:size]
    if size >= 8 and magic:
        data = data[:size - 8] + MAGIC
    if magic == "any":
        data = data[:size - 1] + env.bytes("last", 1)
    records = []
    want = "LevelDB database file information:\n"
    kind = "LevelDBDatabaseLogFile"
    if data[-8:] == MAGIC:
        kind = "LevelDBDatabaseTableFile"
        for index, (number, value_type, value) in enumerate(found):
            key = env.bytes("key", 1) if index == free else b"k\x01"
            records.append(Record(
                key=key, sequence_number=number, value_type=value_type,
                value=value))
            want += f"{repr(key)[1:]} {lines[index]}\n"
    elif name.rsplit("/", 1)[-1][:8] == "MANIFEST":
        kind = "LevelDBDatabaseDescriptorFile"
    want += "\n"
    readers = {
        x: StandIn((), {"ReadTableEntries": records})
        for x in ("LevelDBDatabaseTableFile", "LevelDBDatabaseDescriptorFile",
                  "LevelDBDatabaseLogFile")}
    result, text, made = show(env, leveldb_script, [name],
                              leveldb_script.leveldb, readers, {name: data})
    env.check("outcome", result, ("ok", True))
    env.check("text", text, want)
    env.check("reader", [x for x, _ in made], [kind])
    env.check("history", readers[kind].history, [("open", name), "close"])
    env.check("helper", made[0][1].get("file_system_helper") is None, False)
    env.reach(kind)


def indexeddb(env, count, free):
    found, lines = entries(env, count, free)
    records = []
    want = "IndexedDB database file information:\n"
    for index, (number, kind, value) in enumerate(found):
        segments = ["1", letters(env, f"segment{index}", 1), "3"][:index + 1]
        records.append(Record(
            key_segments=segments, sequence_number=number, value_type=kind,
            value=value))
        want += f"<<{', '.join(segments)}>> {lines[index]}\n"
    want += "\n"
    reader = StandIn((), {"ReadEntries": records})
    result, text, made = show(
        env, indexeddb_script, ["/f"], indexeddb_script.indexeddb,
        {"IndexedDBDatabaseTableFile": reader}, {"/f": b"x"})
    shown(env, reader, result, text, want)
    env.check("helper", made[0][1].get("file_system_helper") is None, False)


# WMI repository


def aligned(pairs):
    width = max(len(x) for x, _ in pairs)
    return "".join([f"{x}{' ' * (width - len(x))} : {y}\n" for x, y in pairs])


def instance_text(item):
    named = item.properties.get("Name")
    path = f"{item.class_name}=@"
    if named:
        path = f'{item.class_name}.Name="{named}"'
    space = item.namespace or "ROOT"
    pairs = [
        ("__GENUS", "2"), ("__CLASS", item.class_name),
        ("__SUPERCLASS", item.super_class_name or ""),
        ("__DYNASTY", item.dynasty or ""), ("__RELPATH", path),
        ("__PROPERTY_COUNT", f"{len(item.properties)}"),
        ("__DERIVATION", "{" + ", ".join(item.derivation) + "}"),
        ("__SERVER", "."), ("__NAMESPACE", space),
        ("__PATH", f"\\\\.\\{space}:{path}")]
    for key in sorted(item.properties):
        value = item.properties[key]
        pairs.append((key, "" if value is None else f"{value}"))
    return aligned(pairs) + "\n"


def wmi_instances(env, free, count):
    items = []
    for index in range(count):
        properties = {"Zeta": 5, "Alpha": None}
        derivation = ["CIM_A", "CIM_B"]
        space = "ROOT\\cimv2"
        if index == count - 1:
            if free == "name":
                properties["Name"] = pick(env, "name", [
                    None, "", "some name", 0, 17])
            if free == "values":
                properties = {
                    pick(env, "key", ["A", "C", "B2", "Z", "a"]): env.int(
                        "v", -5, 1 << 32), "B": letters(env, "text", 2),
                    "D_with_a_name_that_is_long": True, "Name": "n"}
            if free == "classes":
                derivation = derivation[:env.int("classes", 0, 2)]
                space = pick(env, "space", [None, "", "ROOT\\x", "R"])
        items.append(Record(
            class_name=f"Class{index}", properties=properties,
            derivation=derivation, namespace=space,
            super_class_name=derivation[0] if derivation else None,
            dynasty=derivation[1] if len(derivation) > 1 else None))
    reader = StandIn((), {"GetInstances": items})
    result, text, _ = show(env, wmi_script, ["/f"],
                           wmi_script.wmi_repository,
                           {"CIMRepository": reader})
    shown(env, reader, result, text,
          "".join([instance_text(x) for x in items]))


def wmi_namespaces(env, count):
    names = []
    for index in range(count):
        names.append(pick(env, f"name{index}", ["b", None, "a", ""])
                     if index else letters(env, "name", 1, 0x61, 0x63))
    reader = StandIn((), {"GetNamespaces": [
        Record(namespace=x) for x in names]})
    result, text, _ = show(
        env, wmi_script, ["--output_mode", "namespaces", "/f"],
        wmi_script.wmi_repository, {"CIMRepository": reader})
    ordered = sorted([x or "" for x in names])
    shown(env, reader, result, text, "".join([f"{x}\n" for x in ordered]))


def wmi_index(env, path, arguments):
    keys = [letters(env, f"key{index}", 2) for index in range(2)]
    reader = StandIn((), {"GetIndexKeys": keys, "GetInstances": []})
    result, text, _ = show(env, wmi_script, [*arguments, path],
                           wmi_script.wmi_repository,
                           {"CIMRepository": reader})
    env.check("outcome", result, ("ok", True))
    listed = bool(arguments) or path.rsplit("/", 1)[-1].lower() == "index.btr"
    env.check("text", text,
              "".join([f"{x}\n" for x in keys]) if listed else "")
    env.check("history", reader.history, [("open", path), "close"])
    env.reach("index" if listed else "instances")


# Spotlight


def table(rows):
    """Columns start at tab stops, values that are longer push them."""
    widths = []
    for row in rows:
        for index, value in enumerate(row):
            width = -(-len(value) // 8)
            if len(widths) <= index:
                widths.append(width)
            widths[index] = max(widths[index], width)
    out = ""
    for row in rows:
        for index, value in enumerate(row):
            out += value
            if index < len(row) - 1:
                out += "\t" * -(-(8 * widths[index] - len(value)) // 8)
        out += "\n"
    return out + "\n"


def table_view(env, rows, columns, longest, header):
    """Values of symbolic lengths."""
    values = []
    for row in range(rows):
        values.append([
            "v" * env.int(f"length{row}{index}", 0, longest)
            if index < columns - 1 or rows == 1 else "last"
            for index in range(columns)])
    view = spotlight_script.TableView(header=header)
    for row in values:
        view.AddRow(row)
    writer = lib.Writer()
    view.Write(writer)
    env.check("text", writer.text(),
              (f"{header}\n" if header else "") + table(values))
    env.check("mismatch", lib.outcome(view.AddRow, ["x"] * (columns + 1)),
              ("raise", "ValueError"))
    env.reach("written")


def spotlight_database(env, version, properties):
    number = env.int("items", 0, 0xffffffff)
    attributes = {}
    text = ""
    if version:
        value = env.int("version", 0, 0xffffffff)
        attributes["_kStoreMetadataVersion"] = Record(value=value)
        text = f"{value // 65536}.{value % 65536}"
    plist = ""
    if properties:
        data = env.bytes("plist", 2)
        for x in data:
            env.assume(x < 0x80)
        attributes["kMDStoreProperties"] = Record(value=data)
        plist = "Properties:\n" + data.decode("ascii") + "\n"
    item = Record(attributes=attributes)
    if not attributes:
        item = pick(env, "item", [None, item])
    asked = []

    def find(identifier):
        asked.append(identifier)
        return item

    reader = StandIn({"number_of_metadata_items": number},
                     {"GetMetadataItemByIdentifier": find})
    result, printed, _ = show(
        env, spotlight_script, ["/f"], spotlight_script.spotlight_storedb,
        {"SpotlightStoreDatabaseFile": reader}, {"/f": b""})
    env.check("asked", asked, [1])
    shown(env, reader, result, printed,
          "Apple Spotlight database information:\n" + table([
              ["Metadata version:", text],
              ["Number of metadata items:", f"{number}"]]) + plist)


def spotlight_item(env, name, kind, lookup=None):
    identifier = 5
    value = {
        "number": lambda: env.int("value", -10, 1 << 33),
        "string": lambda: letters(env, "value", 2),
        "strings": lambda: ("a", pick(env, "value", ["", "b"])),
        "dates": lambda: (1.0, 2.5), "none": lambda: None}[kind]()
    value_type = {"string": 0x0b, "strings": 0x0b, "dates": 0x0c}.get(kind, 7)
    text = {"string": lambda: f'"{value}"'}.get(kind, lambda: f"{value!s}")()
    item = Record(attributes={
        lookup or name: Record(value=value, value_type=value_type)})
    reader = StandIn((), {"GetMetadataItemByIdentifier": (
        lambda x: item if x == identifier else None)})
    result, printed, _ = show(
        env, spotlight_script, ["--item", "5", "/f"],
        spotlight_script.spotlight_storedb,
        {"SpotlightStoreDatabaseFile": reader}, {"/f": b""})
    rows = [[x, f"= {text if x == name else '(null)'}"]
            for x in spotlight_script.ATTRIBUTE_NAMES]
    shown(env, reader, result, printed, table(rows))


def spotlight_no_item(env):
    number = env.int("number", 0, 99)
    item = Record(attributes={})
    reader = StandIn((), {"GetMetadataItemByIdentifier": (
        lambda x: None if number < 98 else item)})
    result, printed, _ = show(
        env, spotlight_script, ["-i", "42", "/f"],
        spotlight_script.spotlight_storedb,
        {"SpotlightStoreDatabaseFile": reader}, {"/f": b""})
    want = "No such metadata item: 42\n"
    if number >= 98:
        want = table([[x, "= (null)"]
                      for x in spotlight_script.ATTRIBUTE_NAMES])
    shown(env, reader, result, printed, want)


def spotlight_map(env):
    size = env.int("size", 0, 1 << 40)
    number = env.int("number", 0, 1 << 32)
    ranges = [(1, 2)]
    made = []

    def maker(name, reader):
        def make(*args, **kwargs):
            made.append((name, args))
            return reader
        return make

    readers = {
        "SpotlightStreamsMapHeaderFile": StandIn(
            {"data_size": size, "number_of_offsets": number}),
        "SpotlightStreamsMapOffsetsFile": StandIn({"ranges": ranges}),
        "SpotlightStreamsMapDataFile": StandIn()}
    before = sys.argv
    sys.argv = ["script.py", "/a/dbStr-1.map.Header"]
    try:
        with replaced(spotlight_script.spotlight_storedb, **{
                name: maker(name, x) for name, x in readers.items()}):
            with lib.capture_print(env):
                result = lib.outcome(spotlight_script.Main)
    finally:
        sys.argv = before
    env.check("outcome", result, ("ok", True))
    env.check("made", made, [
        ("SpotlightStreamsMapHeaderFile", ()),
        ("SpotlightStreamsMapOffsetsFile", (size, number)),
        ("SpotlightStreamsMapDataFile", (size, ranges))])
    env.check("history", [x.history for x in readers.values()], [
        [("open", f"/a/dbStr-1.map.{x}"), "close"]
        for x in ("Header", "offsets", "data")])
    env.reach("read")


# Restore point change log, job, recycle bin, prefetch


ENTRY_TYPES = {
    1: "CHANGE_LOG_ENTRYTYPES_STREAMCHANGE",
    2: "CHANGE_LOG_ENTRYTYPES_ACLCHANGE",
    4: "CHANGE_LOG_ENTRYTYPES_ATTRCHANGE",
    0x8: "CHANGE_LOG_ENTRYTYPES_STREAMOVERWRITE",
    0x10: "CHANGE_LOG_ENTRYTYPES_FILEDELETE",
    0x20: "CHANGE_LOG_ENTRYTYPES_FILECREATE",
    0x40: "CHANGE_LOG_ENTRYTYPES_FILERENAME",
    0x80: "CHANGE_LOG_ENTRYTYPES_DIRCREATE",
    0x100: "CHANGE_LOG_ENTRYTYPES_DIRRENAME",
    0x200: "CHANGE_LOG_ENTRYTYPES_DIRDELETE",
    0x400: "CHANGE_LOG_ENTRYTYPES_MOUNTCREATE",
    0x800: "CHANGE_LOG_ENTRYTYPES_MOUNTDELETE",
    0x1000: "CHANGE_LOG_ENTRYTYPES_VOLUMEERROR",
    0x2000: "CHANGE_LOG_ENTRYTYPES_STREAMCREATE",
    0x10000: "CHANGE_LOG_ENTRYTYPES_NOOPTIMIZE",
    0x20000: "CHANGE_LOG_ENTRYTYPES_ISDIR",
    0x40000: "CHANGE_LOG_ENTRYTYPES_ISNOTDIR",
    0x80000: "CHANGE_LOG_ENTRYTYPES_SIMULATEDELETE",
    0x100000: "CHANGE_LOG_ENTRYTYPES_INPRECREATE",
    0x200000: "CHANGE_LOG_ENTRYTYPES_OPENBYID"}
ENTRY_FLAGS = {
    1: "CHANGE_LOG_ENTRYFLAGS_TEMPPATH",
    2: "CHANGE_LOG_ENTRYFLAGS_SECONDPATH",
    4: "CHANGE_LOG_ENTRYFLAGS_ACLINFO",
    8: "CHANGE_LOG_ENTRYFLAGS_DEBUGINFO",
    0x10: "CHANGE_LOG_ENTRYFLAGS_SHORTNAME"}


def names_of(table_of, value):
    return ", ".join([x for flag, x in table_of.items()
                      if value // flag % 2 == 1])


def change_log(env, mask, flags):
    volume = letters(env, "volume", 2)
    want = ("Windows Restore Point change.log information:\n"
            f"Volume path:\t{volume}\n\n")
    found = []
    for index in range(2):
        kind, flag = 0x40, 2
        if index == 0:
            kind = env.int("kind", 0, 0xffffffff) & mask
            flag = env.int("flags", 0, 0xffffffff) & flags
        number = env.int(f"number{index}", 0, (1 << 63) - 1)
        name = letters(env, f"name{index}", 2)
        found.append(Record(
            entry_type=kind, entry_flags=flag, sequence_number=number,
            process_name=name))
        want += (f"Entry type:\t\t{names_of(ENTRY_TYPES, kind)}\n"
                 f"Entry flags:\t\t{names_of(ENTRY_FLAGS, flag)}\n"
                 f"Sequence number:\t{number}\n"
                 f"Process name:\t\t{name}\n\n")
    kind = change_script.rp_change_log.RestorePointChangeLogFile
    reader = StandIn({
        "volume_path": volume, "entries": found,
        "LOG_ENTRY_TYPES": kind.LOG_ENTRY_TYPES,
        "LOG_ENTRY_FLAGS": kind.LOG_ENTRY_FLAGS})
    result, text, _ = show(
        env, change_script, ["/f"], change_script.rp_change_log,
        {"RestorePointChangeLogFile": reader})
    shown(env, reader, result, text, want)


def job(env):
    values = {name: letters(env, name, 2) for name in (
        "identifier", "application_name", "parameters", "author", "comment")}
    task = Record(**values)
    reader = StandIn((), {"GetWindowsTaskConfiguration": lambda: task})
    result, text, _ = show(
        env, job_script, ["/f"], job_script.job,
        {"WindowsTaskSchedulerJobFile": reader})
    shown(env, reader, result, text, (
        "Windows Task Scheduler job information:\n"
        f"\tIdentifier\t\t: {values['identifier']}\n"
        f"\tApplication name\t: {values['application_name']}\n"
        f"\tParameters\t\t: {values['parameters']}\n"
        f"\tAuthor\t\t\t: {values['author']}\n"
        f"\tComment\t\t\t: {values['comment']}\n\n"))


def recycle(env):
    time = pick(env, "time", list(TIMES))
    text_of = {0: "Not set", 0x7fffffffffffffff: "Never"}
    version = env.int("version", 1, 2)
    name = letters(env, "name", 3)
    size = env.int("size", 0, (1 << 64) - 1)
    reader = StandIn({
        "format_version": version, "deletion_time": time,
        "original_filename": name, "original_file_size": size})
    result, text, _ = show(
        env, recycle_script, ["/f"], recycle_script.recycle_bin,
        {"RecycleBinMetadataFile": reader})
    shown(env, reader, result, text, (
        "Recycle.Bin metadata ($I) file information:\n"
        f"\tFormat version\t\t: {version}\n"
        f"\tDeletion time\t\t: {text_of.get(time) or TIMES[time]}\n"
        f"\tOriginal filename\t: {name}\n"
        f"\tOriginal file size\t: {size}\n\n"))


def prefetch(env):
    numbers = [env.int(f"hash{x}", 0, 0xffffffff) for x in range(3)]
    names = ("XP", "Vista", "2008")
    given = []

    def stand_in(number):
        def calculate(path):
            given.append(path)
            return number
        return calculate

    before = sys.argv
    sys.argv = ["script.py", "\\A\\B.EXE"]
    try:
        with replaced(prefetch_script.prefetch, **{
                f"CalculatePrefetchHash{name}": stand_in(number)
                for name, number in zip(names, numbers)}):
            with lib.capture_print(env) as printed:
                result = lib.outcome(prefetch_script.Main)
    finally:
        sys.argv = before
    env.check("path", given, ["\\A\\B.EXE"] * 3)
    shown(env, None, result, printed.text(), (
        "Windows Prefetch hashes:\n"
        f"\tWindows XP\t: 0x{numbers[0]:08x}\n"
        f"\tWindows Vista\t: 0x{numbers[1]:08x}\n"
        f"\tWindows 2008\t: 0x{numbers[2]:08x}\n\n"))


def no_source(env, name):
    """Without a source the scripts refuse to go on."""
    number = env.int("number", 0, 1)
    script = {
        "usn": usn_script, "keychain": keychain_script, "job": job_script,
        "leveldb": leveldb_script, "indexeddb": indexeddb_script,
        "wmi": wmi_script, "spotlight": spotlight_script,
        "change_log": change_script, "recycle": recycle_script}[name]
    before = sys.argv
    sys.argv = ["script.py"] + ["-d"] * int(number)
    try:
        with replaced(sys, stdout=Sink()):
            with lib.capture_print(env) as printed:
                result = lib.outcome(script.Main)
    finally:
        sys.argv = before
    env.check("outcome", result, ("ok", False))
    env.check("text", printed.text()[:21], "Source file missing.\n")
    env.reach("refused")


class Sink:
    """Takes the help text."""

    def write(self, text):
        return len(text)

    def flush(self):
        return


def _register():
    def add(name, function, arguments, bounds, tier="quick"):
        REGISTRY.add("C40", name, function, arguments, bounds=bounds,
                     tier=tier)

    for count in (0, 1, 2, 3):
        add(f"usn-{count}", usn, {"count": count, "free": count - 1},
            f"{count} records, time of 4, name of 3 characters and references "
            "of the last symbolic")
    add("usn-first", usn, {"count": 2, "free": 0}, "the first of 2 records")
    for columns in (0, 1, 2):
        add(f"keychain-schema-{columns}", keychain, {
            "content": False, "columns": columns, "records": 0},
            f"2 tables of {columns} columns")
        for records in (0, 1, 2):
            add(f"keychain-content-{columns}-{records}", keychain, {
                "content": True, "columns": columns, "records": records},
                f"2 tables of {columns} columns, {records} records")
    for count, free in ((0, 0), (1, 0), (2, 1), (3, 0)):
        add(f"leveldb-{count}", leveldb, {"count": count, "free": free},
            f"{count} entries, one of them symbolic")
        add(f"indexeddb-{count}", indexeddb, {"count": count, "free": free},
            f"{count} entries, one of them symbolic")
    for name in ("/d/MANIFEST-000001", "/d/000003.log", "/MANIFEST/3"):
        for size, magic in ((20, False), (20, "any"), (8, True), (7, True),
                            (0, True), (1, True)):
            add(f"leveldb-{name.rsplit('/', 1)[-1]}-{size}-{magic}", leveldb,
                {"count": 1, "free": 1, "name": name, "size": size,
                 "magic": magic}, f"file of {size} bytes")
    for free in ("name", "values", "classes"):
        for count in (1, 2):
            add(f"wmi-{free}-{count}", wmi_instances,
                {"free": free, "count": count},
                f"{count} instances, {free} of the last one symbolic")
    add("wmi-none", wmi_instances, {"free": "", "count": 0}, "no instances")
    for count in (0, 1, 2, 3):
        add(f"wmi-namespaces-{count}", wmi_namespaces, {"count": count},
            f"{count} namespaces, each of 4")
    for path, arguments in (("/d/INDEX.BTR", ()), ("/d/objects.data", ()),
                            ("/d", ("--output_mode", "index"))):
        add(f"wmi-index-{path.rsplit('/', 1)[-1]}", wmi_index,
            {"path": path, "arguments": list(arguments)}, "2 keys")
    for rows, columns, longest in ((1, 1, 9), (1, 2, 17), (2, 2, 17),
                                   (2, 3, 9)):
        add(f"table-{rows}-{columns}", table_view, {
            "rows": rows, "columns": columns, "longest": longest,
            "header": "header" if rows == 1 else None},
            f"{rows} rows of {columns} values of up to {longest} characters",
            tier="quick" if columns < 3 else "thorough")
    for version in (False, True):
        for properties in (False, True):
            add(f"spotlight-{version}-{properties}", spotlight_database, {
                "version": version, "properties": properties},
                "32-bit version and number of items")
    for kind in ("number", "string", "strings", "dates", "none"):
        add(f"spotlight-item-{kind}", spotlight_item, {
            "name": "kMDItemDisplayName", "kind": kind}, f"a {kind}")
    for name, lookup in spotlight_script.LOOKUP_ATTRIBUTE_NAMES.items():
        add(f"spotlight-item-{name}", spotlight_item, {
            "name": name, "kind": "number", "lookup": lookup}, "a number")
    add("spotlight-no-item", spotlight_no_item, {}, "an item or none")
    add("spotlight-map", spotlight_map, {}, "sizes")
    for mask, flags in ((0x7, 0x1f), (0xf0, 0), (0xf00, 0), (0xf000, 0x9),
                        (0xf0000, 0), (0xf00000, 0)):
        add(f"change-log-{mask:x}", change_log, {"mask": mask, "flags": flags},
            f"every combination of the flags of {mask:#x} and {flags:#x}")
    add("job", job, {}, "texts of 2 characters")
    add("recycle", recycle, {}, "5 times, name of 3 characters, numbers")
    add("prefetch", prefetch, {}, "32-bit hashes")
    for name in ("usn", "keychain", "job", "leveldb", "indexeddb", "wmi",
                 "spotlight", "change_log", "recycle"):
        add(f"no-source-{name}", no_source, {"name": name}, "no source")


_register()
