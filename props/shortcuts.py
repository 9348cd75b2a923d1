"""C41: the jump list script shows every shortcut and shell item.

The libraries that read shortcuts, shell items and property stores (C code)
are replaced by stand-ins whose fields are symbolic.
"""

import sys

from scripts import jump_list as script

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find


class Item:
    """A shell item, extension block, data block, property or shortcut."""

    def __init__(self, **fields):
        for name, value in fields.items():
            if name.startswith("get_"):
                value = self._returns(value)
            setattr(self, name, value)

    def _returns(self, value):
        def call():
            return value
        return call


class control_panel_category(Item):
    pass


class control_panel_item(Item):
    pass


class file_entry(Item):
    pass


class network_location(Item):
    pass


class root_folder(Item):
    pass


class users_property_view(Item):
    pass


class volume(Item):
    pass


class file_entry_extension(Item):
    pass


class Shell:
    """Stands in for pyfwsi and pyfwps: data is the object itself."""

    control_panel_category = control_panel_category
    control_panel_item = control_panel_item
    file_entry = file_entry
    network_location = network_location
    root_folder = root_folder
    users_property_view = users_property_view
    volume = volume
    file_entry_extension = file_entry_extension

    def item_list(self):
        return Filled()

    def store(self):
        return Filled()


class Filled:
    """List of items or property store that takes the fields of its data."""

    def copy_from_byte_stream(self, data):
        for name, value in data.fields.items():
            setattr(self, name, value)


class Data:
    """Serialized data."""

    def __init__(self, **fields):
        self.fields = fields


class Writer(script.StdoutWriter):
    """Keeps the text."""

    def __init__(self):
        super().__init__()
        self.parts = []

    def WriteText(self, text):
        self.parts.append(text)


class libraries:
    """Context manager: the stand-ins for the libraries."""

    def __enter__(self):
        self.before = (script.pyfwsi, script.pyfwps)
        script.pyfwsi = script.pyfwps = Shell()
        return self

    def __exit__(self, *args):
        script.pyfwsi, script.pyfwps = self.before


def decide(env, function, want):
    """What a function writes."""
    writer = Writer()
    with libraries():
        result = lib.outcome(function, writer)
    env.check("outcome", result, ("ok", None))
    env.check("text", "".join(writer.parts), want)
    env.reach("written")


def line(description, value):
    text = description.replace("\t", " " * 8)
    return f"{description}{chr(9) * (9 - len(text) // 8)}: {value}\n"


def pick(env, name, choices):
    index = env.int(name, 0, len(choices) - 1)
    for number, value in enumerate(choices):
        if index == number:
            return value
    return choices[-1]


def letters(env, name, size):
    data = env.bytes(name, size)
    for x in data:
        env.assume(x >= 0x20)
        env.assume(x <= 0x7e)
    return data.decode("ascii")


FILETIMES = {
    0: "Not set (0)", 0x7fffffffffffffff: "Never (0x7fffffffffffffff)",
    0x01cb3a623d0a17ce: "2010-08-12 21:06:31.5468750 UTC",
    116444736000000000: "1970-01-01 00:00:00.0000000 UTC"}
FAT = {0: "Not set (0)", 0x21: "1980-01-01 00:00:00", 1: "0x0001",
       0x3cf04a3f: "2017-01-31 07:39:32", 0xf8000021: "0xf8000021"}


# Property stores

KNOWN = {
    "{b725f130-47ef-101a-a5f1-02608c9eebac}/10": "PKEY_DisplayName",
    "{b725f130-47ef-101a-a5f1-02608c9eebac}/12": "PKEY_Size",
    "{b725f130-47ef-101a-a5f1-02608c9eebac}/13": "PKEY_FileAttributes",
    "{000214a1-0000-0000-c000-000000000046}/9": "PKEY_Status"}
INTEGERS = (3, 0x13, 0x14, 0x15)
STRINGS = (8, 0x1e, 0x1f)


def properties(env, prefix, kind):
    """A store of two sets, and its text."""
    number = env.int(prefix + "number", -(1 << 31), (1 << 63) - 1)
    time = 0x01cb3a623d0a17ce
    if kind == "time":
        time = pick(env, prefix + "time", list(FILETIMES))
    text = letters(env, prefix + "text", 2)
    flag = pick(env, prefix + "flag", [False, True])
    choices = {"integer": INTEGERS, "string": STRINGS, "boolean": (0xb,),
               "time": (0x40,), "other": (1, 0x42, 0x48),
               "vector": (0x101f, 0x1003, 0x1fff, 0x1000)}[kind]
    value_type = pick(env, prefix + "type", list(choices))
    if value_type in INTEGERS:
        value = f"{number}"
    elif value_type in STRINGS:
        value = text
    elif value_type == 0x0b:
        value = f"{flag}"
    elif value_type == 0x40:
        value = FILETIMES[time]
    elif value_type == 1:
        value = "<VT_NULL>"
    elif value_type == 0x42:
        value = "<VT_STREAM>"
    elif value_type == 0x48:
        value = "some guid"
    else:
        value = "<VT_VECTOR>"
    name = pick(env, prefix + "name", [None, "", "name"])
    number_of_entry = pick(env, prefix + "entry", [10, 12, 13, 0, 99])
    identifier = "b725f130-47ef-101a-a5f1-02608c9eebac"

    def record(entry_type, entry_name):
        return Item(
            value_type=value_type, entry_name=entry_name,
            entry_type=entry_type, get_data_as_integer=(
                time if value_type == 0x40 else number),
            get_data_as_string=text, get_data_as_boolean=flag,
            get_data_as_guid="some guid")

    def shown(identifier, entry_type, entry_name):
        key = f"{{{identifier}}}/{entry_name or entry_type}"
        label = "Unknown"
        for known, description in KNOWN.items():
            if key == known:
                label = description
        return (f"\t\tProperty: {key} ({label})\n"
                + line(f"\t\t\tValue (0x{value_type:04x})", value))

    other = "000214a1-0000-0000-c000-000000000046"
    return Data(sets=[
        Item(identifier=identifier, records=[
            record(number_of_entry, name), record(7, "x")]),
        Item(identifier=other, records=[record(9, None)]),
        Item(identifier=other, records=[])]), (
            shown(identifier, number_of_entry, name)
            + shown(identifier, 7, "x") + shown(other, 9, None))


# Shell items


def item_text(env, kind, prefix=""):
    """A shell item of a kind, and the text of it."""
    fields = {"delegate_folder_identifier": None,
              "number_of_extension_blocks": 0, "extension_blocks": [],
              "class_type": 0x31}
    text = ""
    label = None
    if kind == "control panel category":
        number = env.int(prefix + "identifier", 0, 0xffffffff)
        fields["identifier"] = number
        label = "Control Panel Category"
        text = line("\t\t\tControl panel category identifier", number)
        make = control_panel_category
    elif kind == "control panel item":
        fields["identifier"] = letters(env, prefix + "identifier", 2)
        label = "Control Panel Item"
        text = line("\t\t\tControl panel item identifier",
                    fields["identifier"])
        make = control_panel_item
    elif kind == "file entry":
        size = env.int(prefix + "size", 0, 0xffffffff)
        flags = env.int(prefix + "flags", 0, 0xffff)
        time = pick(env, prefix + "time", list(FAT))
        name = letters(env, prefix + "name", 2)
        fields.update({
            "file_size": size, "file_attribute_flags": flags, "name": name,
            "get_modification_time_as_integer": time})
        label = "File Entry"
        text = (line("\t\t\tFile size", size)
                + line("\t\t\tModification time", FAT[time])
                + line("\t\t\tFile attribute flags", f"0x{flags:08x}")
                + line("\t\t\tName", name))
        make = file_entry
    elif kind == "network location":
        location = letters(env, prefix + "location", 2)
        description = pick(env, prefix + "description", [None, "", "text"])
        comments = pick(env, prefix + "comments", [None, "", "more"])
        fields.update({"location": location, "description": description,
                       "comments": comments})
        label = "Network Location"
        text = line("\t\t\tNetwork location", location)
        if description:
            text += line("\t\t\tDescription", description)
        if comments:
            text += line("\t\t\tComments", comments)
        make = network_location
    elif kind == "root folder":
        fields["shell_folder_identifier"] = letters(
            env, prefix + "identifier", 2)
        label = "Root Folder"
        text = line("\t\t\tRoot shell folder identifier",
                    fields["shell_folder_identifier"])
        make = root_folder
    elif kind == "users property view":
        data, text = properties(env, prefix, "string")
        if pick(env, prefix + "empty", [False, True]):
            data, text = pick(env, prefix + "none", [None, b""]), ""
        fields["property_store_data"] = data
        label = "Users Property View"
        make = users_property_view
    elif kind == "volume":
        for name, title in (
                ("name", "Volume name"), ("identifier", "Volume identifier"),
                ("shell_folder_identifier",
                 "Volume shell folder identifier")):
            value = pick(env, prefix + name, [None, "", "text " + name])
            fields[name] = value
            if value:
                text += line(f"\t\t\t{title}", value)
        label = "Volume"
        make = volume
    else:
        number = env.int(prefix + "class", 0, 0xff)
        fields["class_type"] = number
        label = f"Unknown (0x{number:02x})"
        make = Item
    delegate = pick(env, prefix + "delegate", [None, "delegated"])
    fields["delegate_folder_identifier"] = delegate
    text = (line("\t\t\tItem type", label) + (
        line("\t\t\tDelegate folder", delegate) if delegate else "") + text)
    return make, fields, text


def shell_item(env, kind):
    make, fields, text = item_text(env, kind)
    item = make(**fields)
    decide(env, lambda writer: writer._WriteShellItem(item), text + "\n")


def extension(env, free):
    """A shell item with two extension blocks."""
    created, accessed, reference = 0x21, 0x3cf04a3f, None
    localized = "local"
    if free == "times":
        created = pick(env, "created", list(FAT))
        accessed = pick(env, "accessed", list(FAT))
    if free == "reference":
        reference = env.int("reference", 0, (1 << 64) - 1)
        env.assume(reference != 1 << 48)
    if free == "name":
        localized = pick(env, "localized", [None, "", "other"])
    name = letters(env, "name", 2)
    signature = env.int("signature", 0, 0xffffffff)
    blocks = [
        Item(signature=signature),
        file_entry_extension(
            signature=0xbeef0004, get_creation_time_as_integer=created,
            get_access_time_as_integer=accessed, long_name=name,
            localized_name=localized, file_reference=reference)]
    item = root_folder(
        delegate_folder_identifier=None, shell_folder_identifier="x",
        number_of_extension_blocks=len(blocks), extension_blocks=blocks)
    want = (line("\t\t\tItem type", "Root Folder")
            + line("\t\t\tRoot shell folder identifier", "x")
            + "\t\tExtension block: 1\n"
            + line("\t\t\tSignature", f"0x{signature:04x}")
            + "\t\tExtension block: 2\n"
            + line("\t\t\tSignature", "0xbeef0004")
            + line("\t\t\tCreation time", FAT[created])
            + line("\t\t\tAccess time", FAT[accessed])
            + line("\t\t\tLong name", name))
    if localized:
        want += line("\t\t\tLocalized name", localized)
    if reference is not None:
        text = f"0x{reference:04x}"
        if reference >= 1 << 48:
            text = f"{reference % (1 << 48)}-{reference // (1 << 48)}"
        want += line("\t\t\tFile reference", text)
    decide(env, lambda writer: writer._WriteShellItem(item), want + "\n")


# Shortcuts

BLOCKS = {
    0xa0000001: "Environment variables location",
    0xa0000002: "Console properties",
    0xa0000003: "Distributed link tracker properties",
    0xa0000004: "Console codepage", 0xa0000005: "Special folder location",
    0xa0000006: "Darwin properties", 0xa0000007: "Icon location",
    0xa0000008: "Shim layer properties",
    0xa0000009: "Metadata property store",
    0xa000000b: "Known folder location",
    0xa000000c: "Shell item identifiers list"}
FLAGS = {
    0x1: "Contains a link target identifier",
    0x4: "Contains a description string",
    0x8: "Contains a relative path string",
    0x10: "Contains a working directory string",
    0x20: "Contains a command line arguments string",
    0x40: "Contains an icon location string",
    0x200: "Contains an environment variables block",
    0x4000: "Contains an icon location block",
    0x40000: "Contains no distributed link tracking data block"}
NAMES = ("description", "relative_path", "working_directory", "icon_location")


def block(env, prefix, free):
    """A data block and its text."""
    signature = 0xa0000001
    if free == "signature":
        signature = env.int(prefix + "signature", 0, 0xffffffff)
    if free == "store":
        signature = 0xa0000009
    path = letters(env, prefix + "path", 2)
    string = letters(env, prefix + "string", 1)
    data, stored = None, ""
    if free == "store":
        data, stored = properties(env, prefix, "integer")
        if pick(env, prefix + "empty", [False, True]):
            data, stored = None, ""
    shown = f"0x{signature:08x}"
    for known, label in BLOCKS.items():
        if signature == known:
            shown += f" ({label})"
    text = line("\t\tSignature", shown)
    if signature in (0xa0000001, 0xa0000007):
        text += line("\t\tString", path)
    elif signature == 0xa0000006:
        text += line("\t\tString", string)
    elif signature == 0xa0000009:
        text += stored
    return Item(signature=signature, path_string=path, string=string,
                data=data), text + "\n"


def shortcut(env, free, mask=0, prefix="", items=(), blocks=()):
    """A shortcut and its text."""
    flags = 0x40
    if mask:
        flags = env.int(prefix + "flags", 0, 0xffffffff) & mask
    times = [0x01cb3a623d0a17ce, 0, 116444736000000000]
    numbers = {"file_size": 100, "icon_index": 0, "show_window_value": 1,
               "hot_key_value": 0, "file_attribute_flags": 0x20}
    texts = {name: f"the {name}" for name in NAMES}
    if free == "times":
        times = [pick(env, f"{prefix}time{x}", list(FILETIMES))
                 for x in range(3)]
    if free == "numbers":
        numbers = {name: env.int(prefix + name, 0, 0xffffffff)
                   for name in numbers}
        numbers["icon_index"] = env.int(
            prefix + "index", -(1 << 31), (1 << 31) - 1)
    if free == "texts":
        texts = {name: pick(env, prefix + name, [None, "", "x " + name])
                 for name in NAMES}
    found = []
    text = ""
    for index, kind in enumerate(items):
        make, fields, shown = item_text(env, kind, f"{prefix}i{index}")
        found.append(make(**fields))
        text += f"\t\tShell item: {index + 1}\n{shown}\n"
    target = None
    if found or free == "items":
        target = Data(number_of_items=len(found), items=found)
        text = ("\tLink target identifier:\n\t\tShell item list:\n"
                + line("\t\t\tNumber of items", len(found)) + "\n" + text)
    made = []
    for index, kind in enumerate(blocks):
        data_block, shown = block(env, f"{prefix}b{index}", kind)
        made.append(data_block)
        text += f"\tData block: {index + 1}\n{shown}"
    want = "\tWindows Shortcut information:\n"
    for flag, label in FLAGS.items():
        if flags // flag % 2 == 1:
            want += f"\t\t{label}\n"
    want += line("\tNumber of data blocks", len(made)) + "\n"
    want += "\tLink information:\n"
    for label, time in zip(("Creation", "Modification", "Accesss"), times):
        want += line(f"\t\t{label} time", FILETIMES[time])
    want += line("\t\tFile size", numbers["file_size"])
    want += line("\t\tIcon index", numbers["icon_index"])
    want += line("\t\tShow Window value",
                 f"0x{numbers['show_window_value']:08x}")
    want += line("\t\tHot Key value", numbers["hot_key_value"])
    want += line("\t\tFile attribute flags",
                 f"0x{numbers['file_attribute_flags']:08x}")
    for name in NAMES:
        label = name.replace("_", " ").capitalize()
        want += line(f"\t\t{label}", texts[name] or "")
    return Item(
        data_flags=flags, number_of_data_blocks=len(made), data_blocks=made,
        get_file_creation_time_as_integer=times[0],
        get_file_modification_time_as_integer=times[1],
        get_file_access_time_as_integer=times[2],
        link_target_identifier_data=target, **numbers, **texts), (
            want + "\n" + text)


def shortcuts(env, free, mask=0, items=(), blocks=()):
    made, want = shortcut(env, free, mask, "", items, blocks)
    decide(env, lambda writer: writer.WriteShortcut(made), want)


class Reader:
    """A jump list file."""

    def __init__(self, found):
        self.found = found
        self.history = []

    def Open(self, path):
        self.history.append(("open", path))

    def Close(self):
        self.history.append("close")

    def GetJumpListEntries(self):
        for x in self.found:
            yield Item(lnk_file=x)


class Compound:
    """Stands in for pyolecf."""

    def __init__(self, answer):
        self.answer = answer
        self.given = []

    def check_file_signature_file_object(self, file_object):
        self.given.append(file_object)
        return self.answer


def listing(env, count):
    """The script on a file of some entries."""
    found = []
    want = "Windows Jump List information:\n"
    want += line("Number of entries", count) + "\n"
    for index in range(count):
        made, text = shortcut(
            env, "numbers" if index == count - 1 else "", prefix=f"e{index}")
        found.append(made)
        want += f"Entry: {index + 1}\n{text}"
    automatic = pick(env, "automatic", [True, False])
    reader = Reader(found)
    kinds = []

    def maker(name):
        def make(debug=False, file_system_helper=None, output_writer=None):
            kinds.append((name, file_system_helper is None))
            return reader
        return make

    names = ("AutomaticDestinationsFile", "CustomDestinationsFile")
    module = script.jump_list
    before = (sys.argv, script.pyolecf, [getattr(module, x) for x in names])
    sys.argv = ["jump_list.py", "/f"]
    script.pyolecf = Compound(automatic)
    for name in names:
        setattr(module, name, maker(name))
    try:
        with libraries(), lib.use_files({"/f": b"data"}):
            with lib.capture_print(env) as printed:
                result = lib.outcome(script.Main)
        closed = [x.closed for x in script.pyolecf.given]
    finally:
        sys.argv, script.pyolecf, originals = before
        for name, value in zip(names, originals):
            setattr(module, name, value)
    env.check("outcome", result, ("ok", 0))
    env.check("text", printed.text(), want)
    env.check("reader", kinds, [(names[0 if automatic else 1], False)])
    env.check("history", reader.history, [("open", "/f"), "close"])
    env.check("source closed", closed, [True])
    env.reach("listed")


def store(env, kind):
    data, want = properties(env, "", kind)
    opened = Filled()
    opened.copy_from_byte_stream(data)
    decide(env, lambda writer: writer._WritePropertyStore(opened), want)


def times(env, kind):
    """Times of the formatters, with an invalid one in between."""
    known = FAT if kind == "fat" else FILETIMES
    value = pick(env, "value", list(known))
    writer = Writer()
    function = (writer._FormatFATDateTimeValue if kind == "fat"
                else writer._FormatFiletimeValue)
    env.check("time", function(value), known[value])
    env.reach("formatted")


ITEMS = ("control panel category", "control panel item", "file entry",
         "network location", "root folder", "users property view", "volume",
         "unknown")


def _register():
    def add(name, function, arguments, bounds, tier="quick"):
        REGISTRY.add("C41", name, function, arguments, bounds=bounds,
                     tier=tier)

    for kind in ITEMS:
        add(f"item-{kind.replace(' ', '-')}", shell_item, {"kind": kind},
            f"every number and choice of a {kind}")
    for free in ("times", "reference", "name"):
        add(f"extension-{free}", extension, {"free": free},
            f"{free} of the second of two extension blocks")
    for kind in ("integer", "string", "boolean", "time", "other", "vector"):
        add(f"store-{kind}", store, {"kind": kind},
            "two sets of two properties and one, values symbolic")
    for kind in ("fat", "filetime"):
        add(f"time-{kind}", times, {"kind": kind}, "times and limits")
    for mask in (0x1f, 0x1e0, 0x7e00, 0x78000):
        add(f"flags-{mask:x}", shortcuts, {"free": "", "mask": mask},
            f"every combination of the flags of {mask:#x}")
    for free in ("times", "numbers", "texts", "items"):
        add(f"shortcut-{free}", shortcuts, {"free": free},
            f"{free} of a shortcut")
    for first, second in zip(ITEMS, ITEMS[1:] + ITEMS[:1]):
        if "users property view" in (first, second):
            continue
        add(f"target-{first.replace(' ', '-')}", shortcuts, {
            "free": "", "items": [first, second]},
            f"a {first} and a {second}")
    for blocks in (("signature",), ("signature", "string"), ("store",),
                   ("string", "signature")):
        add(f"blocks-{'-'.join(blocks)}", shortcuts, {
            "free": "", "blocks": list(blocks)}, f"{len(blocks)} data blocks")
    for count in (0, 1, 2):
        add(f"listing-{count}", listing, {"count": count},
            f"{count} entries")


_register()
