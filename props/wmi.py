"""C34: WMI repositories; C35: WMI classes and instances."""

import hashlib
import os
import shutil
import struct
import tempfile

from dtformats import wmi_repository

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

PAGE = 8192
CODEPAGE_GAPS = (0x81, 0x8d, 0x8f, 0x90, 0x9d)
NAMES = {1: "key", 3: "read", 4: "write", 6: "provider", 7: "dynamic",
         10: "type"}

# Size, kind of the values of a fixed size.
FIXED = {2: (2, "s"), 3: (4, "s"), 4: (4, "f"), 5: (8, "f"), 0x0b: (2, "b"),
         0x10: (1, "s"), 0x11: (1, "u"), 0x12: (2, "u"), 0x13: (4, "u"),
         0x14: (8, "s"), 0x15: (8, "u")}
OFFSETS = (0x08, 0x2002, 0x2003, 0x2004, 0x2005, 0x2008, 0x200b, 0x2010,
           0x2011, 0x2012, 0x2013, 0x2014, 0x2015)


# What a format says, read with no help of the code.

def part(data, offset, size):
    if offset < 0 or size < 0 or offset + size > len(data):
        raise lib.Reject("truncated")
    return data[offset:offset + size]


def u16(data, offset):
    return lib.uint(data, offset, 2)


def u32(data, offset):
    return lib.uint(data, offset, 4)


def text_until_zero(data, offset, encoding):
    end = offset
    while True:
        if end >= len(data):
            raise lib.Reject("unterminated")
        if data[end] == 0:
            break
        if encoding == "ascii":
            if data[end] >= 0x80:
                raise lib.Reject("not ASCII")
        elif data[end] in CODEPAGE_GAPS:
            raise lib.Reject("not in the codepage")
        end = end + 1
    return data[offset:end].decode(encoding)


def cim_string(data, offset):
    return text_until_zero(data, offset + 1, "cp1252")


def fixed_value(kind, data, offset):
    size, sign = FIXED[kind]
    content = part(data, offset, size)
    if sign == "u":
        return lib.uint(content, 0, size)
    if sign == "s":
        return lib.sint(content, 0, size)
    if sign == "f":
        return struct.unpack("<f" if size == 4 else "<d", content)[0]
    number = lib.uint(content, 0, 2)
    if number == 0:
        return False
    if number == 0xffff:
        return True
    raise lib.Unspecified("boolean")


def name_of(offset, values):
    if offset >= 0x80000000:
        index = offset - 0x80000000
        for number, name in NAMES.items():
            if index == number:
                return name
        return f"UNKNOWN_{index:d}"
    return cim_string(values, offset)


def put(items, name, value):
    for index, (other, _) in enumerate(items):
        if other == name:
            items[index] = (other, value)
            return
    items.append((name, value))


def get(items, name):
    for other, value in items:
        if other == name:
            return value
    return None


def qualifiers(data, values):
    found = []
    offset = 0
    while offset < len(data):
        name_offset = u32(data, offset)
        kind = u32(data, offset + 5)
        part(data, offset, 9)
        value_offset = offset + 9
        value = None
        for known in FIXED:
            if kind == known:
                value = fixed_value(known, data, value_offset)
                size = FIXED[known][0]
                break
        else:
            for known in OFFSETS:
                if kind == known:
                    size = 4
                    break
            else:
                raise lib.Unspecified("type of qualifier")
            position = u32(data, value_offset)
            name = name_of(name_offset, values)
            if kind == 8:
                value = cim_string(values, position)
        name = name_of(name_offset, values)
        put(found, name.lower(), value)
        offset = value_offset + size
    return found


class Definition:
    """A class definition block."""

    def __init__(self, data):
        name_offset = u32(data, 1)
        default_size = u32(data, 5)
        super_size = u32(data, 9)
        super_data = part(data, 13, super_size - 4)
        offset = 13 + super_size - 4
        block_size = u32(data, offset)
        block = part(data, offset + 4, block_size - 4)
        offset = offset + block_size
        number_of = u32(data, offset)
        offset = offset + 4
        part(data, offset, 8 * number_of)
        descriptors = []
        for index in range(number_of):
            descriptors.append((u32(data, offset + 8 * index),
                                u32(data, offset + 8 * index + 4)))
        offset = offset + 8 * number_of
        part(data, offset, default_size)
        offset = offset + default_size
        values_size = u32(data, offset) & 0x7fffffff
        values = part(data, offset + 4, values_size)
        self.name = cim_string(values, name_offset)
        self.super_name = None
        if super_size > 4:
            self.super_name = cim_string(super_data, 0)
        self.qualifiers = qualifiers(block, values)
        self.properties = []
        for name_offset, offset in descriptors:
            name = name_of(name_offset, values)
            kind = u32(values, offset)
            index = u16(values, offset + 4)
            value_offset = u32(values, offset + 6)
            size = u32(values, offset + 14)
            found = qualifiers(part(values, offset + 18, size - 4), values)
            put(self.properties, name, (name, kind, index, value_offset,
                                        found))


class ValueMap:
    """Where the values of an instance of a class are, base class first."""

    def __init__(self, definitions):
        self.name = definitions[-1].name
        self.derivation = [x.name for x in definitions[-2::-1]]
        self.properties = []
        largest = None
        self.size = 0
        for definition in definitions:
            for name, (_, kind, _, offset, found) in definition.properties:
                qualifier = get(found, "type")
                if not qualifier:
                    if get(self.properties, name.lower()) is None:
                        raise lib.Reject("no type")
                    continue
                if not isinstance(qualifier, str):
                    raise lib.Reject("type is not a string")
                put(self.properties, name.lower(), (name, kind, offset))
                if largest is None or largest < offset:
                    largest = offset
                    self.size = offset + FIXED.get(kind, (4, ""))[0]


def instance_values(value_map, data):
    bits = (len(value_map.properties) + 3) // 4
    class_name_offset = u32(data, 0)
    fixed = part(data, 5 + bits, value_map.size)
    offset = 5 + bits + value_map.size
    block_size = u32(data, offset)
    part(data, offset + 4, block_size - 4)
    offset = offset + block_size
    kind = lib.uint(data, offset, 1)
    if kind not in (1, 2):
        raise lib.Reject("dynamic block type")
    offset = offset + 1
    if kind == 2:
        number_of = u32(data, offset)
        offset = offset + 4
        index = 0
        while index < number_of:
            size = u32(data, offset)
            part(data, offset + 4, size - 4)
            offset = offset + size
            index += 1
    u32(data, offset)
    values = data[offset + 4:]
    name = cim_string(values, class_name_offset)
    found = []
    for _, (property_name, kind, offset) in value_map.properties:
        value = None
        if kind in FIXED:
            value = fixed_value(kind, fixed, offset)
        else:
            position = u32(fixed, offset)
            if kind in (8, 0x65, 0x66):
                if position > 0:
                    value = cim_string(values, position)
            elif kind == 0x2008:
                if position > 0:
                    number_of = u32(values, position)
                    part(values, position + 4, 4 * number_of)
                    value = []
                    for index in range(number_of):
                        value.append(cim_string(values, u32(
                            values, position + 4 + 4 * index)))
        put(found, property_name, value)
    return name, found


MAP_ENTRY = [("    Page number", 4, lambda x: (
    "0xffffffff (unavailable)" if x == 0xffffffff else f"{x:d}"))] + [
        (f"    Unknown{index}", 4, "x8") for index in range(1, 6)]


class Mapping:
    """A mapping file."""

    def __init__(self, data, out=None):
        self.out = [] if out is None else out
        self.version = 2
        self.header(data, 0)
        self.version = 2 if u32(data, 8) == u32(data, 12) + 1 else 1
        self.sequence = u32(data, 4)
        self.tables = []
        table, offset = self.table(data, self.header(data, 0))
        self.tables.append(table)
        if self.version == 2 or offset < len(data):
            try:
                offset = self.header(data, offset)
            except lib.Reject:
                if self.version == 2:
                    raise
                return
            table, offset = self.table(data, offset)
            self.tables.append(table)

    def header(self, data, offset):
        size = 12 if self.version == 1 else 20
        if u32(data, offset) != 0xabcd:
            raise lib.Reject("signature")
        unknown = [("Unknown1", 4, "x8"), ("Unknown2", 4, "x8")]
        lib.layout(self.out, data, offset, [
            ("Signature", 4, "x8"), ("Sequence number", 4, "d"),
            *(unknown if self.version == 2 else []),
            ("Number of pages", 4, "d")])
        return offset + size

    def table(self, data, offset):
        size = 4 if self.version == 1 else 24
        number_of = u32(data, offset)
        part(data, offset + 4, size * number_of)
        table = [u32(data, offset + 4 + size * index)
                 for index in range(number_of)]
        self.out.append("Mapping table:\n")
        self.out.append(lib.line("  Number of entries", f"{number_of:d}"))
        self.out.append("\n")
        for index in range(number_of):
            self.out.append(f"  Entry: {index:d}:\n")
            lib.layout(self.out, data, offset + 4 + size * index,
                       MAP_ENTRY[:size // 4])
        self.out.append("\n")
        offset = offset + 4 + size * number_of
        number_of = u32(data, offset)
        part(data, offset + 4, 4 * number_of)
        self.out.append("Unknown table:\n")
        self.out.append(lib.line("  Number of entries", f"{number_of:d}"))
        for index in range(number_of):
            self.out.append(lib.line(
                f"  Entry: {index:d} page number",
                MAP_ENTRY[0][2](u32(data, offset + 4 + 4 * index))))
        self.out.append("\n")
        offset = offset + 4 + 4 * number_of
        if u32(data, offset) != 0xdcba:
            raise lib.Reject("footer")
        lib.layout(self.out, data, offset, [("Signature", 4, "x8")])
        return table, offset + 4

    def objects(self):
        return self.tables[0]

    def index(self):
        return self.tables[-1]


def settled(value):
    """A small number, one case after the other."""
    for known in range(16):
        if value == known:
            return known
    return value


def resolve(table, number_of):
    number_of = settled(number_of)
    if number_of < 0 or number_of >= len(table):
        raise lib.Reject("page number")
    return settled(table[number_of])


class IndexPage:
    """A page of an index file."""

    def __init__(self, data, number_of):
        data = part(data, PAGE * number_of, PAGE)
        self.kind = u32(data, 0)
        self.root = u32(data, 12)
        self.keys = []
        self.sub_pages = []
        if self.kind != 0xaccc:
            return
        many = u32(data, 16)
        part(data, 20, 10 * many + 4)
        offset = 20 + 4 * many
        for index in range(many + 1):
            sub_page = u32(data, offset + 4 * index)
            if sub_page not in (0, 0xffffffff):
                self.sub_pages.append(sub_page)
        offset = offset + 4 * (many + 1)
        key_offsets = [u16(data, offset + 2 * index)
                       for index in range(many)]
        offset = offset + 2 * many
        size = 2 * u16(data, offset)
        key_data = part(data, offset + 2, size)
        offset = offset + 2 + size
        number_of_values = u16(data, offset)
        part(data, offset + 2, 2 * number_of_values)
        value_offsets = [u16(data, offset + 2 + 2 * index)
                         for index in range(number_of_values)]
        offset = offset + 2 + 2 * number_of_values
        value_data = part(data, offset + 2, u16(data, offset))
        segments = []
        for key_offset in key_offsets:
            length = u16(key_data, 2 * key_offset)
            part(key_data, 2 * key_offset + 2, 2 * length)
            segments.append([u16(key_data, 2 * (key_offset + 1 + index))
                             for index in range(length)])
        values = [text_until_zero(value_data, value_offset, "ascii")
                  for value_offset in value_offsets]
        for indexes in segments:
            for index in indexes:
                if index >= len(values):
                    raise lib.Reject("segment")
            self.keys.append("".join("\\" + values[index]
                                     for index in indexes) or "\\")


def descriptors(data, number_of):
    """The object descriptors of a page."""
    offset = PAGE * number_of
    found = []
    while True:
        content = part(data, offset, 16)
        if content == bytes(16):
            return found
        found.append((u32(content, 0), u32(content, 4), u32(content, 8)))
        offset = offset + 16


def find_file(files, folder, name):
    for path in files:
        if path.lower() == f"{folder}/{name}".lower():
            return files[path]
    return None


def name_hash(version, name):
    data = name.upper().encode("utf-16-le")
    if version == "2.1":
        return hashlib.md5(data).hexdigest()
    return hashlib.sha256(data).hexdigest()


class Repository:
    """A repository of version 2.1 or 2.2."""

    COMMON = ("ROOT",)

    def __init__(self, files, path):
        folder, _, name = path.rpartition("/")
        self.index_only = name.lower() == "index.btr"
        if not self.index_only:
            folder = path
        index_mapping = self.mapping(files, folder, "index.map")
        active = None
        if index_mapping is None:
            active = self.active(files, folder)
            index_mapping = active
        if index_mapping is None:
            raise lib.Reject("mapping file")
        self.index_table = index_mapping.index()
        self.version = "2.1" if index_mapping.version == 1 else "2.2"
        self.index_data = find_file(files, folder, "index.btr")
        self.definitions = {}
        if self.index_only:
            return
        objects_mapping = self.mapping(files, folder, "objects.map")
        if objects_mapping is None:
            objects_mapping = active or self.active(files, folder)
        if objects_mapping is None:
            raise lib.Reject("mapping file")
        self.objects_table = objects_mapping.objects()
        self.objects_data = find_file(files, folder, "objects.data")
        for kind, name, values in self.records():
            if kind == "CD":
                self.definitions[name] = self.definition(
                    self.record(*values))

    def mapping(self, files, folder, name):
        data = find_file(files, folder, name)
        return None if data is None else Mapping(data)

    def active(self, files, folder):
        version = find_file(files, folder, "mapping.ver")
        if version is not None:
            u32(version, 0)
        best = None
        for number_of in (1, 2, 3):
            other = self.mapping(files, folder, f"mapping{number_of}.map")
            if other is not None and (
                    best is None or other.sequence > best.sequence):
                best = other
        return best

    def page(self, number_of):
        if self.index_data is None or PAGE * number_of >= len(
                self.index_data):
            return None
        return IndexPage(self.index_data, number_of)

    def keys(self):
        if self.index_data is None:
            return []
        root = 1
        if self.version == "2.1":
            first = self.page(resolve(self.index_table, 0))
            if first is None or first.kind != 0xaddd:
                raise NotFound("first page")
            root = first.root
        found = []
        seen = []
        # Pages to read, in order.
        self.walk(self.page(resolve(self.index_table, root)), found, seen)
        return found

    def walk(self, page, found, seen):
        if page is None:
            return
        found.extend(page.keys)
        for number_of in page.sub_pages:
            if number_of in seen:
                raise lib.Reject("recursive")
            seen.append(number_of)
            self.walk(self.page(resolve(self.index_table, number_of)), found,
                      seen)

    def records(self):
        for key in self.keys():
            values = self.record_values(key.split("\\")[-1])
            if values is not None:
                yield values

    def record_values(self, segment):
        fields = segment.split(".")
        if len(fields) != 4:
            return None
        kind, _, name = fields[0].partition("_")
        values = []
        for field in fields[1:]:
            if not field.isdigit():
                return None
            values.append(settled(int(field, 10)))
        return kind, name.lower(), values

    def record(self, page_number, identifier, size):
        if self.objects_data is None:
            raise NotFound("objects file")
        data = b""
        first = True
        while size > 0:
            physical = resolve(self.objects_table, page_number)
            if PAGE * physical >= len(self.objects_data):
                raise lib.Reject("page")
            offset = 0
            if first:
                first = False
                for other, position, length in descriptors(
                        self.objects_data, physical):
                    if other == identifier:
                        break
                else:
                    raise lib.Reject("no descriptor")
                if length != size:
                    raise lib.Reject("size")
                offset = position
                if offset >= PAGE:
                    raise lib.Reject("offset")
            length = min(size, PAGE - offset)
            data += part(self.objects_data, PAGE * physical + offset, length)
            size -= length
            page_number += 1
        return data

    def definition(self, data):
        length = u32(data, 0)
        part(data, 4, 2 * length)
        data[4:4 + 2 * length].decode("utf-16-le")
        offset = 4 + 2 * length + 8
        size = u32(data, offset)
        return Definition(part(data, offset + 4, size - 4))

    def by_name(self, name):
        return self.definitions.get(name_hash(self.version, name))

    def value_map(self, class_hash):
        definition = self.definitions.get(class_hash.lower())
        if definition is None:
            raise NotFound("class")
        chain = [definition]
        while definition.super_name:
            definition = self.by_name(definition.super_name)
            if definition is None:
                raise NotFound("super class")
            if definition in chain:
                raise lib.Reject("recursive")
            chain.append(definition)
        return ValueMap(chain[::-1])

    def instance(self, data):
        size = 64 if self.version == "2.1" else 128
        class_hash = part(data, 0, size).decode("utf-16-le")
        length = u32(data, size + 16)
        content = part(data, size + 20, length - 4)
        value_map = self.value_map(class_hash)
        _, found = instance_values(value_map, content)
        derivation = value_map.derivation
        return {"class_name": value_map.name, "namespace": None,
                "derivation": derivation,
                "super_class_name": derivation[0] if derivation else None,
                "properties": found}

    def instances(self):
        for kind, _, values in self.records():
            if kind in ("I", "IL"):
                yield self.instance(self.record(*values))

    def namespaces(self):
        by_parent = {}
        seen = []
        for key in self.keys():
            segments = key.split("\\")
            if len(segments) < 3 or segments[1][:3] != "NS_":
                continue
            class_hash = segments[2].partition("_")[2].lower()
            if class_hash != name_hash(self.version, "__NAMESPACE"):
                continue
            values = self.record_values(segments[-1])
            if (values is None or values[0] not in ("I", "IL")
                    or values[2][:2] in seen):
                continue
            seen.append(values[2][:2])
            by_parent.setdefault(segments[1][3:].lower(), []).append(
                self.instance(self.record(*values[2])))
        found = []
        names = list(self.COMMON)
        while names:
            parent = names.pop(0)
            for instance in by_parent.pop(
                    name_hash(self.version, parent), []):
                name = get(instance["properties"], "Name")
                if name:
                    instance["namespace"] = f"{parent}\\{name}"
                    found.append(instance)
                    names.append(instance["namespace"])
        return found


class NotFound(Exception):
    """A class or file that is needed does not exist."""


def plain(value):
    """Text of a floating-point value: not a number equals itself."""
    return f"{value!r}" if isinstance(value, float) else value


# What the reader says.

def definition_of(definition):
    return {
        "name": definition.name, "super": definition.super_class_name,
        "qualifiers": [(k, plain(v))
                       for k, v in definition.qualifiers.items()],
        "properties": [
            (name, (x.name, x.value_data_type, x.index, x.value_data_offset,
                    [(k, plain(v)) for k, v in x.qualifiers.items()]))
            for name, x in definition.properties.items()]}


def instance_of(instance):
    return {
        "class_name": instance.class_name, "namespace": instance.namespace,
        "derivation": getattr(instance, "derivation", None),
        "super_class_name": getattr(instance, "super_class_name", None),
        "properties": list(instance.properties.items())}


def collect(function):
    """What a generator gives, and how it ends."""
    found = []
    try:
        for item in function():
            found.append(item)
    except Exception as exception:
        return found, ("raise", lib.exception_name(exception))
    return found, ("ok", None)


def expect(function):
    """The same of a reference."""
    found = []
    try:
        for item in function():
            found.append(item)
    except lib.Reject:
        return found, ("raise", "ParseError")
    except NotFound:
        return found, ("raise", "RuntimeError")
    return found, ("ok", None)


def check_instance(env, name, got, want):
    for attribute in sorted(want):
        if attribute == "properties":
            env.check(f"{name} names of properties",
                      [x[0] for x in got[attribute]],
                      [x[0] for x in want[attribute]])
            for (_, left), (key, right) in zip(
                    got[attribute], want[attribute]):
                env.check(f"{name} {key!s}", plain(left), plain(right))
                env.check(f"{name} {key!s} type", type(left).__name__,
                          type(right).__name__)
        else:
            env.check(f"{name} {attribute}", got[attribute], want[attribute])


def debugs(env, check):
    for debug in (False, True):
        check("debug" if debug else "quiet", debug)


# Classes and instances.

def run_definition(env, base, holes, size=None, limits=(), before=()):
    """A class definition block."""
    data = lib.fill(env, base, holes, size, limits)
    try:
        want = ("ok", Definition(data))
    except lib.Reject:
        want = ("raise", "ParseError")
    except lib.Unspecified:
        want = None
    for debug in (False, True):
        name = "debug" if debug else "quiet"
        with lib.use_hexdump(env):
            definition = wmi_repository.ClassDefinition(
                debug=debug, output_writer=lib.Writer())
            result = lib.outcome(definition.ReadClassDefinitionBlock, data)
            if result[0] == "ok" and debug:
                env.check("printed", lib.outcome(definition.DebugPrint)[0],
                          "ok")
        if want is None:
            env.check(f"{name} handled", lib.handled(result), True)
            env.reach("unspecified")
            continue
        env.check(f"{name} outcome", result[0], want[0])
        if want[0] != "ok":
            env.check(f"{name} error", result, want)
            env.reach("raise")
            continue
        got = definition_of(definition)
        reference = want[1]
        env.check(f"{name} name", got["name"], reference.name)
        env.check(f"{name} super", got["super"], reference.super_name)
        env.check(f"{name} qualifiers", got["qualifiers"],
                  [(k, plain(v)) for k, v in reference.qualifiers])
        env.check(f"{name} properties", got["properties"], [
            (key, (*found[:4], [(k, plain(v)) for k, v in found[4]]))
            for key, found in reference.properties])
        env.reach("ok")


def instance_runner(blocks):
    """An instance of a class with these definitions, base class first."""

    def run(env, base, holes, size=None, limits=()):
        data = lib.fill(env, base, holes, size, limits)
        definitions = []
        for block in blocks:
            definition = wmi_repository.ClassDefinition()
            definition.ReadClassDefinitionBlock(block)
            definitions.append(definition)
        value_map = wmi_repository.ClassValueDataMap()
        result = lib.outcome(value_map.Build, definitions)
        reference = None
        try:
            reference = ValueMap([Definition(block) for block in blocks])
        except lib.Reject:
            env.check("class", result, ("raise", "ParseError"))
            env.reach("raise")
            return
        env.check("class", result, ("ok", None))
        try:
            class_name, found = instance_values(reference, data)
            want = ("ok", None)
        except lib.Reject:
            want = ("raise", "ParseError")
        except lib.Unspecified:
            want = None
        for debug in (False, True):
            name = "debug" if debug else "quiet"
            with lib.use_hexdump(env):
                instance = wmi_repository.Instance(
                    debug=debug, output_writer=lib.Writer())
                result = lib.outcome(instance.ReadInstanceBlockData,
                                     value_map, data)
                if result[0] == "ok" and debug:
                    env.check("printed", lib.outcome(instance.DebugPrint)[0],
                              "ok")
            if want is None:
                env.check(f"{name} handled", lib.handled(result), True)
                env.reach("unspecified")
                continue
            env.check(f"{name} outcome", result, want)
            if want[0] == "ok":
                check_instance(env, name, instance_of(instance), {
                    "class_name": class_name, "properties": found})
            env.reach(want[0])

    return run


# Files to start from.

def number(value, size=4):
    return value.to_bytes(size, "little")


def cim(text):
    return b"\0" + text.encode("cp1252") + b"\0"


class Heap:
    """Values that others refer to."""

    def __init__(self, data=b""):
        self.data = data

    def add(self, data):
        offset = len(self.data)
        self.data += data
        return offset

    def name(self, name):
        if isinstance(name, int):
            return 0x80000000 | name
        return self.add(cim(name))


def stored(kind, value):
    size, sign = FIXED[kind]
    if sign == "f":
        return struct.pack("<f" if size == 4 else "<d", value)
    if sign == "b":
        return number(0xffff if value else 0, 2)
    return value.to_bytes(size, "little", signed=sign == "s")


def qualifier_block(heap, items):
    data = b""
    for name, kind, value in items:
        data += number(heap.name(name)) + b"\0" + number(kind)
        if kind in FIXED:
            data += stored(kind, value)
        elif kind == 8:
            data += number(heap.add(cim(value)))
        else:
            data += number(value)
    return data


def block(data):
    return number(len(data) + 4) + data


def class_block(name, super_name=None, class_qualifiers=(), properties=(),
                default=b"", flag=0):
    heap = Heap()
    name_offset = heap.add(cim(name))
    class_data = qualifier_block(heap, class_qualifiers)
    entries = b""
    for index, (property_name, kind, offset, items) in enumerate(properties):
        property_offset = heap.name(property_name)
        data = qualifier_block(heap, items)
        definition = (number(kind) + number(index, 2) + number(offset)
                      + number(1) + block(data))
        entries += number(property_offset) + number(heap.add(definition))
    return b"".join((
        b"\0", number(name_offset), number(len(default)),
        block(cim(super_name) if super_name else b""), block(class_data),
        number(len(properties)), entries, default,
        number(len(heap.data) | flag), heap.data))


def typed(name):
    return [(10, 8, name)]


def instance_block(value_map, values, class_name, dynamic=None,
                   block_qualifiers=b""):
    heap = Heap(b"\0")
    name_offset = heap.add(cim(class_name))
    fixed = bytearray(value_map.size)
    for name, (_, kind, offset) in value_map.properties:
        value = values.get(name)
        if kind in FIXED:
            content = stored(kind, value or 0)
        elif value is None:
            content = number(0)
        elif isinstance(value, str):
            content = number(heap.add(cim(value)))
        else:
            places = [heap.add(cim(x)) for x in value]
            content = number(heap.add(number(len(places)) + b"".join(
                number(x) for x in places)))
        fixed[offset:offset + len(content)] = content
    data = number(name_offset) + b"\0"
    data += bytes((len(value_map.properties) + 3) // 4) + bytes(fixed)
    data += block(block_qualifiers)
    if dynamic is None:
        data += b"\1"
    else:
        data += b"\2" + number(len(dynamic)) + b"".join(
            block(x) for x in dynamic)
    return data + number(0) + heap.data


KINDS = {2: "sint16", 3: "sint32", 4: "real32", 5: "real64", 0x0b: "boolean",
         0x10: "sint8", 0x11: "uint8", 0x12: "uint16", 0x13: "uint32",
         0x14: "sint64", 0x15: "uint64", 8: "string", 0x65: "datetime",
         0x66: "ref:Other", 0x2008: "string", 0x2013: "uint32",
         0x0d: "object", 0x67: "char16"}


def kind_class(kind):
    """A class with a property of this type after another."""
    return class_block("Any", properties=[
        ("First", 0x11, 0, typed("uint8")),
        ("Value", kind, 1, typed(KINDS[kind]))])


def _register_objects():
    family = lib.Family(REGISTRY, "C35", "class", run_definition)
    plain = class_block("Thing", "Base", [
        ("Abstract", 0x0b, True), ("Locale", 3, -1033)], [
            ("Name", 8, 4, typed("string") + [(1, 0x0b, True)]),
            ("Size", 0x13, 0, typed("uint32"))], default=b"\1\2\3")
    for offset in range(len(plain)):
        if plain[offset] == 0 and plain[offset + 1:offset + 4] != bytes(3):
            family.holes(f"byte-{offset}", plain, [(offset, 1)],
                         tier="thorough" if offset % 3 else "quick")
            continue
        letter = chr(plain[offset]).isalpha()
        most = 0x7f if letter else 0x20
        family.holes(f"byte-{offset}", plain, [(offset, 1)],
                     limits=[(offset, 0, most)],
                     tier="thorough" if letter and offset % 3 else "quick")
        family.holes(f"any-byte-{offset}", plain, [(offset, 1)],
                     tier="thorough")
    for size in list(range(0, 40)) + [len(plain) - 2, len(plain) - 1]:
        family.holes(f"cut-{size}", plain, [], size=size,
                     bounds=f"cut to {size} bytes",
                     tier="thorough" if size % 4 else "quick")
    small = class_block("C", properties=[("P", 0x13, 0, typed("uint32"))])
    for offset in (1, 5, 9, 13, 17, 21, 25, 29):
        family.holes(f"small-{offset}", small, [(offset, 4)])
    values = 33
    for offset in range(values, len(small) - 1, 2):
        family.holes(f"value-{offset}", small, [(offset, 1), (
            offset + 1, 1)], limits=[(offset, 0, 0x7f),
                                     (offset + 1, 0, 0x7f)])
    family.holes("flag", class_block("C", flag=0x80000000), [(21, 1)])
    family.holes("names", class_block("AbC"), [(26, 3)])
    for kind in list(FIXED) + list(OFFSETS) + [0x65, 0]:
        value = "v" if kind == 8 else 1
        if kind in FIXED or kind == 8:
            data = class_block("C", class_qualifiers=[("Q", kind, value),
                                                      (4, 0x0b, True)])
        else:
            data = class_block("C", class_qualifiers=[("Q", kind, 7),
                                                      (4, 0x0b, True)])
        width = FIXED.get(kind, (4,))[0]
        family.holes(f"qualifier-{kind:x}-kind", data, [(26, 1)])
        if FIXED.get(kind, (0, ""))[1] != "f":
            family.holes(f"qualifier-{kind:x}-value", data,
                         [(30, 1), (29 + width, 1)] if width > 1
                         and kind in FIXED else [(30, 1)])
    family.holes("qualifier-name", class_block("C", class_qualifiers=[
        (1, 0x0b, True), (3, 0x0b, False)]), [(21, 1), (24, 1)],
                 limits=[(24, 0x80, 0x80)])
    family.holes("qualifier-again", class_block("C", class_qualifiers=[
        ("Qualifier", 0x11, 1), ("qualifieR", 0x11, 2)]), [(30, 1)])
    for number_of in (0, 1, 3, 4, 5, 6):
        family.holes(f"properties-{number_of}", class_block(
            "C", properties=[(f"P{index}", 0x11, index, typed("uint8"))
                             for index in range(number_of)]), [(0, 1)])

    for kind in KINDS:
        definition = kind_class(kind)
        value_map = ValueMap([Definition(definition)])
        value = {8: "text", 0x65: "20200101000000.000000+000",
                 0x66: "\\\\.\\root:A", 0x2008: ["one", "two"]}.get(kind, 1)
        if kind not in FIXED and kind not in (8, 0x65, 0x66, 0x2008):
            value = None
        if kind in (4, 5):
            value = 1.5
        data = instance_block(value_map, {"value": value}, "Any")
        family = lib.Family(REGISTRY, "C35", f"value-{kind:x}",
                            instance_runner([definition]))
        width = FIXED.get(kind, (4,))[0]
        if kind in FIXED and kind not in (4, 5):
            family.holes("value", data, [(7, width)])
        elif kind in (4, 5):
            family.holes("value", data, [(6, 1)])
        else:
            family.holes("offset", data, [(7, 1)])
            family.holes("far", data, [(8, 1)])
        family.holes("name", data, [(0, 1)])
        end = 7 + width
        family.holes("block", data, [(end, 1)])
        family.holes("dynamic", data, [(end + 4, 1)])
        for index, offset in enumerate(range(end + 9, len(data), 3)):
            family.holes(f"heap-{offset}", data, [(
                offset, min(3, len(data) - offset))],
                         tier="thorough" if index % 2 else "quick")
        for size in (0, 4, 6, 7, 8, end, end + 3, end + 4, end + 8, end + 9,
                     len(data) - 1):
            family.holes(f"cut-{size}", data, [], size=size,
                         bounds=f"cut to {size} bytes", tier="quick"
                         if size in (end, end + 9) else "thorough")

    for number_of in (1, 2, 4, 5, 8, 9):
        definition = class_block("Many", properties=[
            (f"P{index}", 0x12, 2 * index, typed("uint16"))
            for index in range(number_of)])
        value_map = ValueMap([Definition(definition)])
        data = instance_block(value_map, {
            f"p{index}": 258 + index for index in range(number_of)}, "Many")
        family = lib.Family(REGISTRY, "C35", f"many-{number_of}",
                            instance_runner([definition]))
        family.holes("last", data, [(
            5 + (number_of + 3) // 4 + 2 * number_of - 2, 2)])
        family.holes("bits", data, [(5, 1), (5 + (number_of + 3) // 4, 1)])

    base = class_block("Base", properties=[
        ("Id", 0x13, 0, typed("uint32")), ("Text", 8, 4, typed("string"))])
    middle = class_block("Middle", "Base", properties=[
        ("Flag", 0x0b, 8, typed("boolean")), ("Id", 0x13, 0, [])])
    top = class_block("Top", "Middle", properties=[
        ("TEXT", 8, 4, typed("string")), ("More", 0x10, 10,
                                          typed("sint8"))])
    for name, blocks in (("two", [base, middle]),
                         ("three", [base, middle, top]),
                         ("missing", [middle, top])):
        try:
            value_map = ValueMap([Definition(x) for x in blocks])
        except lib.Reject:
            value_map = ValueMap([Definition(base)])
        data = instance_block(value_map, {
            "id": 7, "text": "abc", "flag": True, "more": -3}, "X")
        family = lib.Family(REGISTRY, "C35", f"derived-{name}",
                            instance_runner(blocks))
        for offset in range(5, 30):
            family.holes(f"byte-{offset}", data, [(offset, 1)], tier="quick"
                         if offset % 2 or name == "three" else "thorough")
        family.holes("values", data, [(6, 4), (14, 2), (16, 1)])
    family = lib.Family(REGISTRY, "C35", "no-string-type", instance_runner([
        class_block("C", properties=[("P", 0x11, 0, [(10, 0x11, 1)])])]))
    family.holes("any", bytes(32), [(0, 1)])
    family = lib.Family(REGISTRY, "C35", "no-type", instance_runner([
        class_block("C", properties=[("P", 0x11, 0, [])])]))
    family.holes("any", bytes(32), [(0, 1)])
    definition = kind_class(0x13)
    value_map = ValueMap([Definition(definition)])
    family = lib.Family(REGISTRY, "C35", "dynamic",
                        instance_runner([definition]))
    for entries in ([], [b""], [b"abc"], [b"a", b"bcd"]):
        data = instance_block(value_map, {"value": 5}, "Any", entries,
                              b"QQ")
        name = "-".join(str(len(x)) for x in entries) or "none"
        family.holes(f"{name}-value", data, [(7, 4)])
        for offset in range(11, 17 + 4 + sum(4 + len(x) for x in entries)):
            family.holes(f"{name}-{offset}", data, [(offset, 1)])


_register_objects()


# Mapping files.

def mapping_table(version, numbers, extra=(), sequence=7, signature=0xabcd):
    """One header, mapping table, table of unknown use and footer."""
    data = number(signature) + number(sequence)
    if version == 1:
        data += number(0x30)
    else:
        data += number(0x41) + number(0x40) + number(0x30)
    data += number(len(numbers))
    for value in numbers:
        data += number(value)
        if version == 2:
            data += bytes(range(1, 21))
    data += number(len(extra)) + b"".join(number(x) for x in extra)
    return data + number(0xdcba)


def mapping_decoder(out, data):
    mapping = Mapping(data, out)
    return (mapping.version, mapping.sequence,
            [list(x) for x in (mapping.objects(), mapping.index())])


def resolved(table):
    """Every page number of a mapping table; the next one is refused."""
    found = []
    while True:
        result = lib.outcome(table.ResolveMappedPageNumber, len(found))
        if result[0] != "ok":
            break
        found.append(result[1])
    if result != ("raise", "ParseError"):
        return result
    if lib.outcome(table.ResolveMappedPageNumber, -1) != result:
        return "negative"
    return found


def mapping_observe(reader):
    return (reader.format_version, reader.sequence_number,
            [resolved(reader.GetObjectsMappingTable()),
             resolved(reader.GetIndexMappingTable())])


run_mapping = lib.file_runner(
    lambda debug, writer: wmi_repository.MappingFile(
        debug=debug, output_writer=writer),
    mapping_decoder, observe=mapping_observe, path="/m")


# Index files.

def index_page(keys=(), sub_pages=None, root=0, kind=0xaccc, mapped=9):
    """A page with these keys, each a list of segments."""
    data = number(kind) + number(mapped) + number(0) + number(root)
    if kind == 0xaccc:
        values = []
        for key in keys:
            values.extend(x for x in key if x not in values)
        places = []
        key_data = b""
        for key in keys:
            places.append(len(key_data) // 2)
            key_data += number(len(key), 2) + b"".join(
                number(values.index(x), 2) for x in key)
        value_places = []
        value_data = b""
        for value in values:
            value_places.append(len(value_data))
            value_data += value.encode("ascii") + b"\0"
        if sub_pages is None:
            sub_pages = [0xffffffff] * (len(keys) + 1)
        data += number(len(keys)) + b"".join(
            number(0x21) for _ in keys)
        data += b"".join(number(x) for x in sub_pages)
        data += b"".join(number(x, 2) for x in places)
        data += number(len(key_data) // 2, 2) + key_data
        data += number(len(value_places), 2) + b"".join(
            number(x, 2) for x in value_places)
        data += number(len(value_data), 2) + value_data
    return data + bytes(PAGE - len(data))


def run_index(env, base, holes, size=None, limits=(), page=0):
    """The pages of an index file."""
    data = lib.fill(env, base, holes, size, limits)
    want = ("ok", None)
    if PAGE * page < len(data):
        try:
            want = ("ok", IndexPage(data, page))
        except lib.Reject:
            want = ("raise", "ParseError")
    for debug in (False, True):
        name = "debug" if debug else "quiet"
        with lib.use_hexdump(env), lib.use_files({"/i": data}):
            reader = wmi_repository.IndexBinaryTreeFile(
                debug=debug, output_writer=lib.Writer())
            result = lib.outcome(reader.Open, "/i")
            if debug:
                # Reads every page already.
                env.check("debug open", lib.handled(result), True)
                if result[0] != "ok":
                    continue
            else:
                env.check("open", result, ("ok", None))
            result = lib.outcome(reader.GetPage, page)
            if want[0] == "ok" and want[1] is not None:
                env.check(f"{name} outcome", result[0], "ok")
                found = result[1]
                env.check(f"{name} page", (
                    found.page_type, found.keys, found.sub_pages),
                          (want[1].kind, want[1].keys, want[1].sub_pages))
                if want[1].kind == 0xaddd:
                    env.check(f"{name} root", found.root_page_number,
                              want[1].root)
            else:
                env.check(f"{name} outcome", result, want)
            env.check(f"{name} close", lib.outcome(reader.Close),
                      ("ok", None))
    env.reach(want[0])


# Objects data files.

def object_page(records, first=None):
    """A page with these (identifier, data) records."""
    offset = 16 * (len(records) + 1) if first is None else first
    data = b""
    heap = b""
    for identifier, content in records:
        size = len(content) if isinstance(content, bytes) else content
        data += (number(identifier) + number(offset + len(heap))
                 + number(size) + number(0x99))
        if isinstance(content, bytes):
            heap += content
    data += bytes(16)
    data += bytes(max(0, offset - len(data))) + heap
    return data[:PAGE] + bytes(max(0, PAGE - len(data)))


def run_objects(env, base, holes, size=None, limits=(), page=0,
                identifier=1, record_size=4):
    """The record of one identifier on one page."""
    data = lib.fill(env, base, holes, size, limits)
    if PAGE * page >= len(data):
        want = ("ok", None)
    else:
        want = ("ok", "page")
        place = None
        try:
            for other, position, length in descriptors(data, page):
                if other == identifier:
                    if length == record_size:
                        place = position
                    break
        except lib.Reject:
            want = ("raise", "ParseError")
    for debug in (False, True):
        name = "debug" if debug else "quiet"
        with lib.use_hexdump(env), lib.use_files({"/o": data}):
            reader = wmi_repository.ObjectsDataFile(
                debug=debug, output_writer=lib.Writer())
            env.check(f"{name} open", lib.outcome(reader.Open, "/o"),
                      ("ok", None))
            result = lib.outcome(reader.GetPage, page, False)
            if want != ("ok", "page"):
                env.check(f"{name} page", result, want)
                env.reach(want[0])
                continue
            env.check(f"{name} page", result[0], "ok")
            found = result[1].GetObjectDescriptor(identifier, record_size)
            env.check(f"{name} found", found is None, place is None)
            if place is None:
                env.reach("none")
                continue
            env.check(f"{name} place", found.data_offset, place)
            if place >= PAGE:
                result = lib.outcome(
                    reader.ReadObjectRecordDataSegment, result[1], place,
                    record_size)
                env.check(f"{name} outside", lib.handled(result), True)
                env.reach("outside")
                continue
            start = PAGE * page + place
            length = min(record_size, PAGE - place)
            result = lib.outcome(reader.ReadObjectRecordDataSegment,
                                 result[1], place, record_size)
            if start + length > len(data):
                env.check(f"{name} cut", result, ("raise", "ParseError"))
                env.reach("cut")
                continue
            env.check(f"{name} data", result,
                      ("ok", data[start:start + length]))
            env.reach("data")


# Whole repositories.

class Folder:
    """A real folder with files of these names; reads give other contents."""

    def __init__(self, files):
        self.path = tempfile.mkdtemp(prefix="wmi_")
        self.files = {}
        for name, content in files.items():
            path = os.path.join(self.path, name)
            if name.lower() == "mapping.ver":
                with open(path, "wb") as file_object:
                    file_object.write(content)
            else:
                with open(path, "wb"):
                    pass
            self.files[path] = content

    def __enter__(self):
        return self

    def __exit__(self, *args):
        shutil.rmtree(self.path)


def instance_tuple(instance):
    return instance_of(instance)


def run_repository(env, files, holes=(), limits=(), name=None, before=None,
                   settle=()):
    """A repository given as the content of its files.

    The bytes in settle are symbolic as well, one value after the other.
    """
    contents = {}
    for filename, content in files.items():
        content = bytes.fromhex(content)
        for index, (where, offset, length) in enumerate(holes):
            if where == filename:
                content = lib.overlay(content, [
                    (offset, env.bytes(f"hole{index}", length))])
        for where, offset, low, high in limits:
            if where == filename:
                env.assume(content[offset] >= low)
                env.assume(content[offset] <= high)
        for where, offset, low, high in settle:
            if where == filename:
                value = env.int(f"settled{offset}", low, high)
                known = next(x for x in range(low, high + 1) if value == x)
                content = lib.overlay(content, [(offset, bytes([known]))])
        contents[filename] = content
    with Folder(contents) as folder:
        path = folder.path if name is None else f"{folder.path}/{name}"
        expected = {}
        reference = None
        try:
            reference = Repository(folder.files, path)
            opened = ("ok", None)
        except lib.Reject:
            opened = ("raise", "ParseError")
        except NotFound:
            opened = ("raise", "RuntimeError")
        except lib.Unspecified:
            opened = None
        for debug in (False, True):
            label = "debug" if debug else "quiet"
            with lib.use_hexdump(env), lib.use_files(folder.files):
                reader = wmi_repository.CIMRepository(
                    debug=debug, output_writer=lib.Writer())
                if before is not None:
                    with Folder({key: bytes.fromhex(value) for key, value in
                                 before.items()}) as other:
                        with lib.use_files(other.files):
                            lib.outcome(reader.Open, other.path)
                            collect(reader.GetNamespaces)
                            lib.outcome(reader.Close)
                result = lib.outcome(reader.Open, path)
                if opened is None or debug:
                    env.check(f"{label} open handled", lib.handled(result)
                              or result == opened, True)
                    if opened is None or result != opened:
                        env.reach("unspecified")
                        continue
                env.check(f"{label} open", result, opened)
                if result[0] != "ok":
                    env.reach(f"open {result[1]}")
                    env.check(f"{label} close", lib.outcome(reader.Close),
                              ("ok", None))
                    continue
                env.check(f"{label} version", reader.format_version,
                          reference.version)
                check_repository(env, label, reader, reference, expected)
                env.check(f"{label} close", lib.outcome(reader.Close),
                          ("ok", None))
                env.check(f"{label} closed", reader.format_version, None)


def check_repository(env, label, reader, reference, expected):
    steps = [("keys", reader.GetIndexKeys, reference.keys)]
    if not reference.index_only:
        steps.append(("instances", lambda: map(
            instance_of, reader.GetInstances()), reference.instances))
        steps.append(("namespaces", lambda: map(
            instance_of, reader.GetNamespaces()), reference.namespaces))
        steps.append(("again", lambda: map(
            instance_of, reader.GetNamespaces()), reference.namespaces))
    for name, function, wanted in steps:
        if name not in expected:
            try:
                expected[name] = expect(wanted)
            except lib.Unspecified:
                expected[name] = None
        got, end = collect(function)
        if expected[name] is None:
            env.check(f"{label} {name} handled", end[0] == "ok" or end[1] in
                      ("ParseError", "RuntimeError"), True)
            continue
        want, want_end = expected[name]
        if want_end[0] == "ok" or name != "again":
            env.check(f"{label} {name} end", end, want_end)
        env.reach(f"{name} {want_end[0]} {want_end[1]}")
        if want_end[0] != "ok" and name != "keys":
            continue
        env.check(f"{label} number of {name}", len(got), len(want))
        if name == "keys":
            env.check(f"{label} keys", got, want)
            continue
        if name != "instances":
            # The order of the namespaces is not that of the keys.
            got = sorted(got, key=lambda x: f"{x['namespace']!s}")
            want = sorted(want, key=lambda x: f"{x['namespace']!s}")
        for index, (left, right) in enumerate(zip(got, want)):
            check_instance(env, f"{label} {name} {index}", left, right)
        if name == "instances":
            check_records(env, label, reader, reference)


def check_records(env, label, reader, reference):
    """The record of every key."""
    for key in reference.keys():
        values = reference.record_values(key.split("\\")[-1])
        result = lib.outcome(reader.GetObjectRecordByKey, key)
        if values is None:
            env.check(f"{label} no record", result, ("ok", None))
            continue
        try:
            want = ("ok", reference.record(*values[2]))
        except lib.Reject:
            want = ("raise", "ParseError")
        except NotFound:
            want = ("raise", "RuntimeError")
        env.check(f"{label} record outcome", result[0], want[0])
        if want[0] != "ok":
            env.check(f"{label} record error", result, want)
            continue
        env.check(f"{label} record", (result[1].data_type, result[1].data),
                  (values[0], want[1]))


def utf16(text):
    return text.encode("utf-16-le")


def class_record(super_name, data):
    return (number(len(super_name)) + utf16(super_name) + bytes(range(8))
            + block(data))


def instance_record(version, class_name, data):
    return (utf16(name_hash(version, class_name).upper())
            + bytes(range(16)) + block(data))


def hashed(version, prefix, name):
    return f"{prefix}_{name_hash(version, name).upper()}"


class Builder:
    """A repository of a few classes, instances and namespaces."""

    def __init__(self, version):
        self.version = version
        self.keys = []
        # Mapped page to records.
        self.pages = {}
        self.long = {}
        self.number_of = 1

    def add(self, path, kind, data, page=1):
        self.number_of += 1
        identifier = 16 + self.number_of
        self.pages.setdefault(page, []).append((identifier, data))
        path = list(path)
        path[-1] = f"{path[-1]}.{page}.{identifier}.{len(data)}"
        self.keys.append(path)
        return identifier

    def definition(self, name, super_name, data, namespace="ROOT", page=1):
        self.add([hashed(self.version, "NS", namespace),
                  hashed(self.version, "CD", name)], "CD",
                 class_record(super_name, data), page)

    def instance(self, class_name, data, namespace="ROOT", kind="I", page=2,
                 key="K"):
        self.add([hashed(self.version, "NS", namespace),
                  hashed(self.version, "CI", class_name),
                  hashed(self.version, kind, key)], kind,
                 instance_record(self.version, class_name, data), page)

    def objects(self, order):
        """The pages, in this physical order."""
        content = {}
        for page, records in self.pages.items():
            built = object_page(records)
            offset = 16 * (len(records) + 1)
            data = built[:offset] + b"".join(x for _, x in records)
            at = 0
            while at < max(len(data), 1):
                content[page] = data[at:at + PAGE]
                at += PAGE
                page += 1
        return b"".join((content.get(x, b"") + b"\xee" * PAGE)[:PAGE]
                        for x in order)

    def index(self, split=1):
        """Index pages: the first one (2.1), the root and its sub pages."""
        if split == 1:
            return [index_page(kind=0xaddd, root=1), index_page(self.keys)]
        many = -(-len(self.keys) // split)
        groups = [self.keys[at:at + many]
                  for at in range(0, len(self.keys), many)]
        pages = [index_page(kind=0xaddd, root=1)]
        pages.append(index_page(groups[0][:1], [2, 3]))
        pages.append(index_page(groups[0][1:]))
        pages.append(index_page(
            groups[1][:1], [0, 4 if len(groups) > 2 else 0xffffffff]))
        rest = groups[1][1:]
        if rest:
            pages.append(index_page(rest))
        for group in groups[2:]:
            pages.append(index_page(group))
        return pages


def sample(version, deep=False, big=False):
    """Classes, instances and namespaces."""
    namespace = class_block("__Namespace", "__SystemClass", properties=[
        ("Name", 8, 0, typed("string"))])
    system = class_block("__SystemClass")
    thing = class_block("Thing", "__SystemClass", properties=[
        ("Id", 0x13, 0, typed("uint32")), ("Text", 8, 4, typed("string"))])
    builder = Builder(version)
    builder.definition("__SystemClass", "", system)
    builder.definition("__Namespace", "__SystemClass", namespace)
    builder.definition("Thing", "__SystemClass", thing)
    value_map = ValueMap([Definition(system), Definition(namespace)])
    names = [("ROOT", "cimv2"), ("ROOT", "Other")]
    if deep:
        names += [("ROOT\\cimv2", "Deep"), ("ROOT\\cimv2\\Deep", "More")]
    for parent, name in names:
        builder.instance("__Namespace", instance_block(
            value_map, {"name": name}, "__Namespace"), parent,
                         key=f"{parent}{name}")
    value_map = ValueMap([Definition(system), Definition(thing)])
    builder.instance("Thing", instance_block(
        value_map, {"id": 0x01020304,
                    "text": "x" * PAGE if big else "abc"}, "Thing"),
                     "ROOT\\cimv2", "IL", page=3)
    return builder


def repository_files(version, builder=None, split=1, names=None,
                     numbered=False, sequences=(5, 6, 4), index_last=False):
    if builder is None:
        builder = sample(version)
    pages = builder.index(split)
    # The physical order of the pages is another one than the mapped order.
    order = list(range(len(pages)))[::-1]
    index = b"".join(pages[x] for x in order)
    index_numbers = [order.index(x) for x in range(len(pages))]
    last = max(builder.pages) + 3
    order = list(range(last))[::-1]
    objects = builder.objects(order)
    object_numbers = [order.index(x) for x in range(last)]
    number_of = 1 if version == "2.1" else 2
    names = names or {}
    files = {"INDEX.BTR": index, "OBJECTS.DATA": objects}
    if numbered:
        for position, sequence in enumerate(sequences):
            if sequence is None:
                continue
            best = sequence == max(x for x in sequences if x is not None)
            files[f"MAPPING{position + 1}.MAP"] = mapping_table(
                number_of, object_numbers if best else [0], [3],
                sequence) + mapping_table(
                    number_of, index_numbers if best else [0], [], sequence)
        files["MAPPING.VER"] = number(2)
    else:
        if number_of == 1:
            files["INDEX.MAP"] = mapping_table(1, index_numbers, [9])
            files["OBJECTS.MAP"] = mapping_table(1, object_numbers)
        else:
            files["INDEX.MAP"] = mapping_table(
                2, [0]) + mapping_table(2, index_numbers, [9])
            files["OBJECTS.MAP"] = mapping_table(
                2, object_numbers) + mapping_table(2, [0])
    return {names.get(key, key): value.hex() for key, value in files.items()}


def _register_repository():
    for version in (1, 2):
        family = lib.Family(REGISTRY, "C34", f"mapping-v{version}",
                            run_mapping)
        one = mapping_table(version, [3, 5], [8])
        two = one + mapping_table(version, [6, 7, 9], sequence=8)
        for offset in range(0, len(one)):
            value = one[offset]
            limits = [(offset, 0, 0x10)] if value < 0x10 else []
            start = 16 if version == 1 else 24
            family.holes(f"byte-{offset}", two, [(offset, 1)], limits=limits,
                         tier="quick" if offset < start + 6
                         or offset % 4 == 0 or offset > len(one) - 9
                         else "thorough")
        for offset in range(len(one), len(two)):
            limits = [(offset, 0, 0x10)] if two[offset] < 0x10 else []
            family.holes(f"byte-{offset}", two, [(offset, 1)], limits=limits,
                         tier="quick" if offset % 8 == 0
                         or offset > len(two) - 5 else "thorough")
        family.holes("pages", two, [
            (16 if version == 1 else 24, 4),
            (len(one) + (16 if version == 1 else 24), 4)])
        family.holes("sequence", two, [(4, 4)])
        family.holes("versions", two, [(8, 8)], limits=[
            (offset, 0, 2) for offset in range(13, 16)])
        for size in range(0, len(two), 4 if version == 1 else 12):
            family.holes(f"cut-{size}", two, [], size=size,
                         bounds=f"cut to {size} bytes")
        for size in (len(one) - 1, len(one) + 3, len(one) + 5, len(two) - 1):
            family.holes(f"cut-{size}", two, [], size=size,
                         bounds=f"cut to {size} bytes")
        family.holes("trailing", one + bytes(20), [(len(one), 4)])
        family.holes("more", two + bytes(3), [(len(two), 3)])
        for number_of in (0, 1, 4):
            family.holes(f"table-{number_of}", mapping_table(
                version, list(range(10, 10 + number_of)), [1] * number_of)
                         + mapping_table(version, []), [(4, 1)])
    REGISTRY.add_reuse(skip=("C35",))

    family = lib.Family(REGISTRY, "C34", "index", run_index)
    keys = [["NS_AB", "CD_1.2.3.4"], ["NS_AB", "CI_7", "I_9.1.2.3"]]
    page = index_page(keys, [4, 0, 5])
    used = len(page.rstrip(b"\0")) + 1
    for offset in range(used):
        value = page[offset]
        letter = offset >= used - 36
        limits = [(offset, 0, 0x7f)] if letter else [
            (offset, 0, 0x10 if value < 0x10 else 0xff)]
        if offset in (17, 18, 19):
            continue
        if offset in (16, 41, 43, 45, 53):
            limits = [(offset, 0, 3)]
        family.holes(f"byte-{offset}", page, [(offset, 1)], limits=limits,
                     tier="quick" if offset % 3 == 0 or 16 <= offset < 20
                     else "thorough")
    family.holes("sub-pages", page, [(28, 4), (36, 4)])
    family.holes("type", page, [(0, 4)])
    for number_of in (0, 1, 3, 5):
        family.holes(f"keys-{number_of}", index_page(
            [[f"NS_{x}", "A", f"B{x}"] for x in range(number_of)],
            [x + 1 for x in range(number_of + 1)]), [(20 + 4 * number_of, 4)])
    family.holes("no-segments", index_page([[], ["A"]]), [(20, 1)])
    first = index_page(kind=0xaddd, root=77)
    family.holes("first", first, [(12, 4)])
    family.holes("first-type", first, [(0, 2)])
    for size in (0, 1, 16, 20, PAGE - 1):
        family.holes(f"cut-{size}", page, [], size=size,
                     bounds=f"cut to {size} bytes")
    for where in (0, 1, 2, 3):
        REGISTRY.add("C34", f"index-page-{where}", run_index, {
            "base": (first + page + index_page([["Z"]])).hex(),
            "holes": [(PAGE + 28, 1), (12, 1), (2 * PAGE + 24, 1)],
            "page": where}, bounds="the pages of a file of three")
    for where in (1, 2):
        for size in (PAGE + 1, 2 * PAGE - 1, 2 * PAGE):
            REGISTRY.add("C34", f"index-page-{where}-cut-{size}", run_index, {
                "base": (first + page).hex(), "holes": [(PAGE + 28, 1)],
                "size": size, "page": where},
                         bounds=f"file cut to {size} bytes")

    family = lib.Family(REGISTRY, "C34", "objects", run_objects)
    page = object_page([(7, b"abc"), (1, b"wxyz"), (2, b"efgh")])
    for offset in range(16, 64):
        family.holes(f"byte-{offset}", page, [(offset, 1)],
                     tier="quick" if offset < 32 or offset % 4 == 0
                     else "thorough")
    family.holes("identifier", page, [(0, 4), (16, 4)])
    family.holes("size", page, [(24, 4)])
    for high in (0, 0x1f):
        family.holes(f"offset-{high}", page, [(20, 1), (21, 1)], limits=[
            (21, high, high)])
    family.holes("offset-far", page, [(20, 4)], limits=[(23, 1, 0xff)])
    family.holes("again", object_page([(1, b"abcd"), (1, b"efgh")]),
                 [(8, 1), (0, 1)])
    family.holes("none", object_page([]), [(0, 1)])
    for size in (0, 1, 15, 16, 31, 48, 63, 64, 70):
        family.holes(f"cut-{size}", page, [], size=size,
                     bounds=f"cut to {size} bytes")
    for where in (0, 1, 2):
        REGISTRY.add("C34", f"objects-page-{where}", run_objects, {
            "base": (object_page([(1, b"AAAA"), (2, b"BBBB")])
                     + object_page([(2, b"CCCC"), (1, b"DDDD")])).hex(),
            "holes": [(32, 4), (PAGE + 20, 1)], "page": where},
                     bounds="the pages of a file of two")
    for record_size in (0, 1, 100, PAGE, 3 * PAGE):
        content = (object_page([(1, record_size)])
                   + b"\x77" * (2 * PAGE))
        REGISTRY.add("C34", f"objects-size-{record_size}", run_objects, {
            "base": content.hex(), "holes": [(8, 1)],
            "record_size": record_size},
                     bounds=f"record of {record_size} bytes")
    REGISTRY.add("C34", "objects-edge", run_objects, {
        "base": (object_page([(1, 40)]) + b"\x77" * PAGE).hex(),
        "holes": [(4, 2)], "limits": [(4, 0xd0, 0xff), (5, 0x1e, 0x20)],
        "record_size": 40}, bounds="records near the end of the page")

    def add(label, files, holes=(), tier="quick", **params):
        REGISTRY.add("C34", f"repository-{label}", run_repository, {
            "files": files, "holes": list(holes), **params}, tier=tier,
                     bounds=f"repository, parts symbolic: {list(holes)}",
                     max_ticks=8000000)

    for version in ("2.1", "2.2"):
        files = repository_files(version)
        add(f"{version}-plain", files)
        add(f"{version}-deep", repository_files(
            version, sample(version, deep=True)))
        add(f"{version}-long", repository_files(
            version, sample(version, big=True)))
        for split in (2, 3):
            add(f"{version}-split-{split}", repository_files(
                version, split=split))
        add(f"{version}-names", repository_files(version, names={
            "INDEX.BTR": "Index.btr", "OBJECTS.DATA": "objects.DATA",
            "INDEX.MAP": "index.MaP", "OBJECTS.MAP": "Objects.map"}))
        add(f"{version}-index", files, name="INDEX.BTR")
        add(f"{version}-again", files, before=repository_files(
            "2.1" if version == "2.2" else "2.2", sample(
                "2.1" if version == "2.2" else "2.2", deep=True)))
        for name, sequences in (
                ("first", (9, 6, 4)), ("second", (5, 6, 4)),
                ("third", (5, 6, 7)), ("only", (None, 6, None)),
                ("two", (1, None, 3))):
            add(f"{version}-numbered-{name}", repository_files(
                version, numbered=True, sequences=sequences))
        numbered = repository_files(version, numbered=True)
        add(f"{version}-numbered-index", numbered, name="index.btr")
        add(f"{version}-numbered-sequence", numbered,
            holes=[("MAPPING1.MAP", 4, 2), ("MAPPING3.MAP", 4, 2)])
        for missing in ("INDEX.BTR", "OBJECTS.DATA", "INDEX.MAP",
                        "OBJECTS.MAP"):
            add(f"{version}-without-{missing}", {
                key: value for key, value in files.items()
                if key != missing})
        mixed = dict(numbered)
        del mixed["MAPPING.VER"]
        mixed["INDEX.MAP"] = files["INDEX.MAP"]
        add(f"{version}-mixed", mixed)
        mixed = dict(numbered, **{"MAPPING.VER": "0200"})
        add(f"{version}-version-cut", mixed)
        mixed = dict(numbered, **{"OBJECTS.MAP": files["OBJECTS.MAP"]})
        add(f"{version}-mixed-objects", mixed)

        index = bytes.fromhex(files["INDEX.BTR"])
        objects = bytes.fromhex(files["OBJECTS.DATA"])
        # The digits of the values of the keys.
        place = 0
        many = 0
        while True:
            place = index.find(b".", place + 1)
            if place < 0:
                break
            many += 1
            for offset in (place + 1,):
                add(f"{version}-key-{offset}", files,
                    [("INDEX.BTR", offset, 1)],
                    limits=[("INDEX.BTR", offset, 0x2e, 0x3a)],
                    tier="quick" if many % 4 == (1 if version == "2.1"
                                                 else 3) else "thorough")
        place = index.index(b"\0IL_") + 1
        add(f"{version}-kind-{place}", files, [("INDEX.BTR", place, 2)],
            limits=[("INDEX.BTR", place, 0x41, 0x5a),
                    ("INDEX.BTR", place + 1, 0x41, 0x5a)])
        place = index.index(b"\0CD_") + 1
        add(f"{version}-kind-{place}", files, [("INDEX.BTR", place, 2)],
            limits=[("INDEX.BTR", place, 0x41, 0x5a),
                    ("INDEX.BTR", place + 1, 0x41, 0x5a)])
        place = objects.index(number(0x01020304))
        add(f"{version}-value", files, [("OBJECTS.DATA", place, 4)])
        add(f"{version}-text", files, [
            ("OBJECTS.DATA", objects.index(b"abc\0"), 1)])
        for missing in ("__SystemClass", "__Namespace", "Thing"):
            builder = sample(version)
            builder.keys = [key for key in builder.keys if not
                            key[1].startswith(hashed(version, "CD",
                                                     missing))]
            add(f"{version}-no-{missing}", repository_files(
                version, builder))
        for name in ("INDEX.MAP", "OBJECTS.MAP"):
            content = bytes.fromhex(files[name])
            start = 16 if version == "2.1" else 24
            if version == "2.2" and name == "INDEX.MAP":
                start = len(mapping_table(2, [0])) + 24
            step = 4 if version == "2.1" else 24
            for index_number in range(2 if name == "INDEX.MAP" else 6):
                offset = start + step * index_number
                if offset < len(content) - 8:
                    add(f"{version}-{name}-{index_number}", files,
                        settle=[(name, offset, 0, 8)])
        if version == "2.1":
            add("2.1-root", files, [("INDEX.BTR", PAGE + 12, 1)],
                limits=[("INDEX.BTR", PAGE + 12, 0, 3)])
            add("2.1-first-type", files, [("INDEX.BTR", PAGE, 1)])


# The repository file of version 2.0.

class RepositoryFile:
    """cim.rep: cells with nodes that refer to each other."""

    def __init__(self, data):
        self.data = data
        part(data, 0, 40)
        system = u32(data, 0)
        root = u32(data, 4)
        next_bin = u32(data, 36)
        self.system = None
        self.root = None
        offset = 40
        number_of = 0
        while offset < len(data) and None in (self.system, self.root):
            if offset == next_bin:
                next_bin = next_bin + u32(data, offset)
                offset = offset + 4
            size = u32(data, offset)
            if size == 0:
                self.cell(offset + 4)
                break
            self.cell(offset + 4)
            if number_of == root:
                self.root = offset + 4
            if number_of == system:
                self.system = offset + 4
            size = size & 0x7fffffff
            if size < 4:
                raise lib.Reject("size")
            offset = offset + size
            number_of = number_of + 1

    def cell(self, offset, size=0):
        """The data of a cell, of which a node of this size is a part."""
        length = u32(self.data, offset - 4) & 0x7fffffff
        if length == 0:
            content = b""
        else:
            content = part(self.data, offset, length - 4)
        part(content, 0, size)
        return content

    def numbers(self, offset, number_of):
        """A node of some numbers and a footer."""
        content = self.cell(offset, 4 * number_of + 12)
        return [u32(content, 4 * index) for index in range(number_of)]

    def tree(self, offset):
        depth, _, branch = self.numbers(offset, 3)
        if depth == 0:
            return []
        if depth == 1:
            return [branch]
        if depth != 2:
            raise lib.Reject("depth")
        if branch <= 40:
            return []
        leaf = self.numbers(branch, 4)[3]
        return self.numbers(leaf, 10) if leaf > 40 else []

    def list(self, offset):
        following = self.numbers(offset, 5)[1]
        seen = []
        while following > 40:
            if following in seen:
                raise lib.Reject("recursive")
            seen.append(following)
            element = self.numbers(following, 7)
            if element[1] > 40:
                self.name(element[1])
            yield element[2]
            following = element[6]

    def name(self, offset):
        content = self.cell(offset)
        end = 0
        while part(content, end, 2) != bytes(2):
            end = end + 2
        try:
            text = content[:end].decode("utf-16-le")
        except UnicodeError:
            raise lib.Reject("name") from None
        end = (end + 5) // 4 * 4
        part(content, end, 12)
        return text

    def definition(self, offset):
        """The definition that a branch node of a class refers to."""
        leaf = self.numbers(offset, 5)[3]
        if leaf <= 40:
            return None
        content = self.cell(leaf)
        size = u32(content, 0)
        found = part(content, 4, size - 4)
        end = size + u32(content, size)
        part(content, size + 4, end - size - 4)
        end = (end + 3) // 4 * 4
        part(content, end, 12)
        return Definition(found)

    def instance(self, offset):
        _, class_root, kind, leaf, _ = self.numbers(offset, 5)
        if class_root <= 40 or leaf <= 40 or kind != 2:
            return None
        branch = self.numbers(class_root, 8)[1]
        if branch <= 40:
            return None
        definition = self.definition(branch)
        if definition is None:
            return None
        content = self.cell(leaf)
        size = u32(content, 0)
        found = part(content, 4, size - 4)
        part(content, size, 12)
        value_map = ValueMap([definition])
        _, values = instance_values(value_map, found)
        return {"class_name": value_map.name, "namespace": None,
                "properties": values}

    def class_instances(self, offset, seen):
        if offset in seen:
            raise lib.Reject("recursive")
        seen.append(offset)
        _, branch, _, kind, children, below, _, _ = self.numbers(offset, 8)
        if branch > 40:
            self.definition(branch)
        if children > 40:
            for child in self.list(children):
                if child > 40:
                    instance = self.instance(child)
                    if instance is not None:
                        yield instance
        if below > 40 and kind in (9, 10):
            for child in self.tree(below):
                if child > 40:
                    yield from self.class_instances(child, seen)

    def instances(self, offset, seen):
        if offset in seen:
            raise lib.Reject("recursive")
        seen.append(offset)
        children, _, branch, _, _, _, _ = self.numbers(offset, 7)
        if branch > 40:
            instance = self.instance(branch)
            if instance is not None:
                yield instance
        if 40 < children < 0xffffffff:
            for child in self.tree(children):
                if child > 40:
                    below = self.numbers(child, 2)[1]
                    if below > 40:
                        yield from self.instances(below, seen)

    def namespaces(self, offset, seen, names):
        if offset in seen:
            raise lib.Reject("recursive")
        seen.append(offset)
        children, _, branch, _, _, _, _ = self.numbers(offset, 7)
        if branch <= 40:
            return
        instance = self.instance(branch)
        name = None
        if instance is not None:
            name = get(instance["properties"], "Name")
        if not name:
            raise lib.Reject("no name")
        names = [*names, name]
        instance["namespace"] = "\\".join(names)
        yield instance
        if 40 < children < 0xffffffff:
            for child in self.tree(children):
                if child > 40:
                    below = self.numbers(child, 2)[1]
                    if below > 40:
                        yield from self.namespaces(below, seen, names)

    def results(self):
        root, system = self.root, self.system
        return [
            ("classes", lambda: self.class_instances(system, [])
             if system is not None else []),
            ("instances", lambda: self.instances(root, [])
             if root is not None else []),
            ("namespaces", lambda: self.namespaces(root, [], [])
             if root is not None else [])]


def run_rep(env, base, holes, size=None, limits=(), links=(), choices=(),
            before=(), quiet=False):
    """A repository file; the numbers at links are each of the choices."""
    data = lib.fill(env, base, holes, size, limits)
    for index, offset in enumerate(links):
        choice = env.int(f"link{index}", 0, len(choices) - 1)
        known = next(x for x in range(len(choices)) if choice == x)
        data = lib.overlay(data, [(offset, number(choices[known]))])
    expected = []
    try:
        reference = RepositoryFile(data)
        opened = ("ok", None)
        for name, function in reference.results():
            try:
                expected.append((name, expect(function)))
            except lib.Unspecified:
                expected.append((name, None))
    except lib.Reject:
        opened = ("raise", "ParseError")
    for debug in ((False,) if quiet else (False, True)):
        label = "debug" if debug else "quiet"
        with lib.use_hexdump(env), lib.use_files({
                "/0/r": bytes.fromhex(before[0]) if before else b"",
                "/r": data}):
            reader = wmi_repository.RepositoryFile(
                debug=debug, output_writer=lib.Writer())
            if before:
                lib.outcome(reader.Open, "/0/r")
                collect(reader.ReadInstances)
                lib.outcome(reader.Close)
            result = lib.outcome(reader.Open, "/r")
            if debug:
                # All cells and more of the nodes are read.
                env.check("debug open", lib.handled(result), True)
                env.check("debug refused", opened[0] != "ok" and
                          result[0] == "ok", False)
            else:
                env.check("open", result, opened)
            if result[0] != "ok":
                env.reach("refused")
                continue
            functions = {"classes": reader.ReadClassDefinitions,
                         "instances": reader.ReadInstances,
                         "namespaces": reader.ReadNamespaces}
            for name, wanted in expected:
                got, end = collect(lambda: map(instance_of, functions[name]()))
                if debug or wanted is None:
                    env.check(f"{label} {name} handled", lib.handled(end),
                              True)
                if wanted is None or (debug and end[0] != "ok"):
                    continue
                want, want_end = wanted
                env.check(f"{label} {name} end", end, want_end)
                env.check(f"{label} number of {name}", len(got), len(want))
                for index, (left, right) in enumerate(zip(got, want)):
                    check_instance(env, f"{label} {name} {index}", left,
                                   right)
                env.reach(f"{name} {want_end[0]}")
            env.check(f"{label} close", lib.outcome(reader.Close),
                      ("ok", None))


def run_rep_folder(env, base, holes, name, filename, other=None):
    """A repository of version 2.0, by way of the repository."""
    data = lib.fill(env, base, holes)
    results = dict(RepositoryFile(data).results())
    with Folder({filename: data, **(other or {})}) as folder:
        for debug in (False, True):
            label = "debug" if debug else "quiet"
            with lib.use_hexdump(env), lib.use_files(folder.files):
                reader = wmi_repository.CIMRepository(
                    debug=debug, output_writer=lib.Writer())
                for turn in (1, 2):
                    result = lib.outcome(reader.Open, f"{folder.path}/{name}")
                    env.check(f"{label} open", result, ("ok", None))
                    env.check(f"{label} version", reader.format_version,
                              "2.0")
                    env.check(f"{label} keys", collect(reader.GetIndexKeys),
                              ([], ("ok", None)))
                    for kind, function in (
                            ("instances", reader.GetInstances),
                            ("namespaces", reader.GetNamespaces)):
                        got, end = collect(lambda: map(instance_of,
                                                       function()))
                        want, want_end = expect(results[kind])
                        env.check(f"{label} {kind} end", end, want_end)
                        env.check(f"{label} number of {kind}", len(got),
                                  len(want))
                        for index, (left, right) in enumerate(
                                zip(got, want)):
                            check_instance(env, f"{label} {kind} {index}",
                                           left, right)
                    env.check(f"{label} close", lib.outcome(reader.Close),
                              ("ok", None))
                    env.check(f"{label} closed {turn}",
                              reader.format_version, None)
    env.reach("ok")


class Cells:
    """A repository file, cell by cell."""

    def __init__(self):
        self.items = []

    def add(self, label, *numbers, footer=12):
        """A node of numbers, which can be labels of other nodes."""
        self.items.append((label, list(numbers), b"\x66" * footer))

    def build(self, system, root, split=None):
        """The file, the offsets of the nodes and those of the links."""
        offsets = {}
        offset = 40
        breaks = {}
        for label, numbers, footer in self.items:
            if label == split:
                breaks[label] = offset
                offset += 4
            offsets[label] = offset + 4
            length = sum(len(x) if isinstance(x, bytes) else 4
                         for x in numbers) + len(footer)
            offset += 4 + length
        total = offset
        order = [item[0] for item in self.items]
        first = breaks.get(split, total)
        data = number(order.index(system)) + number(order.index(root))
        data += number(total - 40) + bytes(range(24))
        data += number(first)
        links = []
        for index, (label, numbers, footer) in enumerate(self.items):
            if label == split:
                data += number(total - first)
            content = b""
            start = len(data) + 4
            for value in numbers:
                if isinstance(value, str):
                    links.append((label, start + len(content)))
                    value = number(offsets.get(value, 0))
                elif isinstance(value, int):
                    value = number(value)
                content += value
            content += footer
            data += number(len(content) + 4 | (
                0x80000000 if index % 3 else 0)) + content
        return data, offsets, links


def name_node(text):
    data = utf16(text) + bytes(2)
    return data + bytes(-len(data) % 4)


def class_leaf(data):
    content = block(data) + block(b"\x55" * 3)
    return content + bytes(-len(content) % 4)


def rep_sample(deep=True):
    cells = Cells()
    namespace = class_block("__NAMESPACE", properties=[
        ("Name", 8, 0, typed("string"))])
    thing = class_block("Thing", properties=[
        ("Id", 0x13, 0, typed("uint32"))])
    maps = {"ns": ValueMap([Definition(namespace)]),
            "thing": ValueMap([Definition(thing)])}

    def instance(label, kind, values):
        data = instance_block(maps[kind], values, "Any")
        cells.add(f"{label}-leaf", block(data))
        cells.add(f"{label}-branch", 0x11, f"{kind}-root", 2,
                  f"{label}-leaf", 3)

    cells.add("free", b"free cell...")
    cells.add("tree-leaf", "value-one", "", "value-two", *[""] * 7)
    cells.add("tree-branch", 2, 10, 0, "tree-leaf")
    cells.add("tree", 2, 2, "tree-branch")
    cells.add("root", "tree", "name", "root-branch", 0, "classes", 0,
              "unknown")
    cells.add("classes", 0, "class-element", "class-element", 0, 1)
    cells.add("class-element", 1, "name", "thing-root", 0, 0, "", "")
    cells.add("unknown", block(b"unknown5"))
    cells.add("name", name_node("root"))
    instance("root", "ns", {"name": "root"})
    cells.add("value-one", "name", "one")
    cells.add("value-two", "name", "two")
    cells.add("one", "below" if deep else "", "name", "one-branch", 0, "", 1,
              "")
    instance("one", "ns", {"name": "cimv2"})
    cells.add("below", 1, 1, "value-three")
    cells.add("value-three", "", "three")
    cells.add("three", 0xffffffff, "", "three-branch", 0, "", 0, "")
    instance("three", "ns", {"name": "deep"})
    cells.add("two", "", "", "two-branch", 0, "", 1, "")
    instance("two", "ns", {"name": "Other"})
    cells.add("system", 0, "ns-branch", 0, 9, "list", "class-tree", 0, "")
    cells.add("class-tree", 1, 1, "thing-root")
    cells.add("list", 0, "element-one", "element-two", 0, 2)
    cells.add("element-one", 1, "name", "item-branch", 0, 0, "",
              "element-two")
    cells.add("element-two", 1, "", "more-branch", 0, 0, "element-one", "")
    instance("item", "thing", {"id": 0x01020304})
    instance("more", "ns", {"name": "abc"})
    for kind, content in (("ns", namespace), ("thing", thing)):
        cells.add(f"{kind}-root", 0, f"{kind}-branch", 0, 10,
                  "", "", 0, "")
        cells.add(f"{kind}-branch", 0, f"{kind}-root", 0, f"{kind}-leaf", 0)
        cells.add(f"{kind}-leaf", class_leaf(content))
    return cells


def _register_rep():
    cells = rep_sample()
    data, offsets, links = cells.build("system", "root")
    family = lib.Family(REGISTRY, "C36", "rep", run_rep,
                        max_ticks=4000000)
    family.holes("plain", data, [(8, 8)])
    every = sorted(offsets.values()) + [0, 40, 41, len(data), 0xfffffffc,
                                        0xffffffff]
    some = [offsets[x] for x in ("one", "ns-root", "item-branch", "tree",
                                 "element-two", "value-three")]
    some += [0, 40, 41, 0xffffffff]
    for index, (label, offset) in enumerate(links):
        if label == "tree-leaf" and index % 3:
            continue
        REGISTRY.add("C36", f"rep-link-{label}-{offset}", run_rep, {
            "base": data.hex(), "holes": [], "links": [offset],
            "choices": some, "quiet": True}, max_ticks=4000000,
                     bounds=f"file of {len(data)} bytes, the link at "
                            f"{offset} to ten nodes, no debug output",
                     tier="quick" if index % 3 else "thorough")
        REGISTRY.add("C36", f"rep-link-every-{label}-{offset}", run_rep, {
            "base": data.hex(), "holes": [], "links": [offset],
            "choices": every}, max_ticks=4000000,
                     bounds=f"file of {len(data)} bytes, the link at "
                            f"{offset} to every node", tier="thorough")
    for offset in (0, 4, 36):
        family.holes(f"header-{offset}", data, [(offset, 1)], limits=[
            (offset, 0, 0x40 if offset == 36 else 9)])
        family.holes(f"header-any-{offset}", data, [(offset, 1)],
                     tier="thorough")
    for name, offset in (
            ("depth", offsets["tree"]), ("depth-below", offsets["below"]),
            ("kind", offsets["system"] + 12),
            ("flag", offsets["one-branch"] + 8),
            ("flag-root", offsets["root-branch"] + 8),
            ("flag-item", offsets["item-branch"] + 8)):
        family.holes(name, data, [(offset, 4)])
    for label in ("root", "tree", "tree-leaf", "one-leaf", "ns-leaf",
                  "name", "free", "list", "element-one", "thing-branch"):
        offset = offsets[label] - 4
        value = data[offset]
        family.holes(f"size-{label}", data, [(offset, 1)], limits=[
            (offset, max(0, value - 4), min(255, value + 4))])
        family.holes(f"size-low-{label}", data, [(offset, 1)], limits=[
            (offset, 0, 4)])
        family.holes(f"size-any-{label}", data, [(offset, 1)],
                     tier="thorough")
        family.holes(f"size-flag-{label}", data, [(offset + 3, 1)], limits=[
            (offset + 3, 0x80, 0x81)])
    for label in ("one-leaf", "ns-leaf", "item-leaf", "thing-leaf"):
        offset = offsets[label]
        value = data[offset]
        family.holes(f"block-{label}", data, [(offset, 1)], limits=[
            (offset, value - 3, value + 3)])
        family.holes(f"block-low-{label}", data, [(offset, 1)], limits=[
            (offset, 0, 4)])
        family.holes(f"block-any-{label}", data, [(offset, 1)],
                     tier="thorough")
    family.holes("unknown-block", data, [(
        offsets["thing-leaf"] + data[offsets["thing-leaf"]], 1)])
    family.holes("id", data, [(data.index(number(0x01020304)), 4)])
    family.holes("text", data, [(data.index(b"cimv2"), 2)], limits=[
        (data.index(b"cimv2"), 0, 0x7f), (data.index(b"cimv2") + 1, 0, 0x7f)])
    family.holes("name-node", data, [(offsets["name"], 2),
                                     (offsets["name"] + 6, 4)])
    for split in ("tree", "root", "system", "one-leaf"):
        other, places, _ = cells.build("system", "root", split)
        value = other[places[split] - 8]
        family.holes(f"bin-{split}", other, [(36, 1)], limits=[
            (36, max(0, other[36] - 4), min(255, other[36] + 4))])
        family.holes(f"bin-size-{split}", other, [
            (places[split] - 8, 1)], limits=[(
                places[split] - 8, max(0, value - 2), min(255, value + 2))])
    for system, root in (("free", "root"), ("system", "free"),
                         ("thing-root", "one"), ("ns-root", "three")):
        other = cells.build(system, root)[0]
        family.holes(f"from-{system}-{root}", other, [(8, 1)])
    for size in (0, 39, 40, 43, 44, 60, offsets["root"] - 4,
                 offsets["root"], offsets["root"] + 10, offsets["system"],
                 offsets["system"] + 20, len(data) - 13, len(data) - 1):
        family.holes(f"cut-{size}", data, [], size=size,
                     bounds=f"cut to {size} bytes")
    for name, filename in (("cim.rep", "CIM.REP"), ("CIM.REP", "cim.rep"),
                           ("Cim.Rep", "Cim.Rep")):
        REGISTRY.add("C36", f"rep-folder-{name}-{filename}", run_rep_folder, {
            "base": data.hex(), "holes": [
                (data.index(number(0x01020304)), 4)],
            "name": name, "filename": filename}, max_ticks=4000000,
                     bounds="a repository of version 2.0, opened twice")
    REGISTRY.add("C36", "rep-again", run_rep, {
        "base": data.hex(), "holes": [(8, 1)],
        "before": [rep_sample(False).build("thing-root", "one")[0].hex()]},
                 max_ticks=4000000,
                 bounds="after another file")
    REGISTRY.add("C36", "rep-again-empty", run_rep, {
        "base": cells.build("free", "free")[0][:40].hex(), "holes": [(0, 4)],
        "before": [data.hex()]}, max_ticks=4000000, bounds="no cells, after another file")


_register_repository()
_register_rep()
