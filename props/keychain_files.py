"""C18: macOS keychain databases."""

from dtformats import keychain

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

TABLES = {
    0x00: "CSSM_DL_DB_SCHEMA_INFO", 0x01: "CSSM_DL_DB_SCHEMA_INDEXES",
    0x02: "CSSM_DL_DB_SCHEMA_ATTRIBUTES",
    0x03: "CSSM_DL_DB_SCHEMA_PARSING_MODULE", 0x0a: "CSSM_DL_DB_RECORD_ANY",
    0x0b: "CSSM_DL_DB_RECORD_CERT", 0x0c: "CSSM_DL_DB_RECORD_CRL",
    0x0d: "CSSM_DL_DB_RECORD_POLICY", 0x0e: "CSSM_DL_DB_RECORD_GENERIC",
    0x0f: "CSSM_DL_DB_RECORD_PUBLIC_KEY",
    0x10: "CSSM_DL_DB_RECORD_PRIVATE_KEY",
    0x11: "CSSM_DL_DB_RECORD_SYMMETRIC_KEY",
    0x12: "CSSM_DL_DB_RECORD_ALL_KEYS",
    0x80000000: "CSSM_DL_DB_RECORD_GENERIC_PASSWORD",
    0x80000001: "CSSM_DL_DB_RECORD_INTERNET_PASSWORD",
    0x80000002: "CSSM_DL_DB_RECORD_APPLESHARE_PASSWORD",
    0x80000003: "CSSM_DL_DB_RECORD_USER_TRUST",
    0x80000004: "CSSM_DL_DB_RECORD_X509_CRL",
    0x80000005: "CSSM_DL_DB_RECORD_UNLOCK_REFERRAL",
    0x80000006: "CSSM_DL_DB_RECORD_EXTENDED_ATTRIBUTE",
    0x80001000: "CSSM_DL_DB_RECORD_X509_CERTIFICATE",
    0x80008000: "CSSM_DL_DB_RECORD_METADATA"}

FORMATS = ("STRING", "SINT32", "UINT32", "BIG_NUM", "REAL", "TIME_DATE",
           "BLOB", "MULTI_UINT32", "COMPLEX")

HEADER = (("Signature", 4, "str"), ("Major format version", 2, "d"),
          ("Minor format version", 2, "d"), ("Data size", 4, "d"),
          ("Tables array offset", 4, "x8"), ("Unknown1", 4, "x8"))

RECORD = (("Data size", 4, "d"), ("Record index", 4, "d"),
          ("Unknown2", 4, "x8"), ("Unknown3", 4, "x8"),
          ("Key data size", 4, "d"), ("Unknown4", 4, "x8"))

INDEXES = (("Relation identifier", 4, "x8"), ("Index identifier", 4, "x8"),
           ("Attribute identifier", 4, "x8"), ("Index type", 4, "x8"),
           ("Index data location", 4, "x8"))


def table_name(value):
    for number, name in TABLES.items():
        if value == number:
            return f"0x{value:08x} ({name:s})"
    return f"0x{value:08x} (UNKNOWN)"


def format_name(value):
    for number, name in enumerate(FORMATS):
        if value == number:
            return f"{value:d} (CSSM_DB_ATTRIBUTE_FORMAT_{name:s})"
    return f"{value:d} (UNKNOWN)"


def check_counted(data, offset):
    count = lib.uint(data, offset, 4, big=True)
    if offset + 4 + 4 * count > len(data):
        raise lib.Reject("offsets")


def counted(out, data, offset, label, each):
    """A number and as many 32-bit offsets."""
    count = lib.uint(data, offset, 4, big=True)
    values = []
    while len(values) < count:
        values.append(lib.uint(data, offset + 4 + 4 * len(values), 4, True))
    if count == 0:
        out.append(lib.line(label, ""))
    else:
        out.append(f"{label:s}:\n")
        for index, value in enumerate(values):
            out.append(lib.line(f"{each:s}: {index:d}", f"0x{value:08x}"))
    out.append("\n")
    return values


def value_offsets(out, data, offset, count):
    values = []
    while len(values) < count:
        values.append(lib.uint(data, offset + 4 * len(values), 4, True))
    for index, value in enumerate(values):
        out.append(lib.line(f"Attribute value offset: {index:d}",
                            f"0x{value:08x}"))
    out.append("\n")
    return values


def ascii_text(data):
    for byte in data:
        if byte >= 0x80:
            raise lib.Reject("characters")
    return data.decode("ascii")


class Record:
    """The values of a record, at offsets relative to its start less one."""

    def __init__(self, data, start, offsets):
        size = lib.uint(data, start, 4, big=True)
        self.first = 24 + 4 * len(offsets)
        if size < self.first or start + size > len(data):
            raise lib.Reject("record size")
        self.data = data[start:start + size]
        self.offsets = offsets

    def at(self, index, size):
        offset = self.offsets[index] - 1
        if offset < self.first or offset + size > len(self.data):
            raise lib.Reject("value")
        return offset

    def number(self, index):
        if self.offsets[index] == 0:
            return None
        return lib.uint(self.data, self.at(index, 4), 4, big=True)

    def sized(self, index):
        offset = self.at(index, 4)
        size = lib.uint(self.data, offset, 4, big=True)
        if offset + 4 + size > len(self.data):
            raise lib.Reject("value size")
        return self.data[offset + 4:offset + 4 + size]

    def text(self, index):
        if self.offsets[index] == 0:
            return None
        return ascii_text(self.sized(index))

    def value(self, index, kind):
        if self.offsets[index] == 0:
            return None
        if kind == 0:
            return self.text(index)
        if kind == 1 or kind == 2:
            return self.number(index)
        if kind == 5:
            offset = self.at(index, 16)
            return ascii_text(self.data[offset:offset + 16]).rstrip("\x00")
        if kind == 6:
            return f"{self.sized(index)!r}"
        return None


def trailing(out, data, start, end):
    if lib.uint(data, start, 4, big=True) == end - start:
        out.append("\n")


def database(out, data):
    if data[:4] != b"kych":
        raise lib.Reject("signature")
    header = lib.layout(out, data, 0, HEADER, big=True)
    array = header[4]
    check_counted(data, array + 4)
    lib.layout(out, data, array, (("Data size", 4, "d"),
                                  ("Number of tables", 4, "d")), big=True)
    out.pop()
    tables = []
    for offset in counted(out, data, array + 4, "Table offsets",
                          "Table offset"):
        table(out, data, array + offset, tables)
    return tables


def find(tables, identifier):
    for entry in tables:
        if entry[0] == identifier:
            return entry
    raise lib.Reject("table")


def table(out, data, start, tables):
    check_counted(data, start + 24)
    head = lib.layout(out, data, start, (
        ("Data size", 4, "d"), ("Record type", 4, table_name),
        ("Number of records", 4, "d"), ("Record array offset", 4, "x8"),
        ("Unknown1", 4, "x8"), ("Unknown2", 4, "x8"),
        ("Number of records offsets", 4, "d")), big=True)
    out.pop()
    kind = head[1]
    for offset in counted(out, data, start + 24, "Records offsets",
                          "Record offset"):
        if offset == 0:
            continue
        at = start + offset
        if kind == 0:
            information(out, data, at, tables)
        elif kind == 1:
            indexes(out, data, at, tables)
        elif kind == 2:
            attributes(out, data, at, tables)
        else:
            record(out, data, at, find(tables, kind))


def information(out, data, at, tables):
    lib.layout(out, data, at, RECORD, big=True)
    if value_offsets(out, data, at + 24, 2) != [0x21, 0x25]:
        raise lib.Reject("offsets")
    identifier = lib.uint(data, at + 32, 4, big=True)
    size = lib.uint(data, at + 36, 4, big=True)
    if at + 40 + size > len(data):
        raise lib.Reject("name")
    name = ascii_text(data[at + 40:at + 40 + size])
    out.append(lib.line("Relation identifier", f"0x{identifier:08x}"))
    out.append(lib.line("Relation name size", size))
    out.append(lib.line("Relation name", name))
    trailing(out, data, at, at + 40 + size)
    new = (identifier, name, [], [])
    place = None
    for index, entry in enumerate(tables):
        if entry[0] == identifier:
            place = index
    if place is None:
        tables.append(new)
    else:
        tables[place] = new
    find(tables, 0)[3].append([("RelationID", identifier),
                               ("RelationName", name)])


def indexes(out, data, at, tables):
    lib.layout(out, data, at, RECORD, big=True)
    if value_offsets(out, data, at + 24, 5) != [0x2d, 0x31, 0x35, 0x39, 0x3d]:
        raise lib.Reject("offsets")
    values = lib.layout(out, data, at + 44, INDEXES, big=True)
    trailing(out, data, at, at + 64)
    find(tables, values[0])
    find(tables, 1)[3].append(list(zip((
        "RelationID", "IndexID", "AttributeID", "IndexType",
        "IndexedDataLocation"), values)))


def attributes(out, data, at, tables):
    lib.layout(out, data, at, RECORD, big=True)
    offsets = value_offsets(out, data, at + 24, 6)
    values = Record(data, at, offsets)
    relation = values.number(0)
    out.append(lib.line("Relation identifier", "NULL" if relation is None
                        else table_name(relation)))
    identifier = values.number(1)
    out.append(lib.line("Attribute identifier", "NULL" if identifier is None
                        else f"0x{identifier:08x}"))
    kind = values.number(2)
    out.append(lib.line("Attribute name data type", "NULL" if kind is None
                        else format_name(kind)))
    name = values.text(3)
    out.append(lib.line("Attribute name", "NULL" if name is None else name))
    what = values.number(5)
    out.append(lib.line("Attribute data type", "NULL" if what is None
                        else format_name(what)))
    out.append("\n")
    if relation is None:
        raise lib.Reject("relation")
    owner = find(tables, relation)
    if name is None:
        if identifier is None:
            raise lib.Reject("name")
        name = ascii_text(identifier.to_bytes(4, "big"))
    owner[2].append((what, identifier, name))
    find(tables, 2)[3].append([
        ("RelationID", relation), ("AttributeID", identifier),
        ("AttributeNameFormat", kind), ("AttributeName", name),
        ("AttributeFormat", what)])


def record(out, data, at, owner):
    lib.layout(out, data, at, RECORD, big=True)
    result = []
    if owner[2]:
        offsets = value_offsets(out, data, at + 24, len(owner[2]))
        values = Record(data, at, offsets)
        for index, (kind, _, name) in enumerate(owner[2]):
            value = values.value(index, kind)
            place = None
            for number, pair in enumerate(result):
                if pair[0] == name:
                    place = number
            if place is None:
                result.append((name, value))
            else:
                result[place] = (name, value)
    owner[3].append(result)


def make(debug, writer):
    return keychain.KeychainDatabaseFile(debug=debug, output_writer=writer)


def observe(reader):
    return [(entry.relation_identifier, entry.relation_name,
             [(column.attribute_data_type, column.attribute_identifier,
               column.attribute_name) for column in entry.columns],
             [list(values.items()) for values in entry.records])
            for entry in reader.tables]


# Example files.


def be(*values):
    return b"".join([value.to_bytes(4, "big") for value in values])


def make_record(values, size=None, index=0):
    """values: None, bytes at the next offset, or (offset, bytes)."""
    offsets = []
    body = b""
    start = 24 + 4 * len(values)
    for value in values:
        if value is None:
            offsets.append(0)
        else:
            offsets.append(start + len(body) + 1)
            body += value
    if size is None:
        size = start + len(body)
    return be(size, index, 1, 0, 0, 2) + be(*offsets) + body


def make_table(kind, records, empty=False):
    count = len(records) + (1 if empty else 0)
    offsets = []
    at = 28 + 4 * count
    for entry in records:
        offsets.append(at)
        at += len(entry)
    if empty:
        offsets.insert(1, 0)
    return be(at, kind, len(records), 28, 7, 9, count, *offsets) + b"".join(
        records)


def sized(text):
    return be(len(text)) + text


def make_file(tables):
    offsets = []
    at = 8 + 4 * len(tables)
    for entry in tables:
        offsets.append(at)
        at += len(entry)
    return (b"kych\x00\x01\x00\x00" + be(16, 20, 5)
            + be(at, len(tables), *offsets) + b"".join(tables))


def relation(identifier, name):
    return make_record([be(identifier), sized(name)])


def attribute(owner, identifier, kind, name=None):
    return make_record([be(owner), be(identifier), be(0), name, None,
                        be(kind)])


def find_all(base, what):
    result = []
    at = base.find(what)
    while at >= 0:
        result.append(at)
        at = base.find(what, at + 1)
    return result


def _register():
    run = lib.file_runner(make, database, observe=observe)
    family = lib.Family(REGISTRY, "C18", "keychain", run)
    info = make_table(0, [relation(0, b"INFO"), relation(2, b"ATTR"),
                          relation(1, b"IDX"), relation(0x80000000, b"p")],
                      empty=True)
    columns = make_table(2, [attribute(0x80000000, 0, 0, sized(b"str")),
                             attribute(0x80000000, 0x61636374, 2),
                             attribute(0x80000000, 2, 6, sized(b"blob"))])
    index = make_table(1, [make_record([be(0x80000000), be(1), be(2), be(0),
                                        be(1)])])
    small = make_table(0x80000000, [
        make_record([sized(b"ab"), be(77), sized(b"\x01")]),
        make_record([None, None, None], index=1)])
    base = make_file([info, columns, index, small])
    at_info, at_columns, at_index, at_small = [
        44 + sum([len(x) for x in (info, columns, index, small)[:i]])
        for i in range(4)]
    family.fields(base, [(0, 4), (4, 8), (16, 4), (20, 4)])
    family.holes("array-offset", base, [(12, 4)], limits=[(15, 0, 31)])
    family.holes("tables", base, [(24, 4)], limits=[(27, 0, 31)])
    family.fields(base, [(12, 4), (24, 4)], name="any", tier="thorough")
    for number in range(4):
        low = base[31 + 4 * number] // 8 * 8
        family.holes(f"table-offset-{number}", base, [(28 + 4 * number, 4)],
                     limits=[(31 + 4 * number, low, low + 7)])
    for name, start, count in (("info", at_info, 5), ("columns", at_columns, 3),
                               ("index", at_index, 1), ("small", at_small, 2)):
        family.holes(f"{name}-size", base, [(start, 4)],
                     limits=[(start + 3, 0, 15)])
        family.holes(f"{name}-head", base, [(start + 8, 16)])
        family.holes(f"{name}-type", base, [(start + 4, 4)])
        family.holes(f"{name}-count", base, [(start + 24, 4)],
                     limits=[(start + 27, 0, 31)])
        family.holes(f"{name}-count-any", base, [(start + 24, 4)],
                     tier="thorough")
        for number in range(count):
            at = start + 28 + 4 * number
            low = base[at + 3] // 8 * 8
            family.holes(f"{name}-offset-{number}", base, [(at, 4)],
                         limits=[(at + 3, low, low + 7)])
            offset = int.from_bytes(base[at:at + 4], "big")
            if offset == 0:
                continue
            at = start + offset
            low = base[at + 3] // 16 * 16
            family.holes(f"{name}-{number}-size", base, [(at, 4)],
                         limits=[(at + 3, low, low + 15)])
            family.holes(f"{name}-{number}-size-any", base, [(at, 4)],
                         tier="thorough")
            family.holes(f"{name}-{number}-head", base, [(at + 4, 20)])
    at = at_info + 28 + 20
    family.holes("info-offsets", base, [(at + 24, 8)])
    family.holes("info-name", base, [(at + 40, 3)])
    for number, name in enumerate(("same", "attributes", "indexes", "other")):
        start = at_info + int.from_bytes(base[
            at_info + 28 + 4 * (number + (number > 0)):][:4], "big")
        family.holes(f"info-{name}-identifier", base, [(start + 32, 4)])
        family.holes(f"info-{name}-size", base, [(start + 36, 4)],
                     limits=[(start + 39, 0, 31)])
        family.holes(f"info-{name}-size-any", base, [(start + 36, 4)],
                     tier="thorough")
    at = at_index + 32
    family.holes("index-offsets", base, [(at + 24, 20)])
    family.holes("index-relation", base, [(at + 44, 4)])
    family.holes("index-values", base, [(at + 48, 16)])
    at = at_columns + 28 + 12
    for number in range(3):
        for field in range(6):
            family.holes(f"column-{number}-offset-{field}", base,
                         [(at + 24 + 4 * field, 4)],
                         tier="quick" if number < 2 else "thorough")
        offsets = [int.from_bytes(base[at + 24 + 4 * i:][:4], "big") - 1
                   for i in range(6)]
        family.holes(f"column-{number}-relation", base, [(at + offsets[0], 4)])
        family.holes(f"column-{number}-identifier", base,
                     [(at + offsets[1], 4)])
        family.holes(f"column-{number}-name-type", base,
                     [(at + offsets[2], 4)])
        family.holes(f"column-{number}-type", base, [(at + offsets[5], 4)])
        if offsets[3] > 0:
            family.holes(f"column-{number}-name-size", base,
                         [(at + offsets[3], 4)])
            family.holes(f"column-{number}-name", base,
                         [(at + offsets[3] + 4, 2)],
                         limits=[(at + offsets[3] + 4, 0x20, 0xff),
                                 (at + offsets[3] + 5, 0x20, 0xff)])
        at += int.from_bytes(base[at:at + 4], "big")
    at = at_small + 36
    for field in range(3):
        family.holes(f"value-offset-{field}", base,
                     [(at + 24 + 4 * field, 4)])
        family.holes(f"value-offset-null-{field}", base,
                     [(len(base) - 12 + 4 * field, 4)])
    family.holes("value-string-size", base, [(at + 36, 4)])
    family.holes("value-string", base, [(at + 40, 2)])
    family.holes("value-number", base, [(at + 42, 4)])
    family.holes("value-blob-size", base, [(at + 46, 4)])
    family.holes("value-blob", base, [(at + 50, 1)])
    family.cuts(base, [0, 3, 19, 20, 27, 43, at_info + 27, at_info + 47,
                       at_info + 71, at_info + 79, at_info + 91,
                       at_columns + 39, at_columns + 63, at_columns + 87,
                       at_columns + 100, at_index + 60, at_index + 75,
                       at_index + 95, at_small + 35, at_small + 59,
                       at_small + 71, at_small + 80, len(base) - 1])
    # A column of every type.
    info = make_table(0, [relation(0, b""), relation(2, b"ATTR"),
                          relation(3, b"three")])
    for kind in (1, 3, 4, 5, 7, 8):
        columns = make_table(2, [attribute(3, 0, kind, sized(b"n")),
                                 attribute(3, 1, 0, sized(b"m"))])
        values = make_table(3, [make_record([
            b"20200102030405Z\x00", sized(b"x")])])
        base = make_file([info, columns, values])
        at = len(base) - 29
        zero = [(at + i, 0, 0) for i in (0, 1, 2, 4, 5, 6)]
        family.holes(f"kind-{kind}-offset", base, [(at, 4)])
        family.holes(f"kind-{kind}-offsets", base, [(at, 8)],
                     limits=zero + [(at + 3, 0x20, 0x24),
                                    (at + 7, 0x30, 0x34)])
        family.holes(f"kind-{kind}-offsets-any", base, [(at, 8)], limits=zero,
                     tier="thorough")
        family.holes(f"kind-{kind}-value", base, [(at + 8, 4),
                                                  (at + 21, 3)])
    # A table without columns and one that is not defined.
    base = make_file([info, make_table(3, [make_record([]),
                                           make_record([be(1)])])])
    at = 36 + len(info)
    family.holes("no-columns", base, [(at + 4, 4)])
    family.holes("no-columns-size", base, [(at + 36, 4), (at + 60, 4)])
    family.holes("no-tables", make_file([]), [(24, 4)])


_register()

REGISTRY.add_reuse()
