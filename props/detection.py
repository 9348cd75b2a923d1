"""C27: Windows Defender scan DetectionHistory files."""

from dtformats import detection_history

from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

KEEP = ("Value data",)
SEPARATOR = "Magic.Version:1.2"

CATEGORIES = {
    0: "INVALID", 1: "ADWARE", 2: "SPYWARE", 3: "PASSWORDSTEALER",
    4: "TROJANDOWNLOADER", 5: "WORM", 6: "BACKDOOR", 7: "REMOTEACCESSTROJAN",
    8: "TROJAN", 9: "EMAILFLOODER", 10: "KEYLOGGER", 11: "DIALER",
    12: "MONITORINGSOFTWARE", 13: "BROWSERMODIFIER", 14: "COOKIE",
    15: "BROWSERPLUGIN", 16: "AOLEXPLOIT", 17: "NUKER",
    18: "SECURITYDISABLER", 19: "JOKEPROGRAM", 20: "HOSTILEACTIVEXCONTROL",
    21: "SOFTWAREBUNDLER", 22: "STEALTHNOTIFIER", 23: "SETTINGSMODIFIER",
    24: "TOOLBAR", 25: "REMOTECONTROLSOFTWARE", 26: "TROJANFTP",
    27: "POTENTIALUNWANTEDSOFTWARE", 28: "ICQEXPLOIT", 29: "TROJANTELNET",
    30: "EXPLOIT", 31: "FILESHARINGPROGRAM", 32: "MALWARE_CREATION_TOOL",
    33: "REMOTE_CONTROL_SOFTWARE", 34: "TOOL", 36: "TROJAN_DENIALOFSERVICE",
    37: "TROJAN_DROPPER", 38: "TROJAN_MASSMAILER",
    39: "TROJAN_MONITORINGSOFTWARE", 40: "TROJAN_PROXYSERVER", 42: "VIRUS",
    43: "KNOWN", 44: "UNKNOWN", 45: "SPP", 46: "BEHAVIOR",
    47: "VULNERABILTIY", 48: "POLICY", 49: "EUS", 50: "RANSOM", 51: "ASR"}

DESCRIPTIONS = {
    (0, 0): "Threat identifier", (0, 1): "Identifier",
    (1, 0): "UnknownMagic1", (1, 1): "Threat name", (1, 4): "Category",
    (2, 0): "UnknownMagic2", (2, 1): "Resource type",
    (2, 2): "Resource location", (2, 4): "Threat tracking data size",
    (2, 6): "Last threat status change time", (2, 12): "Domain user1",
    (2, 14): "Process name", (2, 18): "Initial detection time",
    (2, 20): "Remediation time", (2, 24): "Domain user2"}


def make(debug, writer):
    return detection_history.WindowsDefenderScanDetectionHistoryFile(
        debug=debug, output_writer=writer)


def utf16(data):
    """A text that ends with a terminator, or with its data."""
    end = 0
    while end < len(data) and data[end:end + 2] != b"\x00\x00":
        end += 2
    try:
        return data[:end].decode("utf-16-le")
    except UnicodeDecodeError:
        raise lib.Reject("UTF-16")


def uuid_text(data):
    order = (3, 2, 1, 0, -1, 5, 4, -1, 7, 6, -1, 8, 9, -1,
             10, 11, 12, 13, 14, 15)
    return "".join(["-" if x < 0 else f"{data[x]:02x}" for x in order])


def values_of(out, data):
    offset = 0
    result = []
    while offset < len(data):
        start = offset
        value, offset = value_at(out, data, offset)
        result.append((start, value))
    return result


def value_at(out, data, offset):
    size = lib.uint(data, offset, 4)
    kind = lib.uint(data, offset + 4, 4)
    end = offset + 8 + size
    after = end + -size % 8
    if after > len(data):
        raise lib.Reject("value")
    raw = data[offset + 8:end]
    inner = [lib.dump("Value data", data[offset:after]),
             lib.line("Data size", size),
             lib.line("Data type", f"0x{kind:08x}")]
    if kind == 0 or kind == 5 or kind == 6:
        if size != 4:
            raise lib.Reject("size")
        value = lib.uint(raw, 0, 4)
        inner.append(lib.line("Value integer", value))
    elif kind == 8:
        if size != 8:
            raise lib.Reject("size")
        value = lib.uint(raw, 0, 8)
        inner.append(lib.line("Value integer", value))
    elif kind == 10:
        if size != 8:
            raise lib.Reject("size")
        value = lib.uint(raw, 0, 8)
        inner.append(lib.line("Value FILETIME", lib.filetime(value)))
    elif kind == 0x15:
        value = utf16(raw)
        inner.append(lib.item("Value string", value))
    elif kind == 0x1e:
        if size != 16:
            raise lib.Reject("size")
        value = uuid_text(raw)
        inner.append(lib.line("Value GUID", value))
    elif kind == 0x28:
        value = raw
        inner.append(lib.dump("Data", raw))
    else:
        raise lib.Reject("type")
    inner.append(lib.dump("Alignment padding", data[end:after]))
    out.extend(inner)
    lib.close(out)
    return value, after


def describe(out, values):
    number = 0
    index = 0
    for _, value in values:
        if type(value) is not int and value == SEPARATOR:
            number = min(number + 1, 2)
            index = 0
        if number == 2 and index == 5:
            tracking(out, value)
        else:
            label = DESCRIPTIONS.get(
                (number, index), f"UNKNOWN_{number:d}_{index:d}")
            text = f"{value!s}"
            if number == 1 and index == 4:
                text = f"{text:s} ({CATEGORIES.get(value, 'UNKNOWN'):s})"
            out.append(lib.line(label, text))
        index += 1


def tracking(out, data):
    if type(data) is str or type(data) is int or not hasattr(data, "hex"):
        raise lib.Reject("tracking")
    end = lib.uint(data, 0, 4)
    offset = 4
    if end == 1:
        values = lib.layout(out, data, 0, (
            ("Version", 4, "d"), ("Header size", 4, "d"),
            ("Values data size", 4, "d"), ("Total data size", 4, "d"),
            ("Unknown2", 4, "x8")))
        offset = values[1] + 4
        end = values[3]
    if end > len(data):
        raise lib.Reject("tracking")
    while offset < end:
        offset = tracking_value(out, data, offset)


def tracking_value(out, data, offset):
    size = lib.uint(data, offset, 4)
    key_end = offset + 4 + size
    if key_end + 4 > len(data):
        raise lib.Reject("tracking value")
    key = utf16(data[offset + 4:key_end])
    kind = lib.uint(data, key_end, 4)
    start = key_end + 4
    inner = [lib.line("Key string size", size),
             lib.item("Key string", key),
             lib.line("Value type", f"0x{kind:08x}")]
    if kind == 5 or kind == 3 or kind == 4:
        width = {3: 4, 4: 8, 5: 1}[kind]
        inner.append(lib.line("Value integer", lib.uint(data, start, width)))
        end = start + width
    elif kind == 6:
        length = lib.uint(data, start, 4)
        end = start + 4 + length
        if end > len(data):
            raise lib.Reject("tracking value")
        inner.append(lib.line("Value string size", length))
        inner.append(lib.item("Value string", utf16(data[start + 4:end])))
    elif kind == 7:
        end = start + 5
        if end > len(data):
            raise lib.Reject("tracking value")
        inner.append(lib.dump("Value data", data[start:end]))
    else:
        raise lib.Reject("tracking value")
    out.extend(inner)
    lib.close(out)
    return end


def history(out, data):
    describe(out, values_of(out, data))


def run(env, base, holes, size=None, limits=(), before=()):
    data = lib.fill(env, base, holes, size, limits)
    result, text, _ = lib.read_file(
        env, make, data, keep=KEEP, before=before)
    want, expected = lib.reference(history, data)
    env.check("outcome", result, want)
    env.check("values", text, expected)
    result, text, _ = lib.read_file(env, make, data, keep=KEEP, debug=False)
    quiet, _ = lib.reference(values_of, data)
    env.check("quiet outcome", result[0], quiet[0])
    if quiet[0] == "raise":
        env.check("quiet error", result, quiet)
    env.check("quiet text", text, "")
    env.reach(want[0])


run.reusable = True


# Cases.


def le(value, size):
    return value.to_bytes(size, "little")


def value_base(kind, raw):
    return le(len(raw), 4) + le(kind, 4) + raw + bytes(-len(raw) % 8)


def text(value):
    return value_base(0x15, value.encode("utf-16-le") + b"\0\0")


def number(value, kind=6):
    return value_base(kind, le(value, 4))


def key(name, kind, raw):
    raw_name = name.encode("utf-16-le") + b"\0\0"
    return le(len(raw_name), 4) + raw_name + le(kind, 4) + raw


def tracked(*values, header=False):
    body = b"".join(values)
    if header:
        return le(1, 4) + le(16, 4) + le(len(body), 4) + le(
            20 + len(body), 4) + le(9, 4) + body
    return le(4 + len(body), 4) + body


def file_base(first=None, second=None, third=None, more=()):
    """Bytes of a file and the offsets of its values."""
    values = list(first or [number(5, 0), value_base(0x1e, bytes(range(16)))])
    if second is not None:
        values += [text(SEPARATOR)] + list(second)
    if third is not None:
        values += [text(SEPARATOR)] + list(third)
    values += list(more)
    offsets = []
    data = b""
    for value in values:
        offsets.append(len(data))
        data += value
    return data, offsets


def _register():
    family = lib.Family(REGISTRY, "C27", "detection", run)
    for kind, raw in ((0, le(5, 4)), (5, le(6, 4)), (6, le(7, 4)),
                      (8, le(1 << 40, 8)), (10, le(0x01d700000000, 8)),
                      (0x15, b"a\0b\0\0\0"), (0x15, b"a\0\0\0b\0"),
                      (0x15, b"\x34\xd8\x1e\xdd"), (0x1e, bytes(range(16))),
                      (0x28, b"binary")):
        base, _ = file_base([value_base(kind, raw), number(1)])
        name = f"type-{kind:x}-{raw[:1].hex()}{len(raw)}"
        if raw[2:3] == b"\0":
            name += "-end"
        family.holes(f"{name}-data", base, [(8, min(4, len(raw)))])
        if len(raw) > 4:
            family.holes(f"{name}-rest", base, [(12, len(raw) - 4)])
        family.holes(f"{name}-kind", base, [(4, 4)])
        family.holes(f"{name}-size", base, [(0, 4)],
                     limits=[(1, 0, 0), (2, 0, 0)])
        family.holes(f"{name}-size-any", base, [(0, 4)], tier="thorough")
        family.cuts(base, range(1, len(base), 3), name=f"{name}-cut")
        if len(raw) % 8:
            family.holes(f"{name}-padding", base, [
                (8 + len(raw), -len(raw) % 8)])
        family.holes(f"{name}-second", base, [(len(base) - 16, 5)],
                     limits=[(len(base) - 15, 0, 0),
                             (len(base) - 14, 0, 0)])
    family.holes("empty", b"", [])
    base, at = file_base(first=[number(1), number(2), number(3)], second=[
        text("name"), number(0), number(1), number(8), number(2)])
    family.holes("category", base, [(at[7] + 8, 4)])
    family.holes("set-2", base, [(at[4] + 8, 2), (at[8] + 8, 1)])
    family.holes("separator", base, [(at[3] + 8 + 32, 2)])
    family.holes("separator-first", base, [(at[3] + 8, 2)])
    for kind, raw in ((8, le(8, 8)), (10, le(8, 8)), (0x15, b"8\0"),
                      (0x28, b""), (0x28, b"8"), (0x1e, bytes(16))):
        base, at = file_base(second=[
            text("name"), number(0), number(1), value_base(kind, raw)])
        family.holes(f"category-{kind:x}-{len(raw)}", base,
                     [(at[0] + 8, 1)])
    values = (key("a", 5, b"\x01"), key("bc", 3, le(3, 4)),
              key("d", 4, le(4, 8)), key("e", 6, le(4, 4) + b"x\0\0\0"),
              key("", 7, b"12345"))
    for header in (False, True):
        name = "header" if header else "tracking"
        prefix = 20 if header else 4
        raw = tracked(*values, header=header)
        base, at = file_base(second=[number(1)], third=[
            text("file"), text("C:\\a"), number(0), number(len(raw)),
            value_base(0x28, raw), value_base(10, le(0x01d700000000, 8)),
            number(7)])
        start = at[9] + 8
        family.holes(f"{name}-size", base, [(start, 4)], limits=[
            (start + 1, 0, 0), (start + 2, 0, 0)])
        family.holes(f"{name}-size-any", base, [(start, 4)],
                     tier="thorough")
        if header:
            family.holes("header-header-size", base, [(start + 4, 1)])
            family.holes("header-header-high", base, [(start + 5, 3)])
            family.holes("header-rest", base, [(start + 8, 4),
                                               (start + 16, 4)])
            family.holes("header-total", base, [(start + 12, 4)],
                         limits=[(start + 13, 0, 0)])
        position = start + prefix
        for index, value in enumerate(values):
            length = lib.uint(value, 0, 4)
            here = f"{name}-{index}"
            family.holes(f"{here}-key-size", base, [(position, 1)])
            family.holes(f"{here}-key-size-high", base, [(position + 1, 3)])
            if length > 2:
                family.holes(f"{here}-key", base, [(position + 4, 2)])
            family.holes(f"{here}-kind", base, [(position + 4 + length, 4)])
            family.holes(f"{here}-value", base, [
                (position + 8 + length, len(value) - 8 - length)])
            position += len(value)
        family.holes(f"{name}-later", base, [(at[10] + 8, 4),
                                             (at[11] + 8, 1)])
    for name, value in (("integer", number(5)), ("text", text("x")),
                        ("empty", value_base(0x28, b"")),
                        ("short", value_base(0x28, b"\x04\0\0")),
                        ("guid", value_base(0x1e, bytes(16))),
                        ("least", value_base(0x28, le(4, 4))),
                        ("header", value_base(0x28, le(1, 4) + bytes(15)))):
        base, at = file_base(second=[number(1)], third=[
            text("file"), text("C:\\a"), number(0), number(0), value])
        family.holes(f"untracked-{name}", base, [(at[0] + 8, 1)])
    base, at = file_base(second=[], third=[number(x) for x in range(26)])
    family.holes("all", base, [(8, 4)])
    base, at = file_base(second=[], third=[number(1)] * 4)
    family.holes("third", base, [(at[4] + 8, 4)])
    base, at = file_base(second=[], third=[], more=[
        text(SEPARATOR), number(4), text("t")])
    family.holes("fourth", base, [(at[5] + 8, 4)])


_register()

REGISTRY.add_reuse()
