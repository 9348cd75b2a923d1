"""C30, C31: format strings and values of the Apple unified logging."""

import struct

from dfdatetime import posix_time

from dtformats import unified_logging

from props import aul_tables
from props import lib

REGISTRY = lib.Registry()
cases = REGISTRY.cases
find_case = REGISTRY.find

UNSUPPORTED = "<decode: unsupported value>"

FLAGS = ["-", "+", "0", " ", "#"]
SPECIFIERS = "@aAcCdDeEfFgGimnoOpPsSuUxX"

INTERNAL = {
    "@": "s", "P": "s", "s": "s",
    "a": "f", "A": "f", "e": "f", "E": "f", "f": "f", "F": "f", "g": "f",
    "G": "f",
    "d": "i", "D": "i", "i": "i",
    "c": "u", "o": "u", "O": "u", "p": "u", "u": "u", "U": "u", "x": "u",
    "X": "u",
    "m": "m",
}

IGNORED = ["", "bluetooth:OI_STATUS", "private", "public", "sensitive",
           "xcode:size-in-bytes"]


# Format strings.

class Operator:

    def __init__(self, decoder, flags, width, precision, specifier):
        self.flags = flags
        self.width = width
        self.precision = precision
        self.specifier = specifier
        names = []
        for name in decoder.split(","):
            name = name.strip()
            if name[:5] == "name=":
                continue
            if name in IGNORED:
                continue
            names.append(name)
        if not names and specifier in INTERNAL:
            names.append("internal:" + INTERNAL[specifier])
        self.names = names


def digits_at(text, index):
    end = index
    while end < len(text) and "0" <= text[end] and text[end] <= "9":
        end += 1
    return end


def operator_at(text, start):
    """The operator after the percent sign at start, and where it ends."""
    index = start + 1
    decoder = ""
    if index < len(text) and text[index] == "{":
        end = index + 1
        while end < len(text) and text[end] != "}":
            end += 1
        if end == len(text) or end - index < 2 or end - index > 129:
            return None, start
        decoder = text[index + 1:end]
        index = end + 1
    begin = index
    while index < len(text) and index - begin < 5 and text[index] in "-+0 #":
        index += 1
    flags = text[begin:index] or None
    width = None
    if index < len(text) and text[index] == "*":
        width = "*"
        index += 1
    else:
        end = digits_at(text, index)
        if end > index:
            width = text[index:end]
        index = end
    precision = None
    if index < len(text) and text[index] == ".":
        begin = index
        index += 1
        if index < len(text) and text[index] == "*":
            index += 1
        else:
            index = digits_at(text, index)
        precision = text[begin:index]
    if index < len(text) and text[index] in "hl":
        if index + 1 < len(text) and text[index + 1] == text[index]:
            index += 2
        else:
            index += 1
    elif index < len(text) and text[index] in "jLtqz":
        index += 1
    if index >= len(text):
        return None, start
    for specifier in SPECIFIERS:
        if text[index] == specifier:
            return Operator(
                decoder, flags, width, precision, specifier), index + 1
    return None, start


def split(text):
    """The literal texts and operators of a format string."""
    parts = []
    literal = ""
    index = 0
    while index < len(text):
        if text[index] == "%":
            operator, end = operator_at(text, index)
            if operator is not None:
                parts.append(literal)
                parts.append(operator)
                literal = ""
                index = end
                continue
            if index + 1 < len(text) and text[index + 1] == "%":
                literal = literal + "%"
                index += 2
                continue
        literal = literal + text[index]
        index += 1
    parts.append(literal)
    return parts


VALUES = ["<{0}>", "", "%d"]


def format_string(env, before, size, after, ascii_only=False, again=None):
    data = env.bytes("text", size)
    text = before + data.decode("ascii" if ascii_only else "latin-1") + after
    formatter = unified_logging.StringFormatter()
    if again is not None:
        formatter.ParseFormatString(again)
        formatter.FormatString(["x", "y"])
    formatter.ParseFormatString(text)
    parts = split(text)
    operators = parts[1::2]
    for index, operator in enumerate(operators):
        got = formatter.GetFormatStringOperator(index)
        env.check(f"{index}:flags", got.flags, operator.flags)
        env.check(f"{index}:width", got.width, operator.width)
        env.check(f"{index}:precision", got.precision, operator.precision)
        env.check(f"{index}:specifier", got.specifier, operator.specifier)
        env.check(f"{index}:decoders",
                  formatter.GetDecoderNamesByIndex(index), operator.names)
    count = len(operators)
    env.check("operators", formatter.GetFormatStringOperator(count), None)
    env.check("decoders", formatter.GetDecoderNamesByIndex(count), [])
    for supplied in range(len(VALUES) + 1):
        values = VALUES[:supplied]
        want = ""
        for index, part in enumerate(parts):
            if index % 2 == 0:
                want = want + part
            elif index // 2 < supplied:
                want = want + values[index // 2]
            else:
                want = want + "<decode: missing data>"
        env.check(f"text of {supplied}", formatter.FormatString(values), want)
        env.check(f"values of {supplied}", values, VALUES[:supplied])
    env.reach("parsed")


# Formatting a value by its operator.

def padded(text, flags, width):
    missing = width - len(text)
    if missing > 0:
        spaces = " " * missing
        text = text + spaces if "-" in flags else spaces + text
    return text


def c_integer(value, flags, width, precision, specifier):
    """printf of an integer; the precision of integers is not supported."""
    if specifier == "c" or specifier == "C":
        if value > 0x10FFFF:
            return UNSUPPORTED
        return padded(chr(value), flags, width)
    if specifier == "d" and width and precision:
        raise lib.Unspecified("precision")
    sign = ""
    if specifier in "dDim":
        if value < 0:
            sign = "-"
            value = -value
        elif "+" in flags:
            sign = "+"
        elif " " in flags:
            sign = " "
    if specifier in "oO":
        if "#" in flags:
            raise lib.Unspecified("alternate form of octal values")
        text = f"{value:o}"
    elif specifier in "xp":
        text = f"{value:x}"
    elif specifier == "X":
        text = f"{value:X}"
    else:
        text = f"{value:d}"
    if specifier == "p":
        sign = "0x"
        if not width:
            # Zero padding without a width has no effect.
            return sign + text
    elif "#" in flags and specifier in "xX" and value != 0:
        sign = "0" + specifier
    if "0" in flags and "-" not in flags:
        missing = width - len(text) - len(sign)
        if missing > 0:
            text = "0" * missing + text
    return padded(sign + text, flags, width)


def c_string(text, flags, width, precision):
    if precision is not None and precision not in (".", ".*", ".0"):
        text = text[:int(precision[1:])]
    return padded(text, flags, width)


def c_float(value, flags, width, precision, specifier):
    if specifier in "aA":
        specifier = "f"
    if value != value or value in (float("inf"), float("-inf")):
        if "0" in flags:
            raise lib.Unspecified("padding of what is not a number")
    spec = "%" + flags
    if width:
        spec += str(width)
    if precision is not None and precision != ".*":
        spec += precision
    return (spec + specifier) % value


def operator_of(env, flag_count, widths, precisions, specifiers):
    flags = ""
    for index in range(flag_count):
        flags = flags + env.pick(f"flag{index}", FLAGS)
    width = env.pick("width", widths)
    precision = env.pick("precision", precisions)
    specifier = env.pick("specifier", specifiers)
    number = 0
    if width is not None and width != "*":
        number = int(width)
    return unified_logging.FormatStringOperator(
        flags=flags or None, precision=precision, specifier=specifier,
        width=width), flags, number, width, precision, specifier


def settle(env, function, reference):
    got = lib.outcome(function)
    try:
        want = ("ok", reference())
    except lib.Unspecified:
        env.check("handled", got[0], "ok")
        env.reach("unspecified")
        return
    env.check("text", got, want)
    env.reach("formatted")


def integer_operator(env, signed, flag_count, widths, precisions, specifiers,
                     sizes):
    operator, flags, number, width, precision, specifier = operator_of(
        env, flag_count, widths, precisions, specifiers)
    size = env.pick("size", sizes)
    data = env.bytes("value", size)
    if signed:
        decoder = unified_logging.SignedIntegerFormatStringDecoder()
    else:
        decoder = unified_logging.UnsignedIntegerFormatStringDecoder()

    def reference():
        if size not in (1, 2, 4, 8):
            return UNSUPPORTED
        value = (lib.sint if signed else lib.uint)(data, 0, size)
        if specifier == "d" and width and precision:
            raise lib.Unspecified("precision of an integer")
        return c_integer(value, flags, number, precision, specifier)

    settle(env, lambda: decoder.FormatValue(
        data, format_string_operator=operator), reference)


def string_operator(env, flag_count, widths, precisions, specifiers, size):
    operator, flags, number, _, precision, specifier = operator_of(
        env, flag_count, widths, precisions, specifiers)
    data = env.bytes("value", size)
    if specifier == "P":
        precision = None
    decoder = unified_logging.StringFormatStringDecoder()
    settle(env, lambda: decoder.FormatValue(
        data, format_string_operator=operator),
        lambda: reference_string(data, flags, number, precision))


def text_of(data):
    """A string value: UTF-8, with any end-of-string characters removed."""
    try:
        text = data.decode("utf-8")
    except UnicodeDecodeError:
        return None
    end = len(text)
    while end > 0 and text[end - 1] == "\x00":
        end -= 1
    return text[:end]


def reference_string(data, flags, width, precision):
    if len(data) == 0:
        return "(null)"
    text = text_of(data)
    if text is None:
        return UNSUPPORTED
    return c_string(text, flags, width, precision)


FLOATS = [0.0, -0.0, 1.5, -2.25, 12345.678, 1e300, -1e-5, float("inf"),
          float("-inf"), float("nan")]


def float_operator(env, flag_count, widths, precisions, specifiers, values,
                   size):
    operator, flags, number, _, precision, specifier = operator_of(
        env, flag_count, widths, precisions, specifiers)
    value = FLOATS[env.pick("number", values)]
    if size == 4:
        data = struct.pack("<f", value)
        value = struct.unpack("<f", data)[0]
    else:
        data = struct.pack("<d", value)
    decoder = unified_logging.FloatingPointFormatStringDecoder()
    settle(env, lambda: decoder.FormatValue(
        data, format_string_operator=operator),
        lambda: c_float(value, flags, number, precision, specifier))


# Decoders of values.

def le(data):
    value = 0
    shift = 0
    for byte in data:
        value = value + (byte << shift)
        shift += 8
    return value


def lookup(table, value):
    return table.get(value, f"<decode: unknown value: {value:d}>")


def boolean(no, yes):

    def decode(data):
        for byte in data:
            if byte != 0:
                return yes
        return no

    return decode


def table_decoder(table, quote=False):

    def decode(data):
        if len(data) != 4:
            return UNSUPPORTED
        text = lookup(table, le(data))
        return f'"{text}"' if quote else text

    return decode


def authorization(data):
    return f'"{lookup(aul_tables.AUTHORIZATION, le(data))}"'


def errno(data):
    if len(data) != 4:
        return UNSUPPORTED
    return lookup(aul_tables.DARWIN_ERRORS, lib.sint(data, 0, 4))


def extended_errno(data):
    if len(data) != 4:
        return UNSUPPORTED
    return f"[{lib.sint(data, 0, 4):d}: {errno(data)}]"


def file_mode(data):
    value = le(data[:2])
    kind = value // 0x1000
    text = "-"
    for number, letter in ((1, "p"), (2, "c"), (4, "d"), (6, "b"),
                           (10, "l"), (12, "s")):
        if kind == number:
            text = letter
    for bit in range(8, -1, -1):
        if value >> bit & 1 == 1:
            text = text + "rwx"[(8 - bit) % 3]
        else:
            text = text + "-"
    return text


def ipv4(data):
    if len(data) != 4:
        return UNSUPPORTED
    return f"{data[0]:d}.{data[1]:d}.{data[2]:d}.{data[3]:d}"


def ipv6(data):
    if len(data) != 16:
        return UNSUPPORTED
    return ":".join([f"{256 * data[index] + data[index + 1]:04x}"
                     for index in range(0, 16, 2)])


def socket_address(data):
    if len(data) == 0:
        return "<NULL>"
    if len(data) == 16 and data[1] == 2:
        return ipv4(data[4:8])
    if len(data) == 28 and data[1] == 30:
        groups = [256 * data[index] + data[index + 1]
                  for index in range(8, 24, 2)]
        texts = ["" if group == 0 else f"{group:04x}" for group in groups]
        text = ":".join(texts)
        return "::" if text == ":::::::" else text
    return UNSUPPORTED


def client_manager(data):
    if len(data) != 8:
        return UNSUPPORTED
    restricted = "false" if le(data[4:8]) == 0 else "true"
    return ('{"locationRestricted":' + restricted
            + ',"locationServicesEnabledStatus":' + f"{le(data[:4]):d}" + "}")


def location_manager(data):
    if len(data) not in (64, 72):
        return UNSUPPORTED
    members = {}
    for name, (offset, kind) in aul_tables.LOCATION_MANAGER.items():
        if offset >= len(data):
            continue
        if kind == "bool":
            text = "false" if data[offset] == 0 else "true"
        elif kind == "float":
            text = f"{struct.unpack('<d', data[offset:offset + 8])[0]:.0f}"
        else:
            size = {"u4": 4, "i4": 4, "i8": 8}[kind]
            value = lib.uint(data, offset, size)
            if kind != "u4":
                value = lib.sint(data, offset, size)
            text = f"{value:d}"
        members[name] = text
    return "{" + ",".join([
        f'"{name}":{members[name]}' for name in aul_tables.LOCATION_ORDER
        if name in members]) + "}"


def escape_only(data):
    text = text_of(data)
    if text is None:
        return UNSUPPORTED
    out = ""
    for character in text:
        out = out + ("\\/" if character == "/" else character)
    return '"' + out + '"'


BASE64 = ("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
          "0123456789+/")


def mask_hash(data):
    if len(data) == 0:
        return "<mask.hash: (null)>"
    text = ""
    for index in range(0, len(data), 3):
        chunk = data[index:index + 3]
        bits = chunk[0] << 16
        if len(chunk) > 1:
            bits = bits + (chunk[1] << 8)
        if len(chunk) > 2:
            bits = bits + chunk[2]
        for place in range(4):
            if place > len(chunk):
                text = text + "="
            else:
                text = text + BASE64[bits >> (18 - 6 * place) & 63]
    return f"<mask.hash: '{text}'>"


def dns_counts(values):
    return "/".join([f"{value:d}" for value in values])


def counters(data):
    if len(data) != 8:
        return UNSUPPORTED
    return dns_counts([le(data[6:8]), le(data[4:6]), le(data[2:4]),
                       le(data[:2])])


def dns_flags(value):
    text = "R/" if value >= 0x8000 else "Q/"
    operation = value >> 11 & 15
    names = ["Query", "IQuery", "Status", "Unassigned", "Notify", "Update",
             "DSO"]
    text = text + (names[operation] if operation < len(names) else "?")
    flags = []
    for bit, name in ((10, "AA"), (9, "TC"), (8, "RD"), (7, "RA"), (5, "AD"),
                      (4, "CD")):
        if value >> bit & 1 == 1:
            flags.append(name)
    codes = aul_tables.DNS_RESPONSES
    code = value & 15
    return (text + ", " + ", ".join(flags) + ", "
            + (codes[code] if code < len(codes) else "?"))


def identifier_and_flags(identifier, flags):
    return (f"id: 0x{identifier:04X} ({identifier:d}), "
            f"flags: 0x{flags:04X} ({dns_flags(flags)})")


def dns_header(data):
    if len(data) != 12:
        return UNSUPPORTED
    values = [lib.uint(data, offset, 2, True) for offset in range(0, 12, 2)]
    return (identifier_and_flags(values[0], values[1]) + ", counts: "
            + dns_counts(values[2:]))


def dns_idflags(data):
    if len(data) != 8:
        return UNSUPPORTED
    return identifier_and_flags(le(data[2:4]), le(data[:2]))


def zero_terminated(data, offset):
    end = offset
    while end < len(data) and data[end] != 0:
        end += 1
    if end == len(data):
        raise lib.Unspecified("string without an end")
    try:
        text = data[offset:end].decode("utf-8")
    except UnicodeDecodeError:
        raise lib.Unspecified("text")
    return text, end + 1


def membership(data):
    if len(data) == 0:
        return UNSUPPORTED
    kinds = {0x23: ("user", False), 0x24: ("user", True),
             0x44: ("group", True), 0xA0: ("user", True),
             0xA3: ("user", False), 0xA4: ("user", True),
             0xC3: ("group", False)}
    for kind, (name, named) in kinds.items():
        if data[0] == kind:
            if len(data) == 1:
                return UNSUPPORTED
            if named:
                member, offset = zero_terminated(data, 1)
            else:
                if len(data) < 5:
                    raise lib.Unspecified("identifier")
                member, offset = f"{lib.sint(data, 1, 4):d}", 5
            domain, _ = zero_terminated(data, offset)
            return f"{name}: {member}@{domain}"
    return f"ERROR: unsupported type: 0x{data[0]:02x}"


def security_identifier(data):
    if len(data) < 8:
        return UNSUPPORTED
    if len(data) < 8 + 4 * data[1]:
        raise lib.Unspecified("sub authorities")
    parts = [f"{le(data[8 + 4 * index:12 + 4 * index]):d}"
             for index in range(data[1])]
    if not parts:
        raise lib.Unspecified("no sub authorities")
    authority = lib.uint(data, 2, 2, True) * 0x100000000 + lib.uint(
        data, 4, 4, True)
    return f"S-{data[0]:d}-{authority:d}-" + "-".join(parts)


def telemetry_value(data, specifier):
    """The value of a signpost, by its conversion specifier without flags."""
    if len(data) == 0:
        return ""
    if specifier in "aAeEfFgG":
        if len(data) not in (4, 8):
            return UNSUPPORTED
        return "%.16g" % struct.unpack(
            "<f" if len(data) == 4 else "<d", data)[0]
    if specifier in "cCoOpuUxXdDim":
        if len(data) not in (1, 2, 4, 8):
            return UNSUPPORTED
        value = le(data)
        if specifier in "dDim":
            value = lib.sint(data, 0, len(data))
        return c_integer(value, "", 0, None, specifier)
    if specifier in "@sS":
        text = text_of(data)
        return UNSUPPORTED if text is None else text
    return UNSUPPORTED


def signpost(label, specifier):

    def decode(data):
        return (f"__##__signpost.{label}#_##_#"
                f"{telemetry_value(data, specifier)}##__##")

    return decode


def signpost_time(label):

    def decode(data):
        if len(data) != 8:
            return UNSUPPORTED
        return (f"__##__signpost.description#____#{label}_time#_##_#"
                f"{le(data):d}##__##")

    return decode


def signpost_text(number):

    def decode(data):
        text = text_of(data)
        if text is None:
            return UNSUPPORTED
        return (f"__##__signpost.telemetry#____#string{number}#_##_#"
                f"{text}##__##")

    return decode


def time_value(data):
    value = le(data)
    if value >= 253402300800:
        return UNSUPPORTED
    return posix_time.PosixTime(timestamp=value).CopyToDateTimeString()


def unique_identifier(data):
    if len(data) != 16:
        return UNSUPPORTED
    text = ""
    for index, byte in enumerate(data):
        if index in (4, 6, 8, 10):
            text = text + "-"
        text = text + f"{byte:02X}"
    return text


def unsupported_decoder(name):
    return lambda data: f"<decode: unsupported decoder: {name}>"


NUMERIC = [0, 1, 2, 3, 4, 5, 8]

DECODERS = {
    "bool": (boolean("false", "true"), [0, 1, 2, 4, 8]),
    "BOOL": (boolean("NO", "YES"), [0, 1, 2, 4]),
    "darwin.errno": (extended_errno, NUMERIC),
    "darwin.mode": (file_mode, [0, 1, 2, 4]),
    "errno": (extended_errno, NUMERIC),
    "in_addr": (ipv4, [0, 3, 4, 5, 16]),
    "in6_addr": (ipv6, [0, 4, 15, 16, 17]),
    "location:_CLClientManagerStateTrackerState": (
        client_manager, [0, 7, 8, 9]),
    "location:CLClientAuthorizationStatus": (authorization, [0, 1, 4, 8]),
    "location:escape_only": (escape_only, [0, 1, 2, 3]),
    "location:SqliteResult": (
        table_decoder(aul_tables.SQLITE_RESULTS, True), NUMERIC),
    "mdns:acceptable": (boolean("unacceptable", "acceptable"), [0, 1, 4]),
    "mdns:addrmv": (boolean("rmv", "add"), [0, 1, 4]),
    "mdns:dns.counts": (counters, [0, 7, 8, 9]),
    "mdns:dns.idflags": (dns_idflags, [0, 7, 8, 9]),
    "mdns:dnshdr": (dns_header, [0, 11, 12, 13]),
    "mdns:protocol": (
        table_decoder({1: "UDP", 2: "TCP", 4: "HTTPS"}), NUMERIC),
    "mdns:nreason": (table_decoder(aul_tables.MDNS_REASONS), NUMERIC),
    "mdns:rrtype": (table_decoder(aul_tables.RECORD_TYPES), NUMERIC),
    "mdns:yesno": (boolean("no", "yes"), [0, 1, 4]),
    "network:in_addr": (ipv4, [0, 3, 4, 5, 16]),
    "network:in6_addr": (ipv6, [0, 4, 15, 16, 17]),
    "network:sockaddr": (socket_address, [0, 1, 2, 15, 16, 27, 28, 29]),
    "mask.hash": (mask_hash, [0, 1, 2, 3, 4]),
    "odtypes:mbr_details": (membership, [0, 1, 2, 4, 5, 6, 7]),
    "odtypes:mbridtype": (
        table_decoder(aul_tables.MEMBERSHIP_TYPES), NUMERIC),
    "odtypes:nt_sid_t": (security_identifier, [0, 7, 8, 12, 16]),
    "odtypes:ODError": (
        table_decoder(aul_tables.DIRECTORY_ERRORS), NUMERIC),
    "signpost.description:begin_time": (signpost_time("begin"), [0, 4, 8]),
    "signpost.description:end_time": (signpost_time("end"), [0, 4, 8]),
    "signpost.telemetry:string1": (signpost_text(1), [0, 1, 2, 3]),
    "signpost.telemetry:string2": (signpost_text(2), [0, 1, 2, 3]),
    "sockaddr": (socket_address, [0, 1, 2, 15, 16, 27, 28, 29]),
    "time_t": (time_value, [0, 1, 4, 8]),
    "uuid_t": (unique_identifier, [0, 1, 15, 16, 17]),
    "unknown": (unsupported_decoder("unknown"), [0, 4]),
    "signpost.telemetry:number4": (
        unsupported_decoder("signpost.telemetry:number4"), [0, 4]),
}

# Values with many combinations of names: in parts.
ANY_THOROUGH = {
    ("mdns:dns.idflags", 8): [[(0, 1), (4, 4)], [(1, 1)], [(2, 2)]],
    ("mdns:dnshdr", 12): [[(0, 2), (4, 8)], [(2, 1)], [(3, 1)]],
    ("darwin.mode", 4): [[(0, 1)], [(1, 3)]],
    ("darwin.mode", 2): [[(0, 1)], [(1, 1)]],
}

SIGNPOSTS = {
    "signpost.description:attribute": "description#____#attribute",
    "signpost.telemetry:number1": "telemetry#____#number1",
    "signpost.telemetry:number2": "telemetry#____#number2",
    "signpost.telemetry:number3": "telemetry#____#number3",
}


def decode_value(env, text, data, reference):
    formatter = unified_logging.StringFormatter()
    formatter.ParseFormatString(text)
    reader = unified_logging.TraceV3File()
    got = lib.outcome(reader._DecodeValue, formatter, 0, data)
    try:
        want = ("ok", reference(data))
    except lib.Unspecified:
        env.check("handled", lib.handled(got), True)
        env.reach("unspecified")
        return
    env.check("text", got, want)
    env.reach("decoded")


def decoder(env, name, size, fixed="", holes=None):
    if holes is None:
        data = env.bytes("value", size)
    else:
        data = lib.fill(env, fixed, holes)
    decode_value(env, "%{public, " + name + "}d", data, DECODERS[name][0])


def signpost_value(env, name, specifier, size, fixed=None):
    data = env.bytes("value", size) if fixed is None else bytes.fromhex(fixed)
    decode_value(env, "%{" + name + "}" + specifier, data,
                 signpost(SIGNPOSTS[name], specifier))


def internal_value(env, specifier, size):
    data = env.bytes("value", size)

    def reference(data):
        kind = INTERNAL.get(specifier)
        if kind is None:
            return "<decode: missing decoder>"
        if kind == "m":
            return errno(data)
        if kind == "s":
            return reference_string(data, "", 0, None)
        if size not in ((4, 8) if kind == "f" else (1, 2, 4, 8)):
            return UNSUPPORTED
        value = (lib.sint if kind == "i" else lib.uint)(data, 0, size)
        return c_integer(value, "", 0, None, specifier)

    decode_value(env, "%{private}" + specifier, data, reference)


def location_value(env, fixed, holes):
    data = lib.fill(env, fixed, holes)
    decode_value(env, "%{location:_CLLocationManagerStateTrackerState}d",
                 data, location_manager)


def _register():
    add = REGISTRY.add
    # The grammar.
    for number, (before, size, after, tier) in enumerate((
            ("", 1, "", "quick"), ("", 2, "", "quick"),
            ("%", 1, "", "quick"), ("%", 2, "", "quick"),
            ("%", 1, "d", "quick"), ("%", 2, "d", "quick"),
            ("a%", 2, "s}", "quick"), ("{%5", 2, "x%%", "quick"),
            ("%.", 2, "f", "quick"), ("%-08.3", 2, "d", "quick"),
            ("%{", 1, "}d", "quick"), ("%{", 2, "}s", "quick"),
            ("%{publi", 1, "}d", "quick"), ("%{name", 1, "bool}d", "quick"),
            ("%{private", 1, "uuid_t}d", "quick"),
            ("%{ public ,", 1, "errno }m", "quick"),
            ("%d", 2, "%s", "quick"), ("%d%", 1, "%s{}", "quick"),
            ("%l", 2, "", "quick"), ("%h", 2, "", "quick"),
            ("%+-0 #", 2, "d", "quick"), ("%123", 1, "4X", "quick"),
            ("%*.*", 1, "x", "quick"), ("%s%s%s%", 1, "", "quick"),
            ("%{" + 127 * "a", 1, "}d", "quick"),
            ("%{" + 127 * "a", 2, "}d", "quick"),
            ("%", 3, "", "thorough"), ("", 3, "", "thorough"),
            ("%", 3, "d", "thorough"), ("%{", 3, "}d", "thorough"),
            ("%d%", 3, "", "thorough"), ("%", 4, "d", "thorough"))):
        add("C30", f"grammar-{number}", format_string,
            {"before": before, "size": size, "after": after}, tier=tier,
            bounds=f"format string {before[:12]!r}.. with {size} symbolic "
                   f"characters, followed by {after!r}")
    add("C30", "grammar-again", format_string,
        {"before": "", "size": 2, "after": "", "again": "%d %s {"},
        bounds="format string of 2 symbolic characters, by a formatter that "
               "parsed another before")
    # Rendering.
    every = [None, "5", "12", "*"]
    for signed, specifiers in ((True, "dDi"), (False, "uUxXoOpcC")):
        name = "signed" if signed else "unsigned"
        for specifier in specifiers:
            for size in (1, 4):
                add("C30", f"{name}-{specifier}-{size}", integer_operator,
                    {"signed": signed, "flag_count": 1, "widths": every,
                     "precisions": [None], "specifiers": [specifier],
                     "sizes": [size]},
                    bounds=f"any value of {size} bytes, any flag, width "
                           "none, 5, 12 or in a value")
            add("C30", f"{name}-{specifier}-flags", integer_operator,
                {"signed": signed, "flag_count": 3, "widths": [None, "6"],
                 "precisions": [None], "specifiers": [specifier],
                 "sizes": [1]},
                bounds="any value of 1 byte, any 3 flags, width none or 6")
            add("C30", f"{name}-{specifier}-precision", integer_operator,
                {"signed": signed, "flag_count": 1, "widths": [None, "6"],
                 "precisions": [".", ".0", ".3", ".*"],
                 "specifiers": [specifier], "sizes": [1]},
                bounds="any value of 1 byte, any flag, with a precision")
            add("C30", f"{name}-{specifier}-five", integer_operator,
                {"signed": signed, "flag_count": 5, "widths": ["9"],
                 "precisions": [None], "specifiers": [specifier],
                 "sizes": [1]}, tier="thorough",
                bounds="any value of 1 byte, any 5 flags, width 9")
        add("C30", f"{name}-sizes", integer_operator,
            {"signed": signed, "flag_count": 0, "widths": [None],
             "precisions": [None], "specifiers": ["d" if signed else "u"],
             "sizes": [0, 1, 2, 3, 4, 5, 7, 8, 9, 16]},
            bounds="any value of 0 to 16 bytes")
    for specifier in "sS@P":
        add("C30", f"string-{specifier}-flags", string_operator,
            {"flag_count": 2, "widths": [None, "1", "4", "*"],
             "precisions": [None], "specifiers": [specifier], "size": 2},
            bounds="any value of 2 bytes, any 2 flags")
        add("C30", f"string-{specifier}-precision", string_operator,
            {"flag_count": 1, "widths": [None, "4"],
             "precisions": [".", ".0", ".1", ".2", ".16", ".*"],
             "specifiers": [specifier], "size": 2},
            bounds="any value of 2 bytes, any flag, with a precision")
    add("C30", "string-empty", string_operator,
        {"flag_count": 1, "widths": [None, "10"], "precisions": [None, ".1"],
         "specifiers": ["s", "@"], "size": 0}, bounds="no value, any flag")
    for size in (4, 8):
        add("C30", f"float-{size}-flags", float_operator,
            {"flag_count": 2, "widths": [None, "12"], "precisions": [None],
             "specifiers": list("feg"), "values": [1, 2, 3], "size": size},
            bounds="3 values, any 2 flags, conversions f, e and g",
            max_ticks=200000)
        add("C30", f"float-{size}-precision", float_operator,
            {"flag_count": 1, "widths": [None, "9", "*"],
             "precisions": [".", ".0", ".2", ".10", ".*"],
             "specifiers": list("fG"), "values": [1, 2, 3], "size": size},
            bounds="3 values, any flag, with a precision", max_ticks=200000)
        values = range(10) if size == 8 else [0, 1, 2, 3, 4, 7, 8, 9]
        add("C30", f"float-{size}-values", float_operator,
            {"flag_count": 1, "widths": [None], "precisions": [None],
             "specifiers": list("aAeEfFgG"),
             "values": list(values), "size": size},
            bounds="values that include infinities, any flag, any "
                   "conversion", max_ticks=200000)
    # The decoders.
    for name, (_, sizes) in DECODERS.items():
        for size in sizes:
            if name.endswith("mbr_details") and size > 4:
                continue
            tier = "quick"
            if (name, size) in ANY_THOROUGH:
                tier = "thorough"
            add("C31", f"decoder-{name}-{size}", decoder,
                {"name": name, "size": size}, tier=tier,
                bounds=f"any value of {size} bytes")
    for (name, size), parts in ANY_THOROUGH.items():
        for part in parts:
            add("C31", f"decoder-{name}-{size}-{part[0][0]}", decoder,
                {"name": name, "size": size,
                 "fixed": bytes(range(0x81, 0x81 + size)).hex(),
                 "holes": part},
                bounds=f"{size} bytes, those at {part} symbolic")
    for kind in ("23", "24", "44", "a0", "a3", "a4", "c3"):
        for length in (5, 6, 7, 8):
            holes = [(1, 4)] + ([(5, length - 5)] if length > 5 else [])
            if kind[1] != "3":
                holes = [(1, length - 1)]
            add("C31", f"membership-{kind}-{length}", decoder,
                {"name": "odtypes:mbr_details", "size": length,
                 "fixed": kind + "00" * (length - 1), "holes": holes},
                bounds=f"type 0x{kind}, {length - 1} symbolic bytes")
    for name in SIGNPOSTS:
        for specifier in "dDiuUxXoOpcC@sSPn":
            for size in (0, 1, 2, 3, 4, 8):
                if size == 8 and specifier in "@sS":
                    continue
                tier = "quick"
                if name[-1] in "23" and specifier not in "dxs":
                    tier = "thorough"
                add("C31", f"{name}-{specifier}-{size}", signpost_value,
                    {"name": name, "specifier": specifier, "size": size},
                    tier=tier, bounds=f"any value of {size} bytes")
        for number, value in enumerate(FLOATS):
            for size in (4, 8):
                if size == 4 and abs(value) > 1e30:
                    continue
                data = struct.pack("<f" if size == 4 else "<d", value)
                for specifier in "fe":
                    add("C31", f"{name}-{specifier}-{size}-{number}",
                        signpost_value,
                        {"name": name, "specifier": specifier, "size": size,
                         "fixed": data.hex()}, tier="thorough",
                        bounds=f"the value {value}")
    for specifier in SPECIFIERS:
        for size in (0, 1, 2, 3, 4, 5, 8):
            if specifier in "aAeEfFgG" and size in (4, 8):
                continue
            if specifier in "@sP" and size > 4:
                continue
            add("C31", f"internal-{specifier}-{size}", internal_value,
                {"specifier": specifier, "size": size},
                bounds=f"any value of {size} bytes")
    base = bytearray(range(72))
    base[0:8] = struct.pack("<d", 12.0)
    base[8:16] = struct.pack("<d", -1.0)
    base[24:32] = struct.pack("<d", 1e10)
    for size in (64, 72):
        for offset, length in ((16, 5), (32, 4), (36, 4), (40, 1), (48, 8),
                               (56, 4), (60, 4), (64, 4), (68, 4)):
            if offset + length <= size:
                add("C31", f"location-{size}-{offset}", location_value,
                    {"fixed": bytes(base[:size]).hex(),
                     "holes": [(offset, length)]},
                    bounds=f"{size} bytes, {offset}..{offset + length - 1} "
                           "symbolic")
    for size in (0, 63, 65, 71, 73):
        add("C31", f"location-{size}", location_value,
            {"fixed": bytes(73)[:size].hex(), "holes": []},
            bounds=f"{size} bytes")


_register()
